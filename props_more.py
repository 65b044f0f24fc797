# executed by props.py
PBT = 'property-based testing: '
p('C04', 'Arrays keep their elements through any history of operations',
  'For any history of push, pop, shift, unshift, splice, slice, concat, reverse, fill, flat, join, indexOf, lastIndexOf, includes, map, filter, forEach, find, findIndex, some, every, reduce, reduceRight, element and length assignment (numeric or string index), element delete, for-in, new Array and aliasing, results and array contents are those of ECMAScript (start arguments are clamped, negatives count from the end), at any size. jsish conventions: the end argument of slice and fill is inclusive; join defaults to no separator; flat drops undefined; reduce of an empty array gives undefined. Results never share element storage with their source; callbacks may change or throw out of the array under iteration without damage, and assigning to a callback parameter changes nothing outside.',
  ['histories', 'inputs'], 'all histories of array operations with any arguments, element types, holes, aliases and callbacks',
  'tests/array.jsi runs one fixed sequence; index boundaries, growth steps, aliasing and mutating callbacks are unbounded.',
  [S + 'jsiArray.c', S + 'jsiObj.c', S + 'jsiEval.c', S + 'jsiValue.c'],
  [('array methods', S + 'jsiArray.c'), ('growth and element storage', S + 'jsiObj.c Jsi_ObjArraySizer, Jsi_ObjArraySet'), ('element assignment', S + 'jsiEval.c jsi_ValueObjKeyAssign')],
  PBT + 'stateful generation of operation histories, differential oracle (independent ECMAScript engine)',
  'histories of 1-12 operations over three arrays and an alias, whole state compared after every operation. Trusts node and the shims for the conventions.')
p('C05', 'Array.sort returns the same elements in the requested order',
  'For any array of numbers, of strings, of booleans, or of anything with a consistent comparison function, sort() reorders the array in place and returns it: a permutation of its elements, ordered by value (mode default: numbers numerically, strings by UTF-8 bytes), reversed (desc), in dictionary order (dict: digit runs by value, then case and leading zeros as tie-break), without case (nocase, ASCII), or by the sign of the compare function, whatever its magnitude. With unique, exactly one element of each class of equal ones is left. Holes stay holes, together at the start (at the end for desc). Any comparison function, even an inconsistent one, leaves a permutation; its exception leaves sort and reaches the caller; array methods it calls on the array being sorted raise an error, and growing or deleting elements there changes nothing in the outcome. Afterwards the array is an ordinary array.',
  ['inputs', 'histories'], 'all arrays (any size) and all mode, unique and compare combinations',
  'the tests sort a few short arrays; orders, sizes, ties and comparison functions are unbounded.',
  [S + 'jsiArray.c', S + 'jsiValue.c', S + 'jsiChar.c'],
  [('sort', S + 'jsiArray.c jsi_ArraySortCmd, SortSubCmd'), ('order', S + 'jsiValue.c Jsi_ValueCmp, jsiChar.c Jsi_DictionaryCompare')],
  PBT + 'generated arrays and options against a reference order',
  'arrays of up to 3000 elements; permutation, order, uniqueness and the later use of the array are checked.')
p('C06', 'Objects keep exactly the properties a history gave them',
  'For any history of property assignment (any string, number or Unicode key, dotted or bracketed), compound assignment, ++/--, delete, reading, in, hasOwnProperty, propertyIsEnumerable, Object.keys, values, assign, merge, create, setPrototypeOf, getPrototypeOf, isPrototypeOf, freeze (with its modifyok and readcheck options, and unfreezing), for-in (with deletes during it), with, and aliasing, over objects of any size: an object holds exactly the own properties assigned and not deleted; reads fall back along the prototype chain, writes (++ included) create own properties; keys enumerate in byte order, own before inherited, each once (jsish convention: Object.keys lists inherited keys too); assign, merge, create, values and plain copies never share or freeze property values with their source. A frozen object rejects, with an error and no change, adding and deleting properties, modifying them (modifyok=false) and reading absent ones (readcheck=true). Getters and setters run with their object as this exactly once per read or write, also for compound assignment and through any expression leading to the object, and their exceptions reach the caller.',
  ['histories'], 'all histories of object operations over any keys, prototype chains and freeze states',
  'the tests run single fixed sequences; histories, key sets, chain shapes and freeze combinations are unbounded.',
  [S + 'jsiObj.c', S + 'jsiProto.c', S + 'jsiValue.c', S + 'jsiEval.c', S + 'jsiTree.c'],
  [('properties', S + 'jsiValue.c jsi_ObjValInsert, jsi_ValueLookupBase, Jsi_IterGetKeys'), ('Object methods', S + 'jsiProto.c Object*Cmd'), ('tree', S + 'jsiTree.c'), ('accessors', S + 'jsiValue.c jsi_SetterCall, jsi_GetterCall')],
  PBT + 'stateful generation of operation histories against a reference model',
  'histories of 2-60 operations over 2-4 objects and of 1-9 over an object with accessors; all objects are compared after every operation.')
p('C07', 'Strings behave as sequences of Unicode characters',
  'For any UTF-8 strings of any length and alphabet: length, indexing, charAt, charCodeAt, substr, substring, slice, indexOf, lastIndexOf, search, split (by a string, by null = whitespace), trim/trimLeft/trimRight (with or without a character list), the case conversions and toTitle (ASCII letters only change), concat, +, +=, repeat, replace of a string by a string or function (first occurrence, no $ expansion), map (with nocase), String.fromCharCode, comparison (by UTF-8 bytes), equality and use as property name all count whole characters and give what ECMAScript gives; negative, out-of-range and huge arguments are clamped (negative starts of substr and slice count from the end). jsish conventions: the end of substring is inclusive and an end before the start gives the empty string. Results do not depend on how the operands were computed, and no operation changes its operands.',
  ['inputs', 'histories'], 'all strings and arguments, in any history of operations',
  'tests/string.jsi has a few ASCII calls; lengths, alphabets, argument ranges and combinations are unbounded.',
  [S + 'jsiString.c', S + 'jsiChar.c', S + 'jsiUtf8.c', S + 'jsiDString.c', S + 'jsiEval.c'],
  [('string methods', S + 'jsiString.c String*Cmd'), ('substring and search', S + 'jsiChar.c jsi_SubstrDup, Jsi_Strpos'), ('UTF-8', S + 'jsiUtf8.c'), ('buffers', S + 'jsiDString.c')],
  PBT + 'stateful generation of operation histories against a reference model on code points',
  'histories of 2-14 operations over three strings of 0-60000 characters; NUL characters excluded; slice with a start and an end, trim of non-ASCII characters and split("") of non-ASCII text are recorded findings left out of the generator.')
p('C08', 'Regular expressions match, capture and replace consistently',
  'For any POSIX extended regular expression (literal or new RegExp, flags g, i, m in any combination, any number of groups) and any subjects: test, exec, String.match, search and replace all agree on the leftmost-longest match of the C library with those flags. exec and match return the match followed by every group in order, null for a group that took no part and "" for an empty one; match with g returns all matches, exec with g continues at lastIndex (counted in characters, kept per object even when several objects have the same source, 0 after a failure, settable) and every iteration steps over empty matches; ^, $, \\b look at the whole subject. replace replaces the first or (g) every match, expanding $0-$9, $&, $$, $`, $\', or calling the function with the match (one parameter) or with match, groups, offset and subject; nested use of the same expression inside the callback changes nothing. A string pattern given to match is compiled and stays a string. Malformed patterns raise a catchable error. Subjects are never changed.',
  ['inputs', 'histories'], 'all patterns, flags, subjects and histories of operations on shared expressions',
  'tests/regex.jsi runs a dozen fixed matches; patterns, empty matches, unmatched groups and lastIndex histories are unbounded.',
  [S + 'jsiRegexp.c', S + 'jsiString.c', S + 'jsiLexer.c'],
  [('compile, exec, match', S + 'jsiRegexp.c Jsi_RegExpNew, jsi_RegExpMatches, RegexpExecCmd'), ('replace', S + 'jsiString.c StringReplaceCmd'), ('search', S + 'jsiString.c StringSearchCmd')],
  PBT + 'generated patterns and operation histories against a reference model over the C library regcomp/regexec',
  'the matching engine itself (libc) is trusted; the POSIX subset plus \\b \\w \\s \\< is generated; a . or negated class never meets non-ASCII text (recorded finding: it matches single bytes); up to 60 groups.')
p('C09', 'Numbers, their texts and Math functions are exact',
  'For every IEEE double, including subnormals, infinities, integers beyond 2^53 and halves: a literal (decimal, exponent, hexadecimal, leading-0 octal) denotes the nearest double; the text of a number, however produced (concatenation, String, toString, join, property key), is its exact integer if it is one below 2^63 and otherwise has 15 significant digits (%.15g), Infinity, -Infinity or NaN; Number(), unary + and arithmetic read strings (surrounding whitespace allowed, empty is 0, 0x hexadecimal, otherwise NaN); parseInt(text, base 2-36) and parseFloat read the longest numeric prefix after whitespace and a sign, else NaN (without a base a leading 0 means octal, 0x hexadecimal). toFixed and toExponential print the correctly rounded decimal with 0-100 digits, toPrecision(n) the decimal cut after n digits, toString(16) and toString(8) sign and magnitude of the integer part, toString(10) the ordinary text. Math.abs, ceil, floor, round (halves up), sqrt, min, max (NaN wins) are exact, the other Math functions within a few units in the last place with IEEE special cases (pow overflows to Infinity). isNaN, isFinite, isInteger, isSafeInteger classify correctly. Math.random lies in [0,1) and repeats for the same srand seed.',
  ['inputs'], 'all doubles and all literal and string spellings of numbers',
  'tests/math.jsi and number.jsi evaluate each function at one point.',
  [S + 'jsiNumber.c', S + 'jsiMath.c', S + 'jsiValue.c', S + 'jsiLexer.c', S + 'jsiCmds.c'],
  [('number to text', S + 'jsiValue.c Jsi_ValueToString, Jsi_NumberToString'), ('text to number', S + 'jsiValue.c Jsi_ValueToNumberInt, jsiCmds.c parseIntCmd'), ('literals', S + 'jsiLexer.c'), ('Number methods', S + 'jsiNumber.c'), ('Math', S + 'jsiMath.c')],
  PBT + 'generated doubles and spellings against a reference (correctly rounded conversions, libm)',
  'toPrecision and other radices are recorded findings and not generated; -0 and 0 are not told apart.')
p('C10', 'JSON carries values unchanged in both directions',
  'For any value built from null, booleans, finite numbers (15 significant digits, integers below 2^63 exactly), Unicode strings, arrays and objects with any keys, at any size and nesting up to 200: JSON.stringify, compact or indented by any width, gives valid JSON text denoting that value (undefined properties are left out, undefined elements, NaN and infinities become null); JSON.parse of that text gives the value back and stringify of the result the same text; each property of an indented text stands on its own line, indented by its depth. JSON.parse of any valid JSON text, in any spelling (white space, \\u escapes in either case and surrogate pairs in strings and keys, \\/ , exponents, nesting up to 1000), gives the value an independent parser gives, and JSON.check accepts it if it is an array, object or string. Text with unbalanced or mismatched brackets, an unclosed string, an invalid escape or a bare word other than true, false, null is rejected: parse raises a catchable error, check returns false, and later parsing is unaffected. With strict=false unquoted names are read and written. Cyclic values and text nested too deeply raise an error; no text, however damaged, crashes.',
  ['inputs'], 'all values and all texts, valid, damaged or arbitrary',
  'tests/json*.jsi convert a dozen fixed values; strings, keys, escapes, numbers, nesting and damage are unbounded.',
  [S + 'jsiJSON.c', S + 'jsmn.c', S + 'jsiUtils.c', S + 'jsiUtf8.c'],
  [('parse', S + 'jsiJSON.c Jsi_JSONParse, jsonNewDString; jsmn.c Jsi_JsonParse'), ('stringify', S + 'jsiUtils.c jsiValueGetString, jsi_ObjectGetFmt'), ('escapes', S + 'jsiUtf8.c Jsi_UtfEncode, Jsi_UtfDecode')],
  PBT + 'generated values (round trip), generated and damaged JSON texts (differential against an independent parser)',
  'the documented leniency of the parser (missing or extra commas and colons, malformed numbers) is not judged; lone surrogates, invalid UTF-8 and NUL excluded.')
p('C11', 'Literals denote their values and displayed values read back',
  'For any text, a string literal in any of the three quote styles and any mix of raw characters (including line breaks and comment or quote characters of other kinds, anywhere in the source), the escapes \\n \\r \\t \\b \\f \\0 \\\\ \\\' \\" \\` and \\uXXXX (surrogate pairs included) denotes exactly that text at any length, NUL included, wherever the literal stands (argument, array element, switch case, operand). Number literals - decimal with or without integer part, fraction and exponent, hexadecimal in either case and of any length, octal with a leading 0 - denote the nearest double, whatever operator, comment or line break follows at once, and a malformed number is refused. Array and object literals, nested, with bare, numeric or quoted keys, trailing commas, comments and line breaks, denote exactly their elements, and every evaluation of a literal gives a fresh value. The displayed text of an array or object (toString, puts) evaluates to an equal value, undefined, NaN, infinities and non-identifier keys included, and is the same text again; quote(text) evaluates to text.',
  ['inputs'], 'all texts, spellings and nested values',
  'the tests use short ASCII literals; spellings, lengths at buffer boundaries and nesting are unbounded.',
  [S + 'jsiLexer.c', S + 'jsiUtils.c', S + 'jsiEval.c'],
  [('string literals', S + 'jsiLexer.c jsi_do_string, jsi_do_sign'), ('number literals', S + 'jsiLexer.c jsi_yylex'), ('display', S + 'jsiUtils.c jsiValueGetString'), ('array and object literals', S + 'jsiEval.c OP_ARRAY, OP_OBJECT')],
  PBT + 'generated literals against the value they spell; round trip through the displayed text',
  'literals up to 20000 characters, nesting 3-4; backslash-newline, reserved words as bare keys and display of NUL characters not generated.')
p('C12', 'Digests, checksums, encryption and text encodings follow their definitions',
  'For any bytes, NUL included, of any length (all block boundaries): Util.hash gives the SHA-256, SHA-1, MD5, SHA3-224/256/384/512 digest, in hex or with noHex as bytes, of the text followed by the contents of the given file; with hashcash:n the digest is that of data:nonce (eight hex digits) for the smallest nonce whose digest starts with n zero bits. Util.crc32 is the standard CRC-32 and continues from a seed, so the crc of a text in pieces is that of the whole. Util.base64 encodes per RFC 4648 in lines of 72 and decodes any layout (line breaks, blanks, missing padding) back to the bytes; Util.hexStr encodes and decodes hex of either case and refuses anything else. Util.decrypt(Util.encrypt(d,k),k) is d, another key does not give d, and the encryption is XXTEA with the key of 32 bytes or the SHA-256 of any other key. decodeURI and decodeURIComponent undo their encoders; encodeURIComponent leaves only ASCII letters, digits, -_.!~*\'() and non-ASCII as they are, encodeURI also ;,/?:@&=+$#, every other byte is %hh or + for a blank. fromCharCode gives the UTF-8 text of a code.',
  ['inputs'], 'all byte strings, keys and options',
  'tests/util.jsi hashes one 24-character text; tests/b64.jsi encodes "1234". Block boundaries, padding, binary data and SHA3 are untested.',
  [S + 'jsiCrypto.c', S + 'jsiCmds.c', S + 'jsiUtils.c'],
  [('digests', S + 'jsiCrypto.c jsi_CryptoHash, Jsi_CryptoHash'), ('encryption', S + 'jsiCrypto.c Jsi_Encrypt, jsi_btea'), ('base64, crc32, URI', S + 'jsiCmds.c B64EncodeDStr, B64DecodeDStr, Jsi_Crc32, url_encode, url_decode'), ('hex', S + 'jsiUtils.c Jsi_HexStr')],
  PBT + 'generated byte strings against Python hashlib, zlib, base64 and an independent XXTEA; round trips',
  'data up to 9000 bytes, encryption of at least 2 (XXTEA leaves up to 4 bytes unchanged), hashcash up to 10 bits; URI texts without NUL, and without + in encodeURI.')
p('C13', 'format and printf follow C formatting',
  'For any format and arguments: format returns, and printf writes, the literal text with %% as %, and each conversion formatted as C does: d i u o x X (64-bit, fractions truncated) and e E f g G a with any flags (- 0 + # blank \'), width and precision, written in the format or taken from the arguments by * (a negative width means left), to any size; s (texts, NUL included) and S (any value as displayed) cut to the precision and padded to the width counted in bytes; c a one-character text or the byte of a code, C the UTF-8 text of a code up to 255. l and ll are accepted. Too few arguments, an argument of another type, an unknown or incomplete conversion are a catchable error, and formatting goes on working afterwards.',
  ['inputs'], 'all formats and arguments',
  'tests/format.jsi formats three texts; flag, width and precision combinations and buffer boundaries are unbounded.',
  [S + 'jsiFormat.c', S + 'jsiCmds.c'],
  [('format', S + 'jsiFormat.c Jsi_FormatString'), ('printf', S + 'jsiCmds.c SysPrintfCmd_')],
  PBT + 'generated formats and arguments against libc snprintf and byte padding',
  'width and precision up to 2000 and 1000, texts up to 4096 bytes; the flag 0 with s and c, a negative precision, h and %q are not generated.')
p('C14', 'Times are formatted and parsed exactly',
  'For any instant, before 1970 included, to the millisecond, and any time zone with or without daylight saving: strftime with utc gives the UTC text, else the local text, in any format of C strftime directives, %f being the three digits of the millisecond, iso the format %FT%T.%f, the default format %Y-%m-%d %H:%M:%S, with secs the time counted in seconds. strptime reads back what strftime writes with the same format and options (a local time that occurs once); without a format it reads dates with - and optional times with T or a blank, with or without seconds, fraction (milliseconds, more digits ignored) and zone offset +hh:mm; what is no time gives NaN. No argument, null, "" and "now" mean the present.',
  ['inputs'], 'all instants, formats and time zones',
  'tests/time.jsi formats five instants after 1970 in the time zone of the machine.',
  [S + 'jsiCmds.c'],
  [('format', S + 'jsiCmds.c Jsi_DatetimeFormat'), ('parse', S + 'jsiCmds.c Jsi_DatetimeParse')],
  PBT + 'generated instants, formats and five time zones against libc (through Python)',
  'years 1000-9999; %f not first in the format; strptime with times without a date not generated.')
p('C15', 'Files and channels read and write what they are asked to',
  'Channels: for any history of open (r w a, with + and b), write, puts, read(n), gets, seek, tell, eof, truncate, flush, stat and close on one object, every result and the final file contents are those of a byte sequence with a position: reads give exactly the bytes there (binary, NUL included, any size around the 8192-byte buffer), gets one line of any length without its line feed, seeking beyond the end and writing fills with zero bytes, append always writes at the end, read past the end gives undefined and eof, reading a write-only or writing a read-only channel transfers nothing, a failed open gives false (an error from new), and a closed channel reads undefined, writes 0 and otherwise raises an error until opened again. Files: for any sequence of File.write (modes), read, copy, rename, remove, mkdir, link (symbolic and hard), truncate, chmod on a tree, each succeeds or fails as the operation of the system does and the tree is what it should be: copy and rename refuse an existing target unless forced, copy keeps the mode, remove refuses a non-empty directory unless forced, then deletes all of it but nothing links in it point to, forced mkdir makes parents; failed operations change nothing and leave no file open. exists, isdir, isfile, readable, writable, executable, perms, owned, size, atime, mtime, stat, lstat, readlink, pwd report the true state. tempfile makes a new empty file with mode 600.',
  ['inputs', 'operation sequences'], 'all histories of operations on channels and trees',
  'tests/file*.jsi do one fixed sequence with short text; buffer boundaries, modes, links, failing operations and histories are unbounded.',
  [S + 'jsiFilesys.c', S + 'jsiFileCmds.c'],
  [('channels', S + 'jsiFilesys.c Jsi_Open, FilesysGetsCmd, FilesysReadCmd, FilesysSeekCmd'), ('file commands', S + 'jsiFileCmds.c FileCopy, FileRemoveCmd, RmdirAll, mkdir_all, jsi_FileStatCmd')],
  'property-based testing (stateful): generated histories against a byte-and-position model and against the same operations done by Python on a twin tree, as an unprivileged user in a scratch directory',
  'up to 26 channel operations and 40 file operations; a seek separates reading from writing as in C; files up to 100 KB; no paths with ~ or through ..; mknod not covered.')
p('C16', 'Path functions and File.glob name exactly the right files',
  'For any path: tail is the text after the last /, dirname the text before it (/ for the root, . if there is none), extension the end of the tail from its last dot, rootname the path without that, isrelative whether it does not start with /. normalize gives the absolute path with no empty, . or .. component, lexically; realpath the path with every symbolic link resolved, for files that do not exist the existing part resolved; join the realpath of the two joined by / or of the second if absolute. For any directory tree: File.glob returns each non-hidden entry that matches and no other, once: pattern with * ? [sets], also in directory parts, or a regular expression on the name, or all; in the current directory or dir; recurse descends (following links to directories) up to maxDepth; types f, d, l select (links to directories count as directories, dangling links are left out); filter and dirFilter are asked; names are relative to dir, absolute for an absolute pattern, the last part only with tails, with prefix in front; limit bounds the number; retCount gives the number, retInfo size, owner, mtime and name of each. A missing directory is an error.',
  ['inputs'], 'all paths, trees, patterns and option combinations',
  'tests/file*.jsi list two fixed directories; patterns, options, symbolic links and .. are unbounded.',
  [S + 'jsiFilesys.c', S + 'jsiFileCmds.c', S + 'jsiUtils.c'],
  [('paths', S + 'jsiFilesys.c Jsi_NormalPath, Jsi_FileRealpathStr; jsiFileCmds.c File*Cmd'), ('glob', S + 'jsiFileCmds.c SubGlobsDirectory, FileGlobCmd; jsiUtils.c Jsi_GlobMatch')],
  PBT + 'generated paths, trees and calls against Python (os.path) and an independent matcher and walker',
  'paths up to 3500 characters without .. after a missing component; types with d and recurse together, noTypes other than d, prefix with retInfo, link cycles not generated.')
p('C17', 'Safe mode contains a script',
  'A script in a safe interp (an interp made with isSafe, safeMode, safeReadDirs, safeWriteDirs or lockDown, its sub-interps, a main script run with -s, --I isSafe, --I safeMode=... or --I lockDown=dir) reads file contents and directories only where safeReadDirs allow and changes the file system only where safeWriteDirs allow, however the path is written (relative, .., //, symbolic links in any component, names that merely begin like an allowed directory) and through every command: File, Channel, source, require, Util.hash, Sqlite (open, ATTACH, VACUUM INTO, import, backup, restore), Zvfs; an access outside raises an error and has no effect, one inside works exactly as without safe mode, for a directory listed with or without a trailing slash, or a single file. In lockdown mode no new file is made and File commands that change files are refused. A safe interp cannot load libraries, read or set the environment, change its safety or limit options by Interp.conf, or gain any of this through sub-interps, which inherit safety, directories, limits and noLoad, noNetwork, noStderr whatever options they are made with. exec runs only commands that match safeExecPattern and have none of < > | ; & $ ` = and line break.',
  ['inputs', 'operation sequences'], 'all histories of operations, paths, directory lists and modes',
  'tests/safe.jsi tries a handful of operations; links, path spellings, commands, modes and their combinations are unbounded.',
  [S + 'jsiInterp.c', S + 'jsiFilesys.c', S + 'jsiFileCmds.c', S + 'jsiSqlite.c', S + 'jsiZvfs.c', S + 'jsiCmds.c', S + 'jsiLoad.c'],
  [('access decision', S + 'jsiInterp.c Jsi_InterpAccess'), ('guards', S + 'jsiFileCmds.c SAFEACCESS; jsiFilesys.c Jsi_Open, Jsi_Scandir; jsiSqlite.c dbSafeAccess; jsiLoad.c Jsi_LoadLibrary'), ('inheritance', S + 'jsiInterp.c jsi_InterpNew, InterpConfCmd; jsiOptions.c lock flags'), ('exec', S + 'jsiCmds.c jsi_SysExecCmd')],
  'property-based testing (stateful): generated histories as an unprivileged user in a scratch tree; which accesses are allowed is decided by Python realpath, allowed ones are compared with an unsafe interp on a twin tree, everything outside must stay unchanged',
  'up to 16 operations; whether a file exists, its time and permissions (File.exists, isdir, mtime, perms) are not guarded by design; no concurrent change of links.')
p('C18', 'Sub-interps are isolated and exchange values only by copy',
  'For any history over a tree of interps (made by new Interp in the main interp or in a sub-interp, deleted in any order) of eval, call with wait, value, alias and delete: each interp has its own variables, functions and built-in objects, so assigning, changing a prototype, Math or a built-in function in one never shows in another; every value that crosses (result of eval, call and value, arguments of call and alias, result of an aliased function) arrives equal to what was sent for null, booleans, numbers of up to 15 digits, strings of valid UTF-8 of any length, and arrays and objects of them at any depth, as a copy: later changes on either side do not show on the other. A function aliased into a sub-interp is called in the interp that made the alias with the alias arguments followed by those of the call, may call back into the sub-interp, and its exception is an error in the sub-interp, where it can be caught; alias lists, redefines and deletes. An error (uncaught throw, syntax error, unknown function or variable) in a sub-interp is an error of the eval or call in the parent that can be caught, after which both work normally; using a deleted interp is an error. Calls without wait are each made exactly once in order when events are handled; the same holds for interps in threads of their own, whose eval is executed in order with correct results and errors.',
  ['inputs', 'operation sequences', 'schedules'], 'all histories, trees of interps, values and interleavings',
  'tests/alias*.jsi and interp*.jsi do fixed sequences with one sub-interp.',
  [S + 'jsiInterp.c', S + 'jsiValue.c', S + 'jsiJSON.c'],
  [('eval, call, value', S + 'jsiInterp.c InterpEvalCmd_, InterpCallCmd, InterpValueCmd'), ('alias', S + 'jsiInterp.c InterpAliasCmd, jsi_AliasInvoke'), ('copy', S + 'jsiValue.c Jsi_CleanValue'), ('events', S + 'jsiInterp.c SubInterpEvalCallback, jsi_AddEventHandler')],
  'property-based testing (stateful): generated histories against a model of separate variable sets with copies',
  'up to 45 steps, six sub-interps, depth 4, up to 3 threads; with threads async eval and aliases are not generated; error texts are not judged.')
p('C19', 'Resource limits and deep recursion give errors that can be caught',
  'Recursion of any shape (direct, mutual, method, eval, callbacks of map, forEach, reduce, sort, replace, call, apply, bind, new, alias into a sub-interp, inside try, finally, with, for-in, switch) gives the right result up to the limit and beyond maxDepth an error that can be caught, after which everything works; a program may run no more than maxOpCnt operations in its interp, and one below it is not affected. An array longer than maxArrayList is never made silently shorter: every way of making or growing an array (push, unshift, splice, concat, literals, JSON.parse, split, match, Object.values and keys, slice, map, filter, Sqlite queries) gives all the elements or an error. maxInterpDepth, maxIncDepth and maxUserObjs bound nested interps, nested source and the number of user objects; busyCallback is called every busyInterval operations and an error in it stops the sub-interp. Values and program texts nested to any depth are made, walked (JSON, display, compare, sort, merge, freeze, copy to another interp) and freed with a right result or an error, never a crash.',
  ['inputs', 'resource limits'], 'all recursion shapes, limits, loops, list sizes and nesting depths',
  'tests/deep*.jsi tries one recursion; boundaries of limits and nesting of values are unbounded.',
  [S + 'jsiEval.c', S + 'jsiObj.c', S + 'jsiArray.c', S + 'jsiInterp.c', S + 'jsiJSON.c'],
  [('call depth and operation count', S + 'jsiEval.c jsiEvalCodeSub, jsi_evalcode'), ('arrays', S + 'jsiObj.c Jsi_ObjArraySizer'), ('deep values', S + 'jsiObj.c Jsi_ObjFree'), ('limits', S + 'jsiInterp.c')],
  PBT + 'generated recursion shapes, loops, sizes and nestings around the limits against the value computed in closed form',
  'depth up to 60000 for values, 6000 for texts, lists up to 3 times the limit; memory limits (maxMemory, out of memory) not covered.')
p('C20', 'Typed parameters: a call is made only if its arguments fit the declaration',
  'For any function with any number of parameters, each with no type, a type, a union of types (number string boolean array object function regexp userobj null undefined any), a default (number, string, boolean, null, undefined, void, adding its type to the union), ... at the end and a return type, called in any way (direct, call, apply, bind, new, eval, through a variable), with any arguments: the body runs if and only if the number of arguments lies between the parameters without default and all of them (more with ...) and each has one of the types, undefined only for undefined, any or an omitted parameter with default; parameters then have the values passed or their defaults, arguments.length the number passed; a result that is not of the return type is an error. A call that does not fit is an error that can be caught and names the parameter. typeCheck noreturn and noundef lift the check of results and of undefined, noCheck and noError all of them. Every built-in command refuses too few, too many or wrongly typed arguments according to its declaration in Info.cmds, and the interpreter works on.',
  ['inputs'], 'all declarations, calls and argument values',
  'tests/func.jsi, strict.jsi check some twenty calls; the combinations of types, unions, defaults and ways to call are unbounded.',
  [S + 'jsiFunc.c', S + 'jsiProto.c', S + 'jsiPstate.c', S + 'parser.y'],
  [('argument types', S + 'jsiFunc.c jsi_ArgTypeCheck'), ('argument count', S + 'jsiFunc.c jsi_RunFuncCallCheck'), ('defaults', S + 'jsiProto.c jsi_SharedArgs; jsiPstate.c jsi_argInsert')],
  PBT + 'generated declarations and calls against a predicate over types; generated wrong calls of all built-in commands listed by Info.cmds',
  'up to 12 parameters; parse-time checks (funcdecl) not covered; new with a return type, Array.isArray and Number.is* not judged.')
p('C21', 'Sqlite stores what is bound and returns what is stored, in every form',
  'Every value bound in a statement, in any form (? with values, :name, @name, $name, $obj(member), $obj(a.b), $arr(i), $arr([var]), $arr([var].member), with a type :string :double :integer :bool :blob, and each typeCheck, mapundef, forceInt, noJsonConv, nocache) is stored as SQLite stores it (numbers exact, text byte for byte, empty and binary blobs, booleans, null, objects and arrays as JSON), leaves the script variable unchanged, is refused when it has no form in SQL, and is read back equal in query modes rows, arrays, array1d, with a callback and by onecolumn (booleans from BOOL columns, values from CHARJSON columns). The text modes list, csv, tabs, html, line, insert, json, json2 and column hold exactly the stored values (csv parsed, insert executed and JSON parsed give them back) under any headers, limit, nullvalue, separator, table and width. Histories of query, eval, nested transactions (committed, failed by throw or SQL error), callbacks (nested queries, limit, false to stop, throw), schema changes, statement cache sizes, backup and restore give the tables, results, counters and errors that SQLite itself gives; a failed transaction changes nothing. Objects named with %v create tables of their shape and defaults and are inserted and updated as they are, with skip, noTypes, noDefaults, noChecks, defaultNull. import reads exactly the records of a csv or separated file (quotes, newlines, long fields, headers, nullvalue, limit, conflict) or changes nothing and fails. func, collate, onNeedCollate, regexp, onUpdate, onCommit, onRollback and onAuth are called with the right arguments and their results used.',
  ['inputs', 'operation sequences'], 'all values, declarations, bind forms, options, histories and files',
  'tests/sqlite*.jsi run fixed statements over a few rows; forms, types, options and histories multiply.',
  [S + 'jsiSqlite.c', S + 'jsiUtils.c', S + 'jsiJSON.c'],
  [('binds', S + 'jsiSqlite.c dbPrepareAndBind'), ('modes', S + 'jsiSqlite.c SqliteQueryCmd'), ('transactions', S + 'jsiSqlite.c SqliteTransactionCmd, DbTransPostCmd'), ('objects', S + 'jsiUtils.c Jsi_SqlObjBinds'), ('import', S + 'jsiSqlite.c SqliteImportCmd'), ('hooks', S + 'jsiSqlite.c DbUpdateHandler, auth_callback')],
  'property-based testing (differential, stateful): generated statements, rows, files and histories run in the interpreter and, as plain SQL, through the Python binding of SQLite; text modes by round trip',
  'up to 30 columns, 30 rows, 30 steps; text with embedded NUL, ?N binds, onTrace, onProfile, write-ahead log and concurrent connections not covered; column and line layouts as the test suite has them.')
p('C25', 'Containers of the C API behave as maps, lists, stacks and strings',
  'For any history of operations, Jsi_Hash, Jsi_Tree and Jsi_Map of them with string, interned string, word (all 64 bits) and struct keys of any size hold exactly the entries of a finite map: set, EntryNew (isNew), Get, EntryFind, ValueSet, EntryDelete, Unset, Size, Clear (usable again afterwards), Delete; the free procedure gets each non-null value exactly once when its entry goes by EntryDelete, Unset, Clear or Delete. A hash search visits every entry once, also while the current entries are deleted. Trees keep their keys in order (words as unsigned numbers, structs by bytes, interned strings by bytes, strings in dictionary order, which is a total order, or a compareTreeProc), are balanced (depth and compares at most 2 log2(n+1)+1) at all times, and Search and Walk in, pre, post and level order, stopped anywhere or started at a key, visit every entry once in the order of one binary tree. Jsi_List keeps the order of entries under push (front, back, before an entry, from another list), pop, delete, iteration both ways with deletion, clear; Jsi_Stack push, pop, unshift, peek, head as a double-ended queue. A Jsi_DString of any declaration and static size holds exactly the bytes of AppendLen, Append, Printf (output of any length), Set, SetLength (truncate or reserve), Free, FreeDup, with right length and a final NUL. Jsi_SplitStr gives the parts between separators.',
  ['operation sequences'], 'all histories, keys, sizes and declarations',
  'no test calls these directly except through scripts; growth, balancing and buffer boundaries need long histories.',
  [S + 'jsiHash.c', S + 'jsiTree.c', S + 'jsiUtils.c', S + 'jsiDString.c', S + 'jsiChar.c'],
  [('hash', S + 'jsiHash.c RebuildTable, Jsi_HashEntryDelete, Jsi_HashClear'), ('tree', S + 'jsiTree.c insert_case1, delete_case1, SwapNodes, searchAdd'), ('list, map, stack, split', S + 'jsiUtils.c'), ('strings', S + 'jsiDString.c Jsi_DSAppendLen, Jsi_DSPrintf, Jsi_DSSetLength'), ('order', S + 'jsiChar.c Jsi_DictionaryCompare')],
  'property-based testing (stateful, model-based): generated histories run through the C API under AddressSanitizer against Python dictionaries, lists and bytes',
  'up to 80 operations, 700 tree entries, 1000 hash entries, strings of 60000 bytes; overwriting a value by set does not free the old one, and list EntryDelete does not call the free procedure (as the code has it).')
p('C22', 'Zip archives and compressed channels hold exactly the data written',
  'Zvfs.create and Zvfs.append (any number of batches, lists and path prefixes, onto a new or an existing file with any bytes) write archives that any zip reader reads: names in order, contents, checksums, sizes, modes, directories and times (to two seconds) are those of the files, bytes before the archive and entries already there (also of other programs) keep content and attributes; create over an archive or a missing file is an error; offset gives where the archive starts, list its entries, truncate removes it leaving exactly the bytes before. An archive (made by Zvfs or any zip program, stored or deflated, with extra fields and comments of entries) mounted at a given, empty or default mount point shows exactly its files: File.read, size, exists, isfile, isdir, glob, stat, mtime, Zvfs.stat; several channels at once read, gets, seek, tell and eof like a file with the same content of any size; it cannot be written; after unmount it is gone, and names lists the mounts. A channel of mode wz or wZ (levels 1 to 9) stores what is written by any sequence of write, puts and flush as gzip or zlib data that other programs read, and rz or rZ reads such data (with any gzip header) exactly by read and gets with tell and eof. Zvfs.inflate gives back what Zvfs.deflate or zlib at any level compressed, for any bytes and size, and an error for damaged or truncated data. Damaged archives and compressed files give errors or data, never a crash, endless loop or growing file, and the interpreter goes on working with others.',
  ['inputs', 'operation sequences', 'injected faults'], 'all trees of files, contents, archives, read sequences and damages',
  'no test uses Zvfs except for the files of the program itself.',
  [S + 'jsiZvfs.c', S + 'jsiFilesys.c', 'miniz/miniz.c'],
  [('write', S + 'jsiZvfs.c CreateCmd, writeFile, writeTOC, ZvfsReadTOCStart'), ('mount and read', S + 'jsiZvfs.c Zvfs_Mount, ZvfsLookup, vfsInput, vfsSeek, Jaz_FS*'), ('compressed channels', S + 'jsiZvfs.c Jfz_FS*'), ('inflate', 'miniz/miniz.c tinfl_decompress')],
  'property-based testing (differential, stateful, fault injection): generated trees, archives, read sequences and damages against zipfile, gzip and zlib of Python',
  'archives up to 400 entries and 300 KB; directories without an entry, archive comments, zip64, encryption not covered; several gzip members in a file are a known finding.')
p('C23', 'Sockets: each side gets exactly the bytes sent to it, in order',
  'For any number of clients of a TCP Socket server and any history of sends (queued, noAsync or with the option noAsync; by a client, to one id, to all with -1, from inside of onRecv; any bytes, any sizes) and of update() and Socket.update calls, what a side receives in onRecv or recv() is exactly what was sent to it on this connection, in the order of the calls, with nothing lost, doubled or given to another connection; the peer may be any program. When a connection is closed with data under way a prefix arrives. Ids count from 1 in the order of connecting, and a client has id 0; onOpen is called once for each connection with the address and may refuse it with false; more than maxConnects are refused; onClose is called once, with the id, for a connection the peer closed, and onCloseLast after the last; names() lists the open ids, connectCnt counts them and idconf(id) counts what was received; close() ends listening or the client, close(id) that connection, close(-1) all, also from inside of a callback; each closed connection gives back its descriptor. A wrong id, data that is not a string and unknown send options are errors. Datagrams (udp) arrive whole, once and in order.',
  ['inputs', 'histories', 'schedules'], 'all histories of sends, closes and updates, data and sizes',
  'no test uses Socket at all.',
  [S + 'jsiSocket.c', S + 'jsiUtils.c'],
  [('send', S + 'jsiSocket.c SocketSendCmd, sock_handler'), ('service', S + 'jsiSocket.c sockService, sockGetPss, sockDeletePss, sockLost'), ('commands', S + 'jsiSocket.c SocketCloseCmd, SocketRecvCmd, SocketIdsCmd, SocketIdConfCmd')],
  PBT + 'histories over one server and up to 6 clients in one process are drained and compared with the bytes sent; echo servers and clients written in Python are the peer of the other cases',
  'loopback and IPv4 only; up to 45 KB under way (sends block beyond the socket buffers); datagrams up to 8 KB, from client to server; multicast, broadcast and time-out options not covered.')
p('C29', 'Program text: no text crashes, layout is free, errors name their line',
  'For any bytes, tokens, mutated programs or files given to eval, a function body, a sub-interp or source with noEval, the result is a value or an error that can be caught: never a crash or endless parse, and the interpreter works afterwards. White space, newlines (also carriage returns), // and /* */ comments with any content between the tokens of a program, a #! first line, text after the last statement without newline, and running the text directly, by eval, by source or in a function do not change what it does. Identifiers, strings with any escapes and quotes, numbers, comments, regular expressions, keys, argument lists, operator chains, switch, else-if chains, blank lines and numbers of statements of any length (also around the sizes of buffers) mean what they say. An error (throw, unknown function, assignment to a member of undefined, wrong arguments) names the file and line where it was raised, at top level and in functions of any depth, in the message, the call backtrace and Info.error(), however the file is run. Util.complete is true for text with balanced brackets and quotes and false with one left open.',
  ['inputs'], 'all texts, layouts, token lengths and places of errors',
  'tests are fixed well-formed programs; damaged text, layout and buffer boundaries are unbounded.',
  [S + 'jsiLexer.c', S + 'parser.y', S + 'jsiPstate.c', S + 'jsiUtils.c', S + 'jsiCode.c'],
  [('tokens', S + 'jsiLexer.c jsi_yylex, jsi_do_string, jsi_do_regex, jsi_do_sign, jsi_eat_comment'), ('errors', S + 'jsiUtils.c Jsi_LogMsg, jsi_GetLineOfs'), ('backtrace', S + 'jsiUtils.c jsi_DumpStackTrace')],
  'property-based testing (fuzzing with mutation, metamorphic): generated and mutated text under AddressSanitizer; relations between a program and its re-laid-out form; errors planted at known lines',
  'text up to 300 KB, identifiers up to 1000 characters, numbers up to 960; columns and lines of syntax errors and of statements over several lines not judged; errors in statements whose operators touch the newline not judged.')
p('C24', 'Timers and signals: each callback runs when due, once per period, or never',
  'For any history of setTimeout, setInterval, Signal.callback, clearInterval, update with any options, Signal.kill, Event.names and Event.info, at top level and inside callbacks (also update within callbacks, a callback clearing itself or others or making new ones, throwing), at any time and on any boundary of seconds: a callback is never called before its time, after it was cleared, while it is running, or (setTimeout) more than once; every event due at the start of a pass over the events is called in it; the next call of an interval is its period after the pass; events made in a pass wait for the next. update() makes one pass, update(ms) and minTime pass until that time is over (not before), -1 for ever, maxPasses, maxEvents and sleep bound passes, calls and pauses; the result is the number of calls. A signal with a callback is delivered at the next pass, several before it count once; after clearing it is not. names and info tell the events, their period, count, time left and whether they run. An error in a callback does not keep others from running. A sub-interp has timers of its own, an interp may end or be deleted with events pending, and exit in a callback ends the program with that code.',
  ['operation sequences', 'schedules'], 'all histories, times and options',
  'tests/event*.jsi make two timers on the real clock; due times, clearing in callbacks and second boundaries need a virtual clock.',
  [S + 'jsiCmds.c', S + 'jsiSignal.c', S + 'jsiInterp.c'],
  [('passes', S + 'jsiCmds.c Jsi_EventProcess, SysUpdateCmd'), ('timers', S + 'jsiCmds.c intervalTimer, clearIntervalCmd'), ('signals', S + 'jsiSignal.c SignalCallbackCmd')],
  'property-based testing (stateful, model-based, virtual clock): the trace of generated histories is followed by a model of events, under AddressSanitizer',
  'up to 14 events with nested updates, 60 periodic timers; order of events due in one pass, two callbacks for one signal, alarm and the asynchronous calls of threads not judged.')
p('C27', 'Module options: defaults, declared types, command line, frozen result',
  'For any declaration of options with defaults of any type and any values, moduleOpts, getOpts and parseOpts give an object with the members of self, the defaults of the options not in it, and the given values; an option that was not declared, a value undefined or of another type than a default that is a number, string or boolean (0 and 1 stand for booleans; a default null, array, object takes any value) is an error that names it; the declaration and the values are not changed; the result can be changed but reading or setting members it does not have is an error. Debug, Trace, Test and Assert are known to moduleOpts always. Leading arguments "-name value" of a module, run from the command line, by moduleRun with a name or function, or after require, become the values (numbers, true, false, null as such, other text as string), "--" ends them, the rest are the arguments, and an option without value is an error; -h shows title, name, default and comment of each option. matchObj tells whether the members of an object have just the named types, or with partial whether all its members are in the list, with spaces anywhere in the list.',
  ['inputs'], 'all declarations, values, argument lists, objects and type lists',
  'tests use a few modules with two options; combinations of types, order, repeated and missing arguments and partial matches are unbounded.',
  [S + 'jsiCmds.c', S + 'jsiInterp.c', S + 'jsiObj.c'],
  [('options', S + 'jsiCmds.c SysModuleOptsCmdEx'), ('arguments', S + 'jsiCmds.c SysModuleCmd_'), ('match', S + 'jsiCmds.c SysMatchObjCmd')],
  'property-based testing (model-based): generated declarations, values and command lines against a model of the rules',
  'up to 10 options, 4 given, 5 arguments; a string option given the text of a number on the command line, and the layout of help, not judged.')
p('C34', 'Packages: require loads the right file once, versions, loading on demand',
  'For any directories of packages (NAME.jsi or NAME/NAME.jsi in several directories of pkgDirs, or beside the script) and any history of require, provide, Info.package and calls: require runs the first file found, in order of directories, in global scope and only if the package is not there yet; it gives its version (with a version asked: name, version, text, file, last request, function and options, or an error if it is lower than asked), and is an error if there is no file, the file fails or does not provide the name; a package provided before the failure stays; packages may require others, missing ones can be caught, and a cycle after provide is no problem; provide from another file for a name that is taken, and bad names, versions or options are errors; require() lists the packages. Versions convert between text (MAJOR.MINOR.PATCH, 0 to 99 each) and number both ways, for all values, zeroes trimmed only if asked. In a required file Info.isMain() is false and module() does not run; in the script it is true and runs, with the arguments. An unknown function with an entry in Jsi_Auto, given in the script or by autoFiles (read once, at the first need), is loaded at its first call and called; without one the call is an error.',
  ['inputs', 'operation sequences'], 'all directories, packages, dependencies, versions and histories',
  'tests require one or two packages of lib; precedence, failures in the middle, cycles and all versions are unbounded.',
  [S + 'jsiCmds.c', S + 'jsiEval.c', S + 'jsiInterp.c'],
  [('load', S + 'jsiCmds.c jsi_PkgLoadOne, jsi_PkgLoad, Jsi_PkgRequireEx, SysRequireCmd'), ('provide', S + 'jsiCmds.c Jsi_PkgProvideEx, SysProvideCmdInt'), ('versions', S + 'jsiCmds.c jsi_GetVerFromVal, jsi_VersionNormalize, SysVerConvertCmd'), ('Jsi_Auto', S + 'jsiEval.c jsi_LoadFunction')],
  'property-based testing (stateful, model-based): generated package trees and histories against a model of what is loaded when',
  'up to 6 packages, 3 directories, 12 steps; shared libraries, endless recursion of require and C extensions not covered.')
p('C33', 'Bundled tools: Zip and Archive, Csspp, Htmlpp, Jspp and the Safe runner',
  'For any tree of files: jsish -z zip packs exactly its files and directories, list names them, unzip writes them back (all or those below -startDir, into the directory given, which is created), also from archives other programs wrote; create appends an archive of one or more directories to any file, leaving what the file held, and trunc takes it off again. jsish -a runs the main file of an archive (main.jsi or -mainFile, also inside the directory of the archive\'s name) or a named module of it with the arguments given, with packages found inside the archive (top, lib, the directory of its name and its lib). Csspp removes definitions $name = { value } at the start of a line, of one or more lines, and replaces each name by its value, also inside later values and later files, trimming values and result unless told not to. Htmlpp keeps text, replaces <? code ?> by what the code outputs, with variables kept between blocks, and puts included files in place, recursively (scripts and style sheets as links, or inline if asked), with or without marks. Jspp turns functions with typed parameters and default values into plain ones that do the same with the same arguments, leaves other text alone, and lists functions if asked. jsish -s runs a script with its arguments: it reads below its own directory only, and writes there only with -write, everything else being an error in the script.',
  ['inputs'], 'all trees, archives, style sheets, pages and programs of that form',
  'no test runs these modules except to load them.',
  ['lib/Zip.jsi', 'lib/Archive.jsi', 'lib/Csspp.jsi', 'lib/Htmlpp.jsi', 'lib/Jspp.jsi', 'lib/Safe.jsi', 'lib/Jsish.jsi', S + 'jsiZvfs.c'],
  [('Zip', 'lib/Zip.jsi'), ('Archive', 'lib/Archive.jsi main'), ('Csspp', 'lib/Csspp.jsi parse, reMethod'), ('Htmlpp', 'lib/Htmlpp.jsi include, reMethod'), ('Jspp', 'lib/Jspp.jsi reMethod'), ('Safe', 'lib/Safe.jsi main'), ('Zvfs.create, truncate', S + 'jsiZvfs.c')],
  'property-based testing: generated trees, archives, pages and programs run through the tools, against Python (zipfile, substitution) and, for Jspp, the converted program run by node against the original run by jsish',
  'trees of up to 9 entries and 300 kB, 8 definitions, 3 levels of includes; fuse, zvfs, sqlar and fossil archives, Websrv, Wget, Cextn, Debug and Manage not covered.')
p('C30', 'Memory: a deleted interpreter leaves nothing, repeated work does not grow it',
  'After Jsi_InterpDelete no byte that an interpreter allocated is still allocated, whatever it ran: scripts with objects, arrays, strings, closures that were dropped, regular expressions, try, with and finally left in any way, errors at any point of an expression, syntax errors, functions of C called with wrong arguments, files, channels, Sqlite databases and statements with errors, sub-interps, aliases, timers, packages, options, archives, JSON of any depth, refused operations of safe interps. Evaluating the same text again and again in one interpreter, also text that fails, takes no more memory after the first times, except for functions it defines.',
  ['inputs', 'histories'], 'all scripts and numbers of repetitions',
  'tests look at output and a few reference counts, no test at memory; every path that ends in an error can lose a value.',
  [S + 'jsiEval.c', S + 'jsiValue.c', S + 'jsiObj.c', S + 'jsiInterp.c', S + 'jsiSqlite.c', S + 'jsiFileCmds.c', S + 'jsiCode.c', S + 'parser.y'],
  [('values', S + 'jsiValue.c Jsi_ValueFree, Jsi_DecrRefCount'), ('errors', S + 'jsiEval.c jsi_evalcode'), ('deletion', S + 'jsiInterp.c jsiInterpDelete')],
  'property-based testing (metamorphic): the scripts of the generators of all other checks, the number of allocated bytes before and after, compared with the empty script',
  'values that contain themselves and functions kept in the scope they are made in are never freed (reference counts): not generated or not judged; threads not judged; growth not judged for events and classes.')
p('C32', 'exec() runs a command as the shell does; the environment is a map',
  'For any shell command (output text of any length and bytes, files, pipes, exit codes 0-255, death by signal, standard error, unknown commands) exec(cmd) returns the standard output exactly (without trailing white space with trim), an exit code other than 0 is an error unless noError; retCode gives the exit code, retAll code, status and data. With a string or inputStr the command reads exactly that text as its input, whether it reads all, some or none of it, and the exit code is returned. chdir runs the command in that directory and the current directory is the same afterwards, also after an error; bg or a trailing & starts the command without waiting for it; noRedir refuses any command with one of < > | ; & $ ` = and newline, running nothing. With noShell the command is cut at white space and run without expansion of anything. Util.getenv and Util.setenv read and set the environment as a map from names to texts, seen by every command started afterwards.',
  ['inputs', 'histories'], 'all commands, options, inputs and histories of environment changes',
  'tests/exec.jsi runs six commands; lengths at buffer boundaries, signals, unread input, option combinations and the environment are untested.',
  [S + 'jsiCmds.c', S + 'jsiUtils.c'],
  [('exec', S + 'jsiCmds.c jsi_SysExecCmd, jsi_popen'), ('environment', S + 'jsiCmds.c SysGetEnvCmd, SysSetEnvCmd')],
  PBT + 'each generated command is also run directly with /bin/sh (or execvp) in a copy of the directory and the results are compared',
  'histories of up to 8 steps; outputs up to 200 kB; output of commands with NUL bytes included, time limits of commands not.')
p('C28', 'The jsish program: output, exit status, test mode, interactive mode',
  'For any script given as file or with -e, jsish writes exactly what the script prints, gives it the arguments unchanged in console.args, runs the --E texts before it in their order with the --I options in force, prints the value of a top-level return, and ends with status 0; exit(n) in a function, callback, timer or try ends the program at once with status n (127 if below 0 or above 127), in a sub-interp only that; an uncaught error stops the script, is reported on standard error with the file and line of its statement and gives status 1. With --T or -t each line ";EXPR;" also prints "EXPR ==> value", ";\'text\'" prints itself, ";//throw line" prints the error it throws, and everything else is as without. jsish -t FILE passes exactly if the output equals the expected text in the file, character for character (without one, if there is no error), with the =!INPUT text as standard input, never changes the file, names the first line that differs; -update writes the expected text so that the test passes and a second update changes nothing. For several files or a directory every .js and .jsi file is run, in order, until failMax, and the exit status is the number of failures, that the summary tells as well. Without a script, standard input is read: each complete statement, on however many lines, of any length, with quotes and brackets in strings and comments, is evaluated and its value shown; errors are reported and the session goes on; exit(n) gives the status. Options that do not exist or have bad values are an error and nothing runs.',
  ['inputs', 'histories'], 'all scripts, arguments, options, test files and input lines',
  'The test suite is itself run by this program: a runner that passes wrong output, or an exit status that is lost, is invisible to it.',
  [S + 'main.c', S + 'jsiInterp.c', 'lib/Testing.jsi', S + 'jsiEval.c', S + 'jsiUtils.c'],
  [('test runner', 'lib/Testing.jsi runOne'), ('test mode', S + 'jsiEval.c jsi_evalcode, jsi_evalStrFile'), ('interactive', S + 'jsiInterp.c Jsi_Interactive, jsiUtils.c Jsi_StrIsBalanced'), ('status', S + 'jsiInterp.c Jsi_Main')],
  PBT + 'generated scripts whose output is known by construction are run by the real program in scratch directories, and output, standard error, files and status compared',
  'up to 10 items per test file, 6 files per directory; the text of messages, -t with exec/times/filter options, command history and completion of the terminal not judged.')
p('C31', 'Info tells what the program declares: names, frames, arity, files',
  'For any program of variables, functions and objects, changed later in any way: Info.vars, data, funcs and methods list exactly the declared names of their kind that match a name, glob or regular expression, also the members of an object; they and Info.lookup give the type and the value; Info.funcs gives the arguments, and the local variables; Info.completions lists the functions, or members, with a prefix. At any depth of calls Info.level, level(n) and level(-n) give the depth, the name and the locals of the frame, an error outside, and Info.locals the names and values of the arguments, variables and functions of the current one; after a call all is as before. Info.cmds lists the builtin commands that match; a call of a builtin function with fewer or more arguments than Info.cmds declares, or with an argument of another type, is an error. Info.keywords knows the words of the language, and of SQL. Info.script, scriptDir, isMain and the like tell the file being run in it, and the sourced files; Info.named lists the live objects of builtin types.',
  ['inputs', 'histories'], 'all programs, patterns, depths of calls and builtin functions',
  'tests print Info for a few names; combinations of patterns, kinds of names, depth and every builtin are unbounded.',
  [S + 'jsiCmds.c', S + 'jsiEval.c', S + 'jsiUtils.c'],
  [('names', S + 'jsiCmds.c InfoVarsCmd, InfoFuncDataSub'), ('frames', S + 'jsiCmds.c InfoLevelCmd, InfoLocalsCmd'), ('arity', S + 'jsiEval.c jsi_SharedArgs, jsi_ArgTypeCheck')],
  PBT + 'generated declarations and queries against a model of the declared names, and the declarations of builtins against the calls that are accepted',
  'up to 12 names, 8 queries, depth 6; the name space of values made by eval, line numbers of functions, and Info.interp, platform, version not judged.')
p('C26', 'Options: typed, named by prefix, and only what was set changes',
  'For any option table and any history of giving options at creation, conf({..}), conf(name), conf(), set, get, clear and free: an option that is set reads back, by name, in conf() and in the C structure itself, as exactly the value given, converted to its type (booleans; integers of 8 to 64 bits, signed and not, cut to an integer; float, double, long double; strings, in buffers of fixed size, keys, dynamic strings; times, from numbers and from date texts; values, objects, arrays, functions, regular expressions; enums; sets of bits given as text, list or object; nested options; arrays of C values and of structures), and no other option and no memory next to it changes. A value of another type, out of the range of its type, NaN, too long for its buffer, not in its list, a list of another length or an index past the end is an error and leaves the option as it was. A name stands for the option it equals, or else the only one it begins; otherwise it is an error. A required option must be given, a read-only one never, an init-only one only at creation; a failed creation leaves all options empty. changed(pattern) counts the options given since creation. The same holds for conf() of Interp, Sqlite and Socket, as listed by conf(""), and for the option argument of builtin commands: an abbreviated name or enum value means the same as the full one.',
  ['inputs', 'histories'], 'all option types, values, names and histories',
  'tests set a few options of Interp and Sqlite; types at their limits, abbreviations, nested and array options and failed settings are untested, and bitset, array and bit-width paths run in no test.',
  [S + 'jsiOptions.c', S + 'jsiUtils.c', S + 'jsiInterp.c', S + 'jsiSqlite.c', S + 'jsiSocket.c'],
  [('set', S + 'jsiOptions.c jsi_SetOption_, Jsi_OptionsSet'), ('get', S + 'jsiOptions.c jsi_GetOption, Jsi_OptionsDump'), ('tables', S + 'jsiOptions.c Jsi_OptionsProcess, Jsi_OptionsFind'), ('custom', S + 'jsiOptions.c jsi_ValueToEnum, jsi_ValueToBitset, ValueToCArray, jsi_ValueToSubopt')],
  PBT + 'a C record with an option of every type is driven by histories of calls and read back both through the option calls and directly, against a model; conf() tables of builtin objects are fetched and driven the same way',
  'histories of up to 10 calls on two records; after a failed conf the options processed before the failing one may be set or not; bit-field, verify and parent-function options and options with effects on reading (Interp.noError, stdoutStr and the like) not judged.')
