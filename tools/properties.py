#!/usr/bin/env python3
"""Source of /verif/properties.jsonl:  python3 tools/properties.py > properties.jsonl"""
import json

P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if observe:
        d["anchors"]["observe_at"] = observe
    assert len(title) <= 80, title
    P.append(d)


STR = "fly/types/string/"
prop("S01", "Unicode validation and transcoding agree with the Unicode standard",
     "For every character sequence in UTF-8, UTF-16 or UTF-32 (and the wide encoding), validation accepts it exactly when it is well-formed Unicode; decoding yields the encoded codepoints in order and fails, without consuming past the end, exactly at ill-formed input; encoding a codepoint yields its shortest well-formed form and fails for surrogates and values above U+10FFFF. "
     "Converting a well-formed string to any other encoding and back yields the original string, and converting an ill-formed one fails.",
     ["inputs"], "all strings over all code units of every supported character type, all codepoints, all ordered pairs of encodings",
     "Tests check selected codepoints and hand-picked ill-formed sequences; the claim is over all code unit sequences (truncations, overlong forms, surrogates, mixtures, positions).",
     [STR + "detail/unicode.hpp", STR + "string.hpp"],
     [("decode_codepoint / validate_encoding", STR + "detail/unicode.hpp BasicUnicode"), ("convert", STR + "string.hpp BasicString::convert")])
prop("S02", "Escaping and unescaping Unicode are exact inverses with documented forms",
     "For every well-formed string, escaping with either prefix produces only printable ASCII in the documented form for each codepoint (unescaped in U+0020..U+007E; four hex digits up to U+FFFF; a surrogate pair or eight hex digits above), and, since a backslash itself is not escaped, unescaping that yields the original string whenever the original contains no escape sequence of its own. "
     "Unescaping any string accepts exactly the documented escape forms (four hex digits, surrogate pairs, eight hex digits) for valid codepoints, copies everything else, and fails on any malformed or incomplete escape sequence.",
     ["inputs"], "all strings of every character type, both prefixes, all malformed escape sequences, mixed case hex",
     "Tests sample a few codepoints per range and a few malformed escapes; range boundaries and malformed combinations are unbounded.",
     [STR + "detail/unicode.hpp", STR + "string.hpp"],
     [("escape_codepoint / unescape_codepoint", STR + "detail/unicode.hpp")])
prop("S03", "String utilities compute their documented functions on every input",
     "Character classification and case conversion agree with the default C locale over the whole range of every character type (nothing outside ASCII is classified or converted). Splitting with or without a limit (empty pieces are dropped), trimming whitespace, replacing and removing all occurrences of a substring, joining, and wildcard matching return exactly the documented result for every input, and always terminate.",
     ["inputs"], "all strings, delimiters, limits, search/replacement strings and wildcard patterns, all character values of every character type",
     "Tests fix a few strings; overlapping occurrences, repeated delimiters, self-containing replacements, patterns with several wildcards and non-ASCII characters are combinations they do not reach.",
     [STR + "string.hpp", STR + "detail/classifier.hpp"],
     [("split / trim / replace_all / remove_all / wildcard_match / join", STR + "string.hpp"), ("classifier", STR + "detail/classifier.hpp")])
prop("S04", "The lexer consumes exactly what it reports, for any operation sequence",
     "For every text and every sequence of lexer operations, the reported position, the peeked and consumed characters, and the parsed decimal and hexadecimal numbers match a simple cursor over the text; nothing beyond the end of the text is ever read, a failed operation leaves the position unchanged, and a number too large for the result type is reported as a failure, never as a different value.",
     ["inputs", "histories"], "all texts of every character type, all sequences of peek, consume, conditional consume, number, hex number and reposition operations",
     "Tests use a handful of literals and short fixed sequences.",
     [STR + "lexer.hpp"], [("consume_number / peek / set_position", STR + "lexer.hpp BasicLexer")])
prop("S05", "Formatted output follows the format specification for every value and specifier",
     "For every well-formed format string and matching argument list, the output is the literal text with escaped braces collapsed and each replacement field replaced by its argument (automatic or explicit position) rendered according to the specifier: fill, alignment, sign, alternate form, zero padding, width, precision (literal or nested) and presentation type. The rendering of integers, characters, booleans, strings, pointers and floating point values equals that of the C++ standard formatting or printf-family rules on which the syntax is documented to be based.",
     ["inputs"], "all combinations of fill, alignment, sign, #, 0, width, precision and type over all values of supported argument types and character encodings",
     "Tests enumerate hand-chosen specifiers with a few values; the cross product with extreme values, large widths and precisions is untested.",
     [STR + "formatters.hpp", STR + "format.hpp", STR + "detail/format_specifier.hpp", STR + "detail/format_string.hpp"],
     [("formatters", STR + "formatters.hpp"), ("specifier parsing", STR + "detail/format_specifier.hpp"), ("argument dispatch", STR + "format.hpp format_to")])
prop("S06", "Malformed format strings are always reported and never formatted",
     "A format string that is not well formed for the argument types it is used with (unbalanced braces, unknown or inapplicable specifiers, out-of-range positions, mixed automatic and explicit positions, bad nested width or precision) is always diagnosed when it is parsed, and formatting with it never reads outside the arguments or crashes. A well-formed format string is never rejected.",
     ["inputs"], "all strings used as format strings with all argument type lists",
     "Tests list individual error messages; the set of strings near the grammar boundary is unbounded.",
     [STR + "detail/format_string.hpp", STR + "detail/format_specifier.hpp", STR + "detail/format_parse_context.hpp"],
     [("format string parser", STR + "detail/format_string.hpp"), ("specifier validation", STR + "detail/format_specifier.hpp")])
prop("S07", "Text to number conversion is exact, total and inverts formatting",
     "Converting a string to an integer type succeeds exactly when the whole string is a decimal integer representable in that type, and yields that value; out-of-range, empty, partial and decorated strings are rejected without throwing. Formatting any integer or (with enough digits) any finite floating point number and converting the text back yields the same number.",
     ["inputs"], "all strings and all target arithmetic types",
     "Tests check min, max and one value beyond them for each type.",
     [STR + "detail/converter.hpp", STR + "string.hpp"], [("BasicStringConverter / Converter", STR + "detail/converter.hpp")])

J = "fly/types/json/"
prop("J01", "JSON values behave like their model under any history of operations",
     "Under any sequence of construction, assignment, copy, move, swap, element access, insertion, removal, merge, resize, append and clear operations, a JSON value's type, size, contents, iteration order (forward and reverse) and returned positions equal those of an ordinary array, ordered map or string with the same history. Any operation that does not apply to the value's current type, whose key is not valid text, or whose position is out of range, throws the documented exception and leaves every value unchanged (an argument passed as an rvalue may be consumed).",
     ["histories", "inputs"], "all operation sequences over nested JSON values of all types",
     "Tests call each operation once on small fixtures; aliasing, nested values, iterator positions after mutation and exception safety across histories are not covered.",
     [J + "json.hpp", J + "json.cpp", J + "detail/json_iterator.hpp", J + "detail/json_reverse_iterator.hpp"],
     [("Json modifiers and accessors", J + "json.cpp, json.hpp"), ("iterators", J + "detail/json_iterator.hpp")])
prop("J02", "JSON comparison is a consistent order and equal values hash equally",
     "Equality of JSON values is reflexive (absent NaN), symmetric and transitive; the six relational operators agree with each other; numbers compare by mathematical value whatever their stored type, and strings, arrays and objects compare lexicographically by content. Equal values have equal hashes, so a hash container keeps at most one of any set of equal values.",
     ["inputs"], "all pairs and triples of JSON values, with emphasis on mixed numeric representations and boundary values",
     "Tests compare small fixed pairs; laws over triples and mixed signed, unsigned and floating point values are not sampled.",
     [J + "json.hpp", J + "json.cpp"], [("operator==, operator<, std::hash<Json>", J + "json.hpp, json.cpp")])
prop("J03", "JSON conversions preserve values or fail, in both directions",
     "A JSON value built from any supported C++ value (null, booleans, integers, floats, strings of any encoding, sequences, maps, nested) converts back to that type with an equal value. C++ strings are read as JSON string bodies (escapes interpreted) and refused when they are not valid ones. Converting a JSON value to a C++ type either yields the corresponding value (numeric strings parse as numbers, fixed-size arrays truncate or default, and so on as documented) or throws, and never yields unrelated data; only converting a number to a type that cannot represent it is unspecified, as with static_cast. Swapping with a C++ value exchanges both or changes nothing.",
     ["inputs"], "all source values and all supported target types, nested containers",
     "Tests convert a few values per type pair.",
     [J + "json.hpp", J + "json.cpp", J + "detail/array_util.hpp", J + "concepts.hpp"], [("conversion constructors and operators", J + "json.hpp")])
prop("J04", "Serialised JSON is valid JSON that parses back to an equal value",
     "For every JSON value reachable through the public API, serialisation terminates and yields valid UTF-8 and valid JSON text in which every control character and non-ASCII codepoint is handled as documented, and parsing it with the strict parser yields an equal value (floating point numbers to the printed precision; infinity and NaN, which JSON cannot represent, are written as null). Streaming and formatting a value give the same text as serialising it.",
     ["inputs", "histories"], "all JSON values: every string content, number magnitude, nesting and object key",
     "Tests serialise a few fixed values; string contents, numeric extremes and histories leading to the value are unbounded.",
     [J + "json.cpp", "fly/parser/json_parser.cpp"], [("Json::serialize", J + "json.cpp"), ("JsonParser", "fly/parser/json_parser.cpp")])
prop("J05", "The JSON parser accepts exactly RFC 8259 plus the enabled extensions",
     "For every input text the JSON parser returns the value that RFC 8259 assigns to it, or nothing when the text is not valid JSON; each optional feature (comments, trailing commas, any root type) extends the accepted language exactly as documented and changes nothing else. No input makes the parser crash, hang, read out of bounds, or accept with a different value.",
     ["inputs", "configurations"], "all byte strings, valid and invalid, under all feature combinations",
     "Tests use a corpus of fixed files; mutations of valid documents and feature combinations are unbounded.",
     ["fly/parser/json_parser.cpp", "fly/parser/json_parser.hpp", "fly/parser/parser.hpp"], [("parse_json / parse_object / parse_array / number and string parsing", "fly/parser/json_parser.cpp")])
prop("N01", "The INI parser yields exactly the sections and values a document contains",
     "For every text, the INI parser returns a mapping from section names to key/value strings that equals the one defined by its line grammar (comments, blank lines, whitespace trimming, quoted values, later duplicates override), or nothing when any line violates the grammar. No input crashes or hangs it, and a rejected document never yields partial data.",
     ["inputs"], "all texts built from sections, assignments, comments, quotes, whitespace and arbitrary bytes",
     "Tests list fixed documents.", ["fly/parser/ini_parser.cpp"], [("parse_section / parse_value / trim_value", "fly/parser/ini_parser.cpp")])
prop("P01", "Parsing does not depend on text encoding, byte order mark or source",
     "The same document stored as UTF-8 (with or without byte order mark), or as UTF-16 or UTF-32 in either byte order with its byte order mark, parses to the same result from a file, as it does from a string of any character type. A truncated or ill-formed encoding, or an unreadable file, is rejected without crashing.",
     ["inputs", "configurations", "fault_sequences"], "all documents, encodings, byte orders, truncation points",
     "Tests have one file per encoding.", ["fly/parser/parser.hpp", "fly/parser/parser.cpp"], [("BOM detection and stream conversion", "fly/parser/parser.cpp")])

C = "fly/coders/"
prop("C01", "Base64 encoding matches RFC 4648 and decoding is its exact inverse",
     "For every byte string, from strings, streams or files, encoding yields the RFC 4648 Base64 text and decoding that text yields the original bytes, whatever the length. Decoding any text that is not padded Base64 of whole groups (bad characters, bad length, misplaced padding) fails, without crashing or reading out of bounds. Input that cannot be read and output that cannot be written are reported as failures.",
     ["inputs", "fault_sequences"], "all byte strings of all lengths (including those around internal buffer sizes) and all malformed texts",
     "Tests use short strings and one random file; buffer boundary lengths and malformed inputs are not swept.",
     [C + "base64/base64_coder.cpp", C + "coder.cpp"], [("Base64Coder::encode_internal / decode_internal", C + "base64/base64_coder.cpp")])
prop("C02", "Huffman coding is lossless for every input and configuration",
     "For every byte string and every valid coder configuration (chunk size, maximum code length), whenever encoding reports success, decoding the encoded data reports success and yields the original bytes exactly; encoding fails only when the configuration allows no codes (or fewer than a chunk has distinct bytes) or on a read or write error, which is always reported. The same holds through files and streams, and code lengths never exceed the configured maximum.",
     ["inputs", "configurations"], "all byte strings (empty, one symbol, all symbols, skewed frequencies, several chunks) and all configurations",
     "Tests use a few strings and default or a few configurations; skewed distributions that exercise length limiting and chunk boundaries are rare.",
     [C + "huffman/huffman_encoder.cpp", C + "huffman/huffman_decoder.cpp", "fly/coders/coder_config.hpp"], [("length_limit / convert_to_canonical_form / encode_codes", C + "huffman/huffman_encoder.cpp"), ("decode_codes / convert_to_prefix_table", C + "huffman/huffman_decoder.cpp")])
prop("C03", "Decoding corrupt Huffman data never crashes, overruns or hangs",
     "For every byte string given to the Huffman decoder, including truncations and mutations of valid encodings, decoding terminates and either fails or produces exactly the output that the documented format denotes, with no memory error, undefined behaviour or unbounded allocation. Truncating a valid encoding is never reported as success with the complete original output.",
     ["inputs", "fault_sequences"], "all byte strings, mutations and truncations of valid encodings",
     "Tests build a dozen specific corrupt headers.", [C + "huffman/huffman_decoder.cpp", "fly/types/bit_stream/bit_stream_reader.cpp"], [("decode_header / decode_codes / decode_symbols", C + "huffman/huffman_decoder.cpp")])

prop("B01", "Bit streams return exactly the bits written, for any sequence of widths",
     "Any sequence of words, bytes and bit fields written to a bit stream and finished reads back as the same values for any sequence of read widths that stays within the written bits, including mixed peek, discard and read operations, and the stream is exhausted exactly after the last written bit. Reading or peeking past the end reports how many bits were really available and never invents data, a damaged header is reported rather than read as valid, and read and write errors of the underlying stream are reported.",
     ["histories", "inputs", "fault_sequences"], "all sequences of writes and reads of all widths 0..64, stream lengths, truncated or failing streams",
     "Tests write a few fixed patterns.", ["fly/types/bit_stream/bit_stream_writer.cpp", "fly/types/bit_stream/bit_stream_reader.hpp", "fly/types/bit_stream/bit_stream_reader.cpp"], [("write_bits / finish", "fly/types/bit_stream/bit_stream_writer.*"), ("peek_bits / read_bits / discard_bits / refill_buffer", "fly/types/bit_stream/bit_stream_reader.*")])
prop("E01", "Byte order conversion is exact for every integer type",
     "Swapping the byte order of any integer reverses its bytes and swapping twice is the identity; converting to or from the native byte order changes nothing and to the other order swaps, for every value of every integer width and signedness.",
     ["inputs"], "all values of all integer types up to 64 bits",
     "Tests use one constant per width.", ["fly/types/numeric/endian.hpp", "fly/types/numeric/detail/byte_swap.hpp"], [("endian_swap / endian_swap_if_non_native", "fly/types/numeric/endian.hpp")])
prop("E02", "Numeric literals compile exactly when in range and have the written value",
     "Every integer literal with a sized suffix, in binary, octal, decimal or hexadecimal with digit separators, has exactly the written value when that value fits the suffix's type, and is rejected at compile time when it does not.",
     ["programs", "inputs"], "all literal spellings, bases, separators and suffixes, around every type's limits",
     "Tests list the limits of each type; literals that must not compile are not tested at all.", ["fly/types/numeric/literals.hpp", "fly/types/numeric/detail/literal_parser.hpp"], [("literal parser", "fly/types/numeric/detail/literal_parser.hpp")])

T = "fly/task/"
prop("T01", "Concurrent queue and stack are linearizable and lose nothing",
     "For every interleaving of pushes and blocking or timed pops from any number of threads, each pushed item is popped exactly once or remains in the container, a queue returns items in FIFO order and a stack in LIFO order consistently with real time, and size and emptiness agree with the items present. A pop with a timeout returns nothing only if the container was empty, and a waiting pop is woken by a push.",
     ["schedules", "histories"], "all thread interleavings and operation mixes with several producers and consumers",
     "Tests run one fixed producer/consumer workload.", ["fly/types/concurrency/detail/concurrent_container.hpp", "fly/types/concurrency/concurrent_queue.hpp", "fly/types/concurrency/concurrent_stack.hpp"], [("push / pop under mutex and condition variable", "fly/types/concurrency/detail/concurrent_container.hpp")])
prop("T02", "A sequenced task runner runs each task once, in order, without overlap",
     "For every history of posts from any number of threads (including from inside running tasks), a sequenced task runner executes every posted task exactly once, never two at the same time, in an order consistent with the order in which the posts happened, and a task sees the effects of all tasks before it. Runners sharing one manager do not delay or reorder each other's tasks.",
     ["schedules", "histories"], "all post histories, nestings, numbers of runners, posting threads and worker threads",
     "Tests post a few tasks from one thread.", [T + "task_runner.cpp", T + "task_runner.hpp", T + "task_manager.cpp"], [("SequencedTaskRunner::post_task_internal / task_complete / maybe_post_task", T + "task_runner.cpp")])
prop("T03", "Parallel task runners and the task manager run every task exactly once",
     "Every task posted to a parallel runner while its manager runs executes exactly once, on one of the manager's threads, with up to the configured number of tasks in progress at the same time; a blocked task does not prevent others from running while threads are free. Starting succeeds once, stopping succeeds only when running, returns after the threads have finished, and no task runs after stop returns.",
     ["schedules", "histories"], "all post histories with all worker counts, and start/stop/post histories",
     "Tests post a few tasks and start/stop once.", [T + "task_manager.cpp", T + "task_runner.cpp"], [("worker_thread / timer_thread / start / stop", T + "task_manager.cpp")])
prop("T04", "Delays, results, replies and owner lifetimes are honoured for every task",
     "A delayed task never runs before its delay has elapsed and does run afterwards; a task posted with a reply runs before its reply, and the reply receives exactly the task's result on the runner that posted it. A task bound to a weakly held owner runs with the owner kept alive, and once the owner is gone before the task starts, neither the task nor its reply runs.",
     ["schedules", "histories", "inputs"], "all mixtures of delays, result types, reply chains, sequenced and parallel runners and owner destruction times",
     "Tests check each overload once.", [T + "task_runner.hpp", T + "task_manager.cpp"], [("post_task_with_reply / delayed / weak owner wrappers", T + "task_runner.hpp"), ("timer_thread", T + "task_manager.cpp")])

prop("G01", "Configurations converge to the file's values, or defaults, after any history",
     "After any history of writing, replacing, corrupting, deleting and recreating the configuration file, and of creating and dropping configurations, each live configuration's values become those in the last file content once it is stable: the file's value where present and convertible to the requested type, and the default otherwise. Requesting the same configuration again returns the same live object, and requesting it with another type, or creating it after it was dropped, behaves as documented.",
     ["histories", "inputs", "configurations"], "all file histories in both formats (INI and JSON), value types, and creation histories",
     "Tests apply one or two edits with fixed values.", ["fly/config/config_manager.cpp", "fly/config/config_manager.hpp", "fly/config/config.cpp", "fly/config/config.hpp"], [("update_config / create_config", "fly/config/config_manager.*"), ("get_value", "fly/config/config.hpp")])

prop("G02", "Every component's settings are the file's values, or their defaults",
     "For every JSON or INI configuration file, each setting of the library's components (network: socket_io_wait_time in microseconds, packet_size; path and system: poll_interval in milliseconds; logger: compress_log_files, max_log_file_size, max_message_size; coder: encoder_chunk_size_kb in units of 1024 bytes, encoder_max_code_length) has the value which the file gives under that name in the component's own section when it is convertible to the setting's type over its whole range, and the component's default otherwise; no other entry of the file has any influence.",
     ["inputs", "configurations"], "all files in both formats: sections in any order, values of every type and range, unknown names, damaged sections and files; the library's and changed defaults",
     "Tests check the defaults and one value of each setting.", ["fly/net/network_config.cpp", "fly/path/path_config.cpp", "fly/system/system_config.cpp", "fly/logger/logger_config.cpp", "fly/coders/coder_config.cpp", "fly/config/config_manager.hpp"], [("packet_size and the like", "fly/*/*_config.cpp"), ("get_value", "fly/config/config.hpp")])

L = "fly/logger/"
prop("L01", "Every log statement reaches the sink once, in order, with its exact content",
     "For every sequence of log statements, from any number of threads to an asynchronous logger, each statement is delivered to the sink exactly once with its level, formatted message (truncated to the configured size), source position, the time at which it was made, and consecutive indices; statements from one thread arrive in the order issued. A synchronous logger delivers each statement once on the calling thread, with distinct indices, also when several threads share it and its sink allows that, as the library itself shares the default logger. A sink that fails to initialise or to write stops the logger from delivering anything more, and never crashes or blocks the caller.",
     ["histories", "schedules", "fault_sequences", "configurations"], "all sequences of statements, levels, message contents and lengths, posting threads, sink failures",
     "Tests log a few lines from one thread.", [L + "logger.cpp", L + "logger.hpp"], [("Logger::log / log_to_sink", L + "logger.cpp")])
prop("L02", "Log files contain every record exactly once, across rotation and compression",
     "For every sequence of log statements and every file size limit and compression setting, the log directory afterwards contains, over all its files in creation order (decoding the compressed ones), every record exactly once and in order with all its fields recoverable; each file is closed for writing once it exceeds the size limit, and no record is split between files. A log directory that cannot be written makes creation fail rather than lose records silently.",
     ["histories", "inputs", "configurations"], "all record sequences, message contents, size limits and compression settings",
     "Tests check a couple of rotations with random messages.", [L + "detail/file_sink.cpp", L + "log.cpp"], [("FileSink::stream / create_log_file", L + "detail/file_sink.cpp")])
prop("L03", "Logger names are unique while alive and reusable afterwards",
     "For every history of creating, looking up, sharing, defaulting and destroying loggers, a name refers to at most one live logger, looking it up returns that logger for as long as it lives and nothing afterwards, creating a second logger with a live name fails without disturbing the first, and the default logger is always usable.",
     ["histories", "schedules"], "all histories over several names, logger kinds and reference lifetimes",
     "Tests create one duplicate.", [L + "detail/registry.cpp", L + "logger.cpp"], [("Registry::register_logger / unregister_logger / get_logger", L + "detail/registry.cpp")])

prop("L04", "Styled and console output shows exactly what was written, in its styles",
     "For every history of values, format flags and stylers (inline or held, of any modifiers) on standard output or error, interpreting the written escape sequences shows exactly the text that the same history without stylers writes, each character in the styles and the last foreground and background colors (all 256) of the stylers in force, with cursor movements in their places; the stream's format is untouched, everything applied is reverted when the styler ends, and any other stream receives the text alone. A console logger writes each statement as one line, on standard output (debug, information) or standard error (warnings, errors), with the local time and source position in the style of its level and the message unstyled and unchanged.",
     ["inputs", "histories"], "all modifier combinations, colors, distances, stream states and nesting, all levels and message contents",
     "Tests compare the prefix of single lines with fixed modifiers on streams in their initial state.", [L + "styler.hpp", L + "styler.cpp", L + "detail/nix/styler_proxy_impl.cpp", L + "detail/styler_proxy.cpp", L + "detail/console_sink.cpp"], [("stream_value / apply_styles_and_colors / apply_cursors", L + "detail/nix/styler_proxy_impl.cpp"), ("ConsoleSink::stream", L + "detail/console_sink.cpp")])

prop("Y01", "The system monitor reports exactly what the kernel says, at every poll",
     "For every history of the kernel's answers (processors that come and go, counters that grow, stand still or go back, files that are missing, unreadable or without the expected line, calls that fail) a system monitor is created exactly when processors can be counted, polls once per interval for as long as it lives and not afterwards, and after each poll its values are those of the answers: the number of processors, the usage of the system and of the process between the last two usable samples as finite percentages (never outside 0 to 100 for the system), the total and used memory, and the process's memory; an answer that cannot be used leaves the last value. Values may be read by any thread at any time.",
     ["histories", "fault_sequences", "schedules"], "all sequences of kernel answers and failures, poll intervals, numbers of monitors and readers",
     "Tests compare two polls of the real kernel, and one failure of each call.", ["fly/system/system_monitor.cpp", "fly/system/nix/system_monitor_impl.cpp"], [("update_system_cpu_count / update_system_cpu_usage / update_process_cpu_usage / update_*_memory_usage", "fly/system/nix/system_monitor_impl.cpp"), ("poll_system_later", "fly/system/system_monitor.cpp")])

prop("Y02", "Signals reach the handler in force; times and errors are the system's",
     "For every history of installing, replacing and removing signal handlers and of signals, each of the eight terminal signals that arrives while a handler is installed calls exactly the handler in force once with its number (while handlers are changed: the old or the new one, or the default action), also when it arrives within a handler; other signals are left alone, removed handlers are released and removal restores the default actions. For every system time and time zone the local time is that time in the documented form (empty if it cannot be determined), every error code is described by its number and the system's text, the last error is that of the calling thread, and a backtrace on standard error has the caller's frames.",
     ["histories", "inputs", "fault_sequences"], "all histories of handlers and signals at every change of a disposition, all times, fixed-offset time zones, error codes, call depths",
     "Tests raise two signals with one handler each and compare non-empty strings.", ["fly/system/system.cpp", "fly/system/system.hpp", "fly/system/nix/system_impl.cpp"], [("set_signal_handler / handle_signal, get_error_string", "fly/system/system.cpp"), ("local_time / print_backtrace / get_error_code", "fly/system/nix/system_impl.cpp")])

prop("X01", "A failed assertion reports itself exactly and aborts; others are silent",
     "For every assertion, with or without a message and captured values, the condition is evaluated exactly once; if it holds, nothing is written and execution goes on; if it does not, the report on standard error consists of exactly the message, the expression, its location and function, and each captured value with its name as the formatting functions give it, in order, whatever the format of the stream, and the handler runs (the process aborts).",
     ["inputs"], "all messages, captured values of every formattable kind and number, stream states",
     "Tests look for some of the parts in the report of five assertions.", ["fly/assert/assert.hpp", "fly/assert/detail/assert_enabled.hpp", "fly/assert/detail/assert_enabled.cpp"], [("Assertion::assertion_failed / log_assertion, Capture::format", "fly/assert/detail/assert_enabled.*")])

prop("M01", "Path monitors report the monitored changes and nothing else",
     "For every history of file creations, modifications, deletions and renames in and around monitored directories, and of adding and removing monitored paths and files, each change to a monitored file is eventually reported to the callback registered for it with the right path and kind of event, and nothing is reported for unmonitored files, or for paths after their removal. Adding or removing reports success exactly when documented, at any time, including while events are being delivered by other threads.",
     ["histories", "schedules"], "all file system and add/remove histories over several directories and files",
     "Tests perform one change per case.", ["fly/path/path_monitor.cpp", "fly/path/nix/path_monitor_impl.cpp"], [("poll_paths / handle_event", "fly/path/nix/path_monitor_impl.cpp"), ("add_path / add_file / remove_path / remove_file", "fly/path/path_monitor.cpp")])

N = "fly/net/"
prop("A01", "IPv4 address and endpoint parsing and formatting are exact",
     "A string is accepted as an IPv4 address exactly when it has one to four in-range numeric parts as documented, and then denotes the value that form defines; every address formats in dotted decimal form that parses to the same address. An endpoint string is accepted exactly when it is a valid address (bracketed where required) and a port from 0 to 65535; endpoint formatting round-trips, and comparison agrees with the addresses and ports.",
     ["inputs"], "all strings, all 32-bit addresses, all ports, in every construction form",
     "Tests list examples.", [N + "ipv4_address.hpp", N + "endpoint.hpp", "fly/types/string/lexer.hpp"], [("IPv4Address::from_string / Formatter", N + "ipv4_address.hpp"), ("Endpoint::from_string", N + "endpoint.hpp")])
prop("A02", "IPv6 address and endpoint parsing and formatting are exact",
     "A string is accepted as an IPv6 address exactly when it is in RFC 4291 hexadecimal-group text form (groups of one to four hex digits, at most one '::'), and then denotes that address; every address formats to a compressed form that parses to the same address. Endpoint strings '[address]:port' are accepted exactly when both parts are valid, formatting round-trips, and comparison agrees with the addresses and ports.",
     ["inputs"], "all strings, all 128-bit addresses with every pattern of zero groups, all ports, in every construction form",
     "Tests list examples.", [N + "ipv6_address.hpp", N + "endpoint.hpp", "fly/types/string/lexer.hpp"], [("IPv6Address::from_string / Formatter", N + "ipv6_address.hpp"), ("Endpoint::from_string", N + "endpoint.hpp")])
prop("K01", "TCP sockets deliver every byte sent, once and in order",
     "For every sequence of messages and sizes sent over a connected TCP socket, synchronously or asynchronously, over IPv4 or IPv6, with any packet size configuration and any reader speed, the peer receives exactly the sent bytes in order, each asynchronous send and receive completes with its callback exactly once reporting the bytes transferred, and connection and disconnection are reported to both sides.",
     ["histories", "schedules", "configurations"], "all message sequences, sizes, interleavings of both directions, both modes and IP versions, several connections",
     "Tests send one message.", [N + "socket/tcp_socket.hpp", N + "socket/listen_socket.hpp", N + "socket/socket_service.cpp", N + "socket/detail/nix/socket_operations.cpp"], [("send_async / receive_async / connect_async", N + "socket/tcp_socket.hpp"), ("poll", N + "socket/socket_service.cpp")])
prop("K02", "UDP sockets preserve datagram boundaries and content",
     "For every sequence of datagrams sent over the loopback, synchronously or asynchronously, to an address or host name, over IPv4 or IPv6, each datagram that arrives has exactly the content of one that was sent, no datagram is merged, split or duplicated, and every completion callback is invoked once with the bytes transferred.",
     ["histories", "configurations"], "all datagram sequences and sizes, both modes and IP versions",
     "Tests send one message.", [N + "socket/udp_socket.hpp", N + "socket/detail/nix/socket_operations.cpp"], [("send / receive / send_async / receive_async", N + "socket/udp_socket.hpp")])
prop("K03", "Socket handles are owned exactly once and never leaked",
     "For every history of creating, opening, binding, connecting, accepting, moving, closing and destroying sockets and services, the process has exactly one open operating system handle per live open socket; a moved-from or closed socket is invalid, every operation on it fails without side effects on other sockets, and closing or destroying releases the handle exactly once. Failed operations report an error and leak nothing.",
     ["histories", "fault_sequences"], "all histories over TCP, UDP and listen sockets in both modes",
     "Tests move or close a socket once.", [N + "socket/detail/base_socket.hpp", N + "socket/socket_service.cpp"], [("BaseSocket move / close", N + "socket/detail/base_socket.hpp")])

for d in P:
    print(json.dumps(d))
