#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the text is reviewable in one place)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, **kw):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if "observe_at" in kw: kw["observe_at"] = [kw["observe_at"]]
    a.update(kw)
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

CLI = ["xsd-parser-cli/src/main.rs", "wsdl-parser-cli/src/main.rs"]
prop("C01", "A successful conversion has written the whole output and nothing but it",
 "When xsd-parser or wsdl-parser exits with status 0, every destination file (or standard output, when no -o is given) holds exactly the complete code generated for its input, however the reads and writes were split or interrupted and whatever the destination held before. A valid input whose I/O meets only short transfers and interruptions always succeeds.",
 ["inputs", "schedules", "fault_sequences"],
 "every convertible .xsd/.wsdl input, every previous content of the destination, every sequence of short or interrupted (EINTR) reads and writes, file and stdout mode, both tools",
 "The repository has no test that runs the binaries at all; short transfers and interruptions at chosen byte positions cannot be provoked by a unit test on a real file system.",
 CLI, [("load_file / write_to_file", "xsd-parser-cli/src/main.rs load_file, write_to_file; wsdl-parser-cli/src/main.rs load_file, write_to_file"),
       ("println! of the code", "process_single_file in both CLIs")],
 observe_at="exit status, destination file bytes, stdout bytes")
prop("C02", "No I/O failure is ever reported as success",
 "If opening, reading, listing, creating or writing fails for any file or directory a run has to handle (permission, media error, full disk, too many files, closed output, failed allocation), the run either still delivers every output completely or exits with a non-zero status and an error message on standard error. Exit status 0 with a missing, truncated or stale output never happens.",
 ["fault_sequences", "inputs"],
 "every failing system call position and errno, once or persistently, including a disk that fills up after N bytes and a failing memory allocation, both tools, file, stdout and directory mode",
 "Needs errors injected at every single system call of the process; tests only see a healthy file system.",
 CLI, [("? propagation through process_dir/process_single_file", "both main.rs"), ("write_all / println!", "both main.rs")],
 observe_at="exit status, stderr, destination bytes")
prop("C03", "A failed conversion leaves its existing output untouched",
 "When an input cannot be read, is not valid UTF-8, is not well-formed XML or is otherwise rejected, the run fails and the destination of that input is neither created, truncated nor changed. Earlier output for that input stays byte for byte what it was.",
 ["fault_sequences", "inputs"],
 "every unreadable or rejected input (read faults at any point, truncated or corrupted documents), alone or among valid inputs in directory mode, with and without an earlier output",
 "Depends on where in the read/convert/write sequence the failure strikes; no test converts a bad document onto an existing output.",
 CLI, [("load and convert before the destination is opened", "process_single_file in both CLIs")],
 observe_at="destination existence and bytes after a failed run")
prop("C04", "A crash at any point is repaired by running the tool again",
 "If a run is killed or fails at any system call, every destination holds its previous content, the complete new output or, for at most the one file being written, a prefix of it; inputs are unchanged. Running the same command again without faults succeeds and leaves exactly the tree an undisturbed run would have left.",
 ["crash_points", "fault_sequences"],
 "every crash point (before, after or in the middle of every system call, or in a memory allocation), any number of consecutive crashed or failed runs before the final one, every previous state of the output tree",
 "Crash points cannot be hit by unit tests.",
 CLI, [("create_dir_all guarded by exists()", "process_dir in both CLIs"), ("truncate(true)/File::create", "write_to_file in both CLIs")],
 observe_at="output tree after the crash and after the re-run")
prop("C05", "Directory mode converts every file to its mirrored path, in any listing order",
 "Given an input directory, the tool converts every file in it at any depth and writes each result at the same relative path below the output directory with the extension replaced by .rs, creating directories as needed and mirroring empty ones. The result does not depend on the order in which the file system lists entries, and nothing else is created, changed or removed anywhere.",
 ["schedules", "inputs"],
 "every directory tree (depth, names, empty directories, symbolic links) whose destinations are distinct, every listing order of every directory, every pre-existing output tree, explicit and default paths",
 "Listing order is chosen by the kernel; tests never run directory mode.",
 CLI, [("process_dir recursion", "process_dir in both CLIs"), ("with_extension(\"rs\")", "process_dir in both CLIs")],
 observe_at="the complete output tree and input tree")
prop("C06", "Output is a function of the input alone",
 "Running the same tool on the same input yields byte-identical code on every run, whatever the hash seeds, clock, process id, environment, working directory, directory listing order or I/O chunking of the run.",
 ["schedules", "inputs"],
 "every input, every assignment of the process's entropy, clock, pid, environment and scheduling",
 "A single test run samples one hash seed and compares against nothing produced under another one.",
 CLI + ["wsdl-parser/src/generator/mod.rs", "wsdl-parser/src/parser/definitions.rs", "xsd-parser/src/generator/mod.rs"],
 [("iteration over parsed port types", "wsdl-parser/src/generator/mod.rs generate"), ("maps of messages, bindings and port types", "wsdl-parser/src/parser/definitions.rs")],
 observe_at="bytes of two or more runs")
prop("C07", "Concurrent runs into one output tree do not disturb each other",
 "Several invocations of the tools running at the same time, writing into the same (possibly not yet existing) output tree, all succeed and leave exactly the files they leave when run one after another, whatever the interleaving of their system calls. This includes several runs converting the same input to the same destination.",
 ["schedules"],
 "every interleaving, at system-call granularity, of two to four processes with distinct or identical destinations",
 "The race window between the existence check and the creation of a directory or file is a few microseconds wide.",
 CLI, [("exists() then create_dir_all", "process_dir in both CLIs"), ("open with truncate then write_all", "write_to_file in both CLIs")],
 observe_at="exit status of every process, final output tree")

XT = ["xsd-types/src/types", "xsd-types/src/utils/yaserde.rs", "xsd-macro-utils/src"]
prop("S01", "Values survive any transport that delivers all bytes",
 "Any value of any xsd-types type or macro-derived type (tuple, list, union), alone or inside a yaserde document, serialised to a stream and deserialised from it is equal to the original, however the bytes are split into writes and reads and however often these are interrupted. Every valid XSD lexical form a foreign sender may use for these types is accepted and denotes the same value, which is sent back in a valid lexical form of that value.",
 ["schedules", "inputs"],
 "every value and every valid lexical form within the documented range of each type, every chunking and interruption schedule of writer and reader",
 "Unit tests hold a handful of literal strings and never go through a split stream.",
 XT, [("yaserde::serialize / deserialize", "xsd-types/src/utils/yaserde.rs"), ("FromStr/Display of each type", "xsd-types/src/types/*.rs"),
      ("UtilsTupleIo, UtilsDefaultSerde, UtilsUnionSerDe", "xsd-macro-utils/src/{tuple,union,lib}.rs")],
 observe_at="value received, text sent back")
prop("S02", "A stream that ends or fails early never yields a wrong value",
 "If the stream carrying a document ends, or returns an error, before the document is complete, deserialising any xsd-types or macro-derived type, or a structure containing them, returns an error or the value that was sent. It never returns a default, empty, shortened or partially filled value, and never panics or loops.",
 ["fault_sequences", "crash_points"],
 "every cut position and every reader error (kind, position, transient or permanent) in every document",
 "Tests deserialise only complete in-memory strings.",
 XT, [("peek after the start element", "xsd-types/src/utils/yaserde.rs deserialize"), ("derive(UtilsUnionSerDe) deserialize", "xsd-macro-utils/src/union.rs")],
 observe_at="Result of yaserde::de::from_reader")
prop("S03", "A failing writer is always reported and never sees reordered bytes",
 "If the writer a value is serialised to fails or is full at any point, serialisation returns an error; if it returns Ok, the writer received the complete document. The bytes received at any moment are a prefix of the document written without faults.",
 ["fault_sequences", "schedules"],
 "every failing write position and error kind, every short-write schedule, every type and document",
 "Tests serialise only into a growable in-memory buffer, which cannot fail.",
 XT, [("map_err on every write", "xsd-types/src/utils/yaserde.rs serialize"), ("serialize of unions and tuples", "xsd-macro-utils/src")],
 observe_at="Result of yaserde::ser::serialize_with_writer, bytes the writer received")
prop("S04", "Corrupted text never crashes the receiver or yields an impossible value",
 "Deserialising any xsd-types or macro-derived type from damaged or hostile content (flipped, lost, duplicated or inserted bytes, any Unicode text, arbitrarily long numbers) returns without panicking, overflowing or looping. Whenever it returns a value, that value lies in the type's value space and survives being sent on unchanged.",
 ["fault_sequences", "inputs"],
 "every corruption of every document and every text content up to a few kilobytes",
 "The space of damaged inputs is unbounded; tests contain a few malformed literals.",
 XT, [("FromStr of each type", "xsd-types/src/types/*.rs"), ("parse_timezone", "xsd-types/src/types/utils.rs")],
 observe_at="Result or panic of from_str/from_reader, re-serialised text")

prop("S05", "A receiver takes a text for what it denotes, and no part of it gets lost",
 "A text that is a valid XSD lexical form of a simple type of xsd-types (or of a macro-derived tuple, list or union type) is taken for exactly the value it denotes. A text that is not is refused, or at most taken as a sloppy spelling of which nothing gets lost: every number, the sign and every other character that carries meaning is still there when the value is sent on. List items and trailing characters are never silently dropped.",
 ["inputs", "schedules", "fault_sequences"],
 "every text (mutated valid forms, misplaced signs, separators, digits, designators and time zones, foreign characters), every rendering and delivery schedule of it",
 "The space of almost valid texts is unbounded; the tests contain a few malformed literals per type.",
 XT, [("FromStr of each type", "xsd-types/src/types/*.rs"), ("text_parsing of tuples, lists and unions", "xsd-macro-utils/src/{tuple,union}.rs")],
 observe_at="Result of from_reader, re-serialised text")

prop("S06", "What an application puts into a value or takes out of one is what travels",
 "The constructors and conversions of xsd-types (from_/to_chrono_*, from_/to_bigdecimal, from_bigint and from_biguint with ToBigInt and ToBigUint, GDay, GMonth, GMonthDay, GYear and GYearMonth::new, gday(), gmonth() and gyear(), Duration::to_std_duration) neither alter nor invent anything. The new() constructors accept exactly the components that denote a value and refuse all others. What is taken out of a value, whether constructed or received, is what was put in or sent, time zone and fractions included, and a value made from what was taken out arrives at the peer unchanged. to_std_duration returns the length of the duration to within a nanosecond or, when no std::time::Duration has that length (years or months, negative, too long), an error. None of them panics, whatever text the value was received from.",
 ["inputs", "schedules", "histories"],
 "every combination of constructor arguments (any i32 component, any time zone of whole minutes up to 14 hours, numbers of any length, any u64 duration component), every received text, every relay through take-out and construction, every delivery schedule",
 "The tests construct one or two values per type and never convert a negative, huge or malformed one.",
 XT, [("constructors and conversions", "xsd-types/src/types/*.rs"), ("to_std_duration", "xsd-types/src/types/duration.rs")],
 observe_at="results of the public constructors and accessors, bytes sent, value received by the peer")

XP = ["xsd-parser/src/generator", "xsd-parser/src/parser", "wsdl-parser/src"]
prop("G01", "A shared generator has no memory",
 "Using one Generator for any sequence of schemas, in any order and interleaving, and after any conversions that failed or panicked, produces for each schema exactly the code that a fresh Generator in a fresh process would produce for it.",
 ["histories", "schedules"],
 "every history of conversions on one or more shared generators, including conversions of rejected schemas that panic half way",
 "Tests build a new generator for each schema; hidden state only shows across a history.",
 XP, [("target_ns / xsd_ns RefCells of Generator", "xsd-parser/src/generator/mod.rs"), ("builder defaults", "xsd-parser/src/generator/builder.rs")],
 observe_at="generated text per conversion")
prop("G02", "Generating code does not change the parsed schema",
 "Generating code from one parsed schema any number of times, on any generators and interleaved with any other work, yields the same text every time; likewise for parsed WSDL definitions.",
 ["histories"],
 "every schema, every number and interleaving of generate calls on the same parsed model",
 "Tests call generate once per parsed model.",
 XP, [("interior-mutable struct fields", "xsd-parser/src/parser/types.rs Struct.fields, xsd-parser/src/generator/struct.rs")],
 observe_at="generated text of the first and later calls")
prop("G03", "Threads converting at the same time do not affect each other",
 "Conversions of XSD and WSDL documents running on different threads, each with its own parser and generator, produce the same code as when run alone and always finish, whatever the interleaving.",
 ["schedules"],
 "every interleaving of two or more caller threads, at the granularity of allocator and lock operations",
 "Needs control of the thread schedule; tests run each conversion alone.",
 XP, [("absence of shared mutable state", "xsd-parser/src, wsdl-parser/src")],
 observe_at="generated text per thread, completion")

E = ["xsd-parser/src/parser", "xsd-parser/src/generator", "xsd-types/src", "xsd-macro-utils/src"]
prop("E01", "Generated endpoints exchange documents without loss",
 "For a schema within the supported part of XSD (named, anonymous, nested, extended and restricted complex types, sequences, all, required single choices, attributes and attribute groups, references to global elements and attributes, qualified and unqualified forms, optional and repeated elements, enumerations, restrictions, lists and unions of the built-in types, any prefix or default namespace), the generated code compiles, and every valid document is accepted by the generated reader. Sent on by the generated writer, once or through several generated endpoints and however the bytes are split or interrupted on the way, it is again a document of the schema with the same elements, attributes, values and namespace.",
 ["inputs", "schedules"],
 "every schema of the supported part, every valid document of it in any rendering, every chunking and interruption schedule, every number of hops",
 "The tests compare generated text for some fifty schemas and exchange a handful of fixed documents; none compiles the code generated for a schema it has not seen, or carries a document over a split stream.",
 E, [("parsing of schema components", "xsd-parser/src/parser/*.rs"), ("generation of structs, enums, tuples, imports", "xsd-parser/src/generator/*.rs"),
     ("derives used by generated code", "xsd-macro-utils/src")],
 observe_at="compilation of the generated code; bytes sent on by generated endpoints")
prop("E02", "A generated endpoint never takes an interrupted document for a complete one",
 "If the stream to a generated reader ends or fails before the document is complete, the reader returns an error, or the complete value if all of it had arrived. It never returns a value with missing, default or shortened parts and never panics.",
 ["fault_sequences", "crash_points", "inputs"],
 "every schema of the supported part, every valid document of it, every position at which the stream ends or fails, every kind of reader error, permanent or transient",
 "Tests deserialise complete strings into the types of a few fixed schemas.",
 E, [("generated structs and enums", "xsd-parser/src/generator/{struct,enum,tuple_struct}.rs"), ("deserialize", "xsd-types/src/utils/yaserde.rs, xsd-macro-utils/src")],
 observe_at="Result of yaserde::de::from_reader for generated types")
prop("E03", "Generated validation decides exactly the facets of the schema",
 "For a named simple type that restricts a built-in type by minInclusive, maxInclusive, minExclusive, maxExclusive, length, minLength or maxLength, the generated validate() accepts a received value exactly if the value satisfies the facets; reading and validating never panics, however the value arrives.",
 ["inputs", "schedules"],
 "every combination of these facets on every built-in type they apply to (lengths: ASCII text), every value of the base type on, near and far from the bounds, every chunking and interruption schedule",
 "The tests compare the text of a few generated validators; they execute two or three values.",
 E, [("validation code per facet", "xsd-parser/src/generator/validator.rs"), ("facet parsing", "xsd-parser/src/parser/restriction.rs"), ("Validate trait", "xsd-parser/src/generator/validator.rs")],
 observe_at="validate() of values received by generated readers")
prop("G04", "Every conversion comes to an end",
 "Converting any XSD or WSDL document, valid, damaged, cyclic, nested into itself or with references leading anywhere (elements up to about a hundred levels deep), ends within a number of steps bounded by a multiple of the length of the document: it returns code or rejects the document (an error or a panic), but never hangs, overflows the stack, exhausts memory or takes the process down.",
 ["inputs", "fault_sequences"],
 "every document obtained from valid ones by any sequence of redirecting references, nesting declarations into others and damaging bytes",
 "The tests convert a few dozen well-behaved documents; termination on documents that refer to themselves has to hold for all of them.",
 XP, [("base and attribute group resolution", "xsd-parser/src/parser/types.rs"), ("recursive descent over the document", "xsd-parser/src/parser, wsdl-parser/src/parser"), ("comment wrapping", "xsd-parser/src/generator/utils.rs")],
 observe_at="completion, number of allocator steps, fate of the process")
prop("G05", "Replaced generator parts are always used and change nothing else",
 "Whichever parts of a Generator a user replaces through GeneratorBuilder (any subset of the alias, enum, enum case, import, struct, struct field, tuple struct and base generators, as a whole or by overriding single methods such as macros, fields, cases, subtypes, comments, names or indentation), and in whatever order schemas are then converted: every declaration of the schema passes through the replaced part of its kind, the text the part returns arrives whole and exactly once in the code, and the rest of the code is what the default generator gives (up to indentation when that is what was replaced). A part that panics ends that conversion and leaves the generator and the parsed schema as they were.",
 ["inputs", "histories", "fault_sequences"],
 "every subset of replaced parts and methods, every schema, every sequence of conversions with failures of a part at any call",
 "One test replaces one part and generates one entity.",
 ["xsd-parser/src/generator"], [("GeneratorBuilder", "xsd-parser/src/generator/builder.rs"), ("dispatch to parts", "xsd-parser/src/generator/mod.rs generate"), ("overridable methods", "xsd-parser/src/generator/{struct,enum,enum_case,struct_field,tuple_struct,alias,base}.rs")],
 observe_at="text returned by generate_rs_file, calls the user's parts receive")
prop("W01", "Generated clients carry every call to its own answer",
 "For a WSDL service of request-response operations with one input and one output part each, the generated client code compiles, and every call of it hands exactly its argument, once, to the transport as a document of the input element, and returns exactly the meaning of the document received for it. However many calls run at the same time, whatever messages are lost, delayed, reordered or duplicated, replies cut off or calls given up, no call returns another call's answer or a partial one, every error reaches the caller, undisturbed calls succeed and every call ends.",
 ["inputs", "schedules", "fault_sequences"],
 "every service of the supported form (any number and order of port types, messages and operations, any naming), every set of concurrent calls, every order of polls, deliveries, losses, duplications, truncations, time limits and cancellations",
 "The tests compare generated text; no generated client is ever run there.",
 E + ["wsdl-parser/src", "wsdl-parser-cli/src/main.rs"], [("function per operation", "wsdl-parser/src/generator/mod.rs, wsdl-parser/src/generator/function.rs"), ("message lookup", "wsdl-parser/src/parser/definitions.rs get_message_by_param"), ("types of the WSDL", "xsd-parser/src/parser/schema.rs parse_schema")],
 observe_at="bytes at the transport, results of the generated async functions")
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
