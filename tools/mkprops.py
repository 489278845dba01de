import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None,**({'state':[dict(name=n,meaning=m,where=w) for n,m,w in state]} if state else {}))))
p("C01","Parsing accepts exactly JSON and yields the value the text denotes",
 "json::parse accepts a text exactly when it is a JSON document by RFC 7159 / ECMA-404 (vertical tab and form feed are additionally tolerated as whitespace, unpaired surrogate escapes are refused, and the limits of C04 and C09 apply). The value it returns has the same structure as the text: literals, strings with every escape decoded, numbers per C09, array items in order, and object members in order of first appearance, where a repeated key keeps its place and takes the last value given. White space between tokens and the choice among equivalent escapes never changes the result.",
 ["inputs"],"all UTF-8 texts, valid or not, of any size, nesting and token mix",
 "The suites parse about a hundred fixed documents; the language and the documents' combinations are infinite.",
 ["src/parser.rs","src/object.rs","src/value/implements.rs"],
 [("Parser::parse state machine with explicit stack","src/parser.rs"),("expect_* macros and the ALLOWED table","src/parser.rs"),("Object::insert_index / override_at for repeated keys","src/object.rs")],
 ["json::parse"])
p("C02","Parsing any text returns Ok or Err and reads nothing outside it",
 "For every string slice, json::parse returns normally with Ok or Err: it never panics, aborts, hangs or overflows the stack, in debug and in release builds. It never reads a byte outside the slice, and the outcome depends only on the slice's contents, not on where it lies, on what surrounds it in memory, or on earlier calls.",
 ["inputs","histories"],"all string slices, at all placements in memory, after any earlier parses",
 "Four tests guard single inputs found by fuzzing; an out-of-bounds read or a stale buffer is invisible to an equality assertion on a fixed input.",
 ["src/parser.rs"],
 [("is_eof / read_byte / bump on a raw byte pointer","src/parser.rs"),("per-parser string buffer","src/parser.rs")],
 ["json::parse"],[("buffer","decoded bytes of escaped strings","src/parser.rs Parser")])
p("C03","Parse errors name the first offending character and its position",
 "When a text is refused because of a character, the error carries the first character at which the text stops being a prefix of any acceptable document, with its 1-based line (lines end at line feed) and its 1-based column counted in characters. When the text is a proper prefix of acceptable documents and simply stops, the error is the unexpected-end error.",
 ["inputs"],"all texts that are not acceptable documents (invalid surrogate escapes excepted, which only have to be refused)",
 "Three tests check one position each; the position depends on every line break and multi-byte character before it.",
 ["src/parser.rs","src/error.rs"],[("unexpected_character","src/parser.rs"),("expect_byte! end-of-input test","src/parser.rs")],["Error::UnexpectedCharacter","Error::UnexpectedEndOfJson","Display of Error"])
p("C04","Nesting up to 512 levels parses; deeper nesting is refused cleanly",
 "A valid document in which at most 512 non-empty arrays and objects enclose one another always parses, and the result can be printed, cloned, compared and dropped. A valid document with more than that is refused with the depth-limit error, for any mix of arrays and objects and wherever in the document the deep part is.",
 ["inputs"],"all valid documents by nesting depth, container mix and surrounding siblings",
 "Two tests use depths 512 and 10000 in one alternating shape only.",
 ["src/parser.rs"],[("DEPTH_LIMIT tests before each stack push","src/parser.rs")],["json::parse"])
p("C05","Every string survives escaping and unescaping unchanged",
 "For every Rust string, used as a value or as an object key, the serialized form is a valid JSON string in which exactly the quote, the backslash and the control characters below U+0020 are escaped (short escapes where JSON has them, \\u00xx otherwise), and parsing it gives back the same string. Every spelling of a string by raw characters, short escapes, \\uXXXX in either hex case and surrogate pairs parses to that string.",
 ["inputs"],"all Unicode strings of all lengths, and all their JSON spellings",
 "Tests cover about ten strings; there are 1.1 million code points, storage switches form by length, and the escaping code switches path at the first escape.",
 ["src/codegen.rs","src/parser.rs","src/short.rs","src/object.rs"],[("ESCAPED table, write_string, write_string_complex","src/codegen.rs"),("read_complex_string, read_codepoint","src/parser.rs"),("Short vs String at 30 bytes; Key inline vs heap at 32","src/short.rs, src/object.rs")],["json::parse","JsonValue::dump"])
p("C06","Serializing then parsing gives back an equal value",
 "For every value built through the API whose numbers are not NaN and whose nesting respects C04, parsing its compact or pretty text gives a value equal to the original with object members in the same order, and serializing that again gives the same text. A NaN number is written as null.",
 ["inputs","histories"],"all values reachable through constructors and mutation, all indentation widths",
 "Round trips are tested for a few hand-written documents.",
 ["src/codegen.rs","src/parser.rs","src/util/print_dec.rs","src/value/mod.rs"],[("Generator::write_json","src/codegen.rs"),("Parser::parse","src/parser.rs")],["JsonValue::dump","JsonValue::pretty","json::parse"])
p("C07","All serializers print the same document, in the documented layout",
 "dump, write, stringify, Object::dump, Display of containers and a custom Generator that only supplies a writer all produce the same compact text, with no white space outside strings. pretty(n), write_pretty(n), stringify_pretty, Object::pretty and the alternate Display (n = 4) all produce the same pretty text: one item per line, each level indented by n more spaces, one space after each colon, and empty containers as [] and {}. Both texts contain the same tokens in member order.",
 ["inputs","configurations"],"all values, all indentation widths and nesting depths",
 "Layout is tested on two small values with widths 2 and 4.",
 ["src/codegen.rs","src/value/mod.rs","src/object.rs","src/lib.rs"],[("Generator default methods and the four generators","src/codegen.rs")],["dump","pretty","write","write_pretty","stringify","stringify_pretty","Display"])
p("C08","Writing to a stream delivers everything or reports the error",
 "write and write_pretty return Ok only when the stream accepted exactly the bytes of dump or pretty, whatever sizes it accepts at a time and however often it is interrupted. When the stream fails, that error is returned, the bytes accepted so far are a prefix of that text, and nothing more is written.",
 ["fault_sequences","inputs"],"all values, all ways the stream can accept partially, be interrupted or fail, at every byte offset",
 "Tests write only into a Vec, which never fails and never writes short.",
 ["src/codegen.rs","src/util/print_dec.rs","src/value/mod.rs"],[("write_all and ? on every write","src/codegen.rs, src/util/print_dec.rs")],["JsonValue::write","JsonValue::write_pretty"])
p("C09","Number literals are read to their exact value, or 18 digits of it",
 "A JSON number literal whose digits without point and exponent form an integer that fits in 64 bits is read exactly, if the decimal exponent fits in 16 bits. Any other literal keeps its sign and is within a relative 1e-18 of the literal while exponents allow, saturates when the exponent does not fit, and is refused only if its integer part has more than 32767 digits. The value never depends on which spelling (point, exponent, leading or trailing zeroes) denotes it.",
 ["inputs"],"all number literals of any length",
 "Tests read about twenty literals; the reader switches paths at precision thresholds and on every digit pattern.",
 ["src/parser.rs","src/number.rs"],[("expect_number!, expect_fraction!, read_big_number, expect_exponent","src/parser.rs")],["json::parse","Number::as_parts"])
p("C10","Printing a number states exactly its decimal value",
 "For every number other than NaN, whatever its sign, mantissa and exponent, the printed text is a valid JSON number that denotes exactly sign * mantissa * 10^exponent, with a minus sign also for negative zero. Parsing the text gives back an equal number of the same sign; building from parts and reading the parts back preserves the value.",
 ["inputs"],"all (sign, 64-bit mantissa, 16-bit exponent) triples",
 "Six tests print single triples; the printer has four layouts and digit-count dependent branches over 2^81 triples.",
 ["src/util/print_dec.rs","src/number.rs","src/codegen.rs"],[("print_dec::write","src/util/print_dec.rs"),("Number::from_parts / as_parts","src/number.rs")],["Display of Number","JsonValue::dump","Number::as_parts"])
p("C11","Floating point numbers survive conversion, printing and parsing",
 "Every finite f64, and every finite f32, comes back bit for bit (including the sign of zero) after conversion to a number, and also after printing that number and parsing it again. Converting any number to f64 or f32 gives the nearest float (ties to even, overflow to infinity, underflow to zero or subnormals); infinities and NaN become the NaN number, which prints as null.",
 ["inputs"],"all f64 and f32 bit patterns, all (sign, mantissa, exponent) triples",
 "Tests convert about a dozen floats out of 2^64; errors of one unit in the last place need particular digits to show.",
 ["src/util/grisu2.rs","src/util/diyfp.rs","src/number.rs"],[("Grisu2 digit generation and cached powers","src/util/grisu2.rs, src/util/diyfp.rs"),("From<Number> for f64 / f32","src/number.rs")],["Number::from(f64)","f64::from(Number)","as_f64","as_f32"])
p("C12","Numbers compare equal exactly when they denote the same value",
 "Two numbers are equal exactly when their decimal values are equal, however mantissa and exponent are split; positive and negative zero are equal, and NaN equals only NaN. A number equals a Rust integer exactly when it denotes that integer, and equals an f64 or f32 exactly when that float is the nearest to it; every such comparison gives the same answer with the operands exchanged, and on JsonValue as on Number.",
 ["inputs"],"all pairs of numbers, and all pairs of a number and a Rust number",
 "Five tests compare one pair each, with exponents at most 4 apart.",
 ["src/number.rs","src/value/implements.rs"],[("PartialEq for Number, decimal_power","src/number.rs"),("implement_eq!","src/value/implements.rs")],["=="])
p("C13","Integers are stored and read back exactly, or refused",
 "Every value of every Rust integer type converts to the number with that value, prints as its usual decimal text, and is returned by the accessor and conversion of any integer type that can hold it, also after printing and parsing. An integer accessor or conversion never returns a value different from the number: out-of-range, fractional and NaN numbers and non-numbers give None or an error.",
 ["inputs"],"all values of the ten integer types, all numbers, all accessor types",
 "Tests read back 42, -1, 40000 and -5.5; the interesting values are the type boundaries.",
 ["src/number.rs","src/value/mod.rs"],[("impl_signed! / impl_unsigned! From and TryFrom","src/number.rs"),("as_* accessors","src/value/mod.rs")],["Number::from","TryFrom<Number>","as_u8..as_isize"])
p("C14","Fixed point accessors return the exact truncated integer",
 "as_fixed_point_u64(p) and as_fixed_point_i64(p) return number * 10^p truncated toward zero, exactly, whenever that integer fits in the result type. The unsigned form gives None for every negative non-zero number and both give None for NaN and for values that are not numbers.",
 ["inputs"],"all numbers and all points 0..65535 whose result fits",
 "Tests use three numbers with points 0, 2 and 4.",
 ["src/number.rs","src/value/mod.rs"],[("as_fixed_point_u64 / as_fixed_point_i64","src/number.rs")],["as_fixed_point_u64","as_fixed_point_i64"])
p("C15","An object behaves as an insertion-ordered map over any history",
 "After any sequence of insertions, overwrites, lookups, mutable accesses, removals, clears and clones, an object holds exactly the keys inserted and not removed since, each with its latest value, in order of insertion (overwriting keeps the place, removal keeps the order of the rest). Lookup, membership, length, iteration, equality and printing all agree with that, for keys of any length and content, including keys whose hashes collide.",
 ["histories","inputs"],"all operation sequences on objects, all key sets",
 "Tests use objects of at most a handful of keys, one removal, no hash collisions and no keys over 32 bytes.",
 ["src/object.rs","src/value/mod.rs"],[("binary tree over hashes in a Vec, insert_index / get / get_mut / remove","src/object.rs"),("Key inline buffer and pointer fix-up","src/object.rs")],["Object","JsonValue::insert/remove/has_key/entries"],[("store","nodes in insertion order linked as a hash tree","src/object.rs Object")])
p("C16","Container operations on values follow a simple model over any history",
 "Any sequence of push, pop, array_remove, insert, remove, indexed assignment, take, take_string and clear on a value and its descendants has exactly the documented effect and no other: it changes only the addressed place, returns the documented value, and on a value of the wrong type returns an error or null and leaves the value as it was. contains, has_key, len, is_empty and indexing always reflect the current contents; no operation panics.",
 ["histories"],"all operation sequences on all values",
 "Each operation is tested once on a fresh small value; interactions and wrong-type calls are mostly untested.",
 ["src/value/mod.rs","src/object.rs"],[("JsonValue methods","src/value/mod.rs")],["JsonValue::*"])
p("C17","Value equality is structural and independent of representation",
 "Two values are equal exactly when they have the same type and contents: strings by characters, numbers per C12, arrays item by item in order, objects by their key/value pairs in any order. Equality does not depend on how or in which storage form the values were built, is symmetric, and agrees with comparison against str, String, bool, numbers and Object.",
 ["inputs","histories"],"all pairs of values, all ways of building them",
 "One test compares six variants of one small object.",
 ["src/value/mod.rs","src/value/implements.rs","src/object.rs","src/short.rs"],[("PartialEq for JsonValue / Object / Short","src/value/mod.rs, src/object.rs, src/short.rs"),("implement_eq!","src/value/implements.rs")],["=="])
p("C18","Clones are equal to the original and independent of it",
 "A clone of a value or object is equal to the original and prints the same. Afterwards no operation on one, including dropping it, changes what the other contains or prints.",
 ["histories"],"all values and all operation sequences on original and clone",
 "No test mutates or drops one of a pair and inspects the other.",
 ["src/object.rs","src/value/mod.rs"],[("Clone for Key / Object with pointer fix-up","src/object.rs")],["Clone"])
p("C19","Safe use never corrupts memory, leaks, or frees twice",
 "Any sequence of calls through the safe API, including parsing, mutation, cloning, iteration, comparison, printing, conversion into owned strings and dropping in any order, performs only valid memory accesses. Once every value involved has been dropped, every byte the library allocated has been released exactly once.",
 ["histories","inputs"],"all operation sequences over all safe entry points",
 "Leaks, use after free and out-of-bounds accesses do not make assertions fail; the unsafe key storage depends on reallocation history.",
 ["src/object.rs","src/short.rs","src/parser.rs","src/codegen.rs","src/util/print_dec.rs"],[("Key::attach / fix_ptr / Drop / Clone, add_node","src/object.rs"),("Short::from_slice","src/short.rs"),("raw slices in the parser and generators","src/parser.rs, src/codegen.rs")],["allocator","AddressSanitizer","Miri"])
p("C20","array! and object! literals build exactly the value they spell",
 "Every literal accepted by object!, array! and value! (nested literals, null, expressions, identifier, literal and computed keys, trailing commas, the older => form) builds the same value as inserting its parts one by one in order, which is also what parsing the corresponding JSON gives. Each expression in it is evaluated exactly once, in the order written.",
 ["programs"],"all macro literals a program can contain",
 "Tests use about thirty literals; the macros parse token trees recursively with separate arms for separators, keys and values.",
 ["src/lib.rs"],[("array!, object!, value! macros","src/lib.rs")],["array!","object!","value!"])
p("C21","Conversions from Rust types preserve contents",
 "Strings of every form, booleans, options, vectors, slices, hash maps, B-tree maps, key/value iterators, objects and numbers convert into the value with the same contents: text unchanged, None as null, sequence items in order, map entries exactly once each (in iteration order, later duplicates winning), element types converted recursively. json::from, stringify and From agree.",
 ["inputs"],"all values of the supported Rust types, arbitrarily nested",
 "Tests convert one or two values per type.",
 ["src/value/implements.rs","src/object.rs","src/lib.rs","src/short.rs"],[("From impls","src/value/implements.rs"),("FromIterator for Object","src/object.rs")],["JsonValue::from","json::from","json::stringify"])
p("C22","Parsing and serializing cost work and memory linear in the text",
 "For any kind of document made larger by repetition, the number of steps and the amount of memory allocated to parse it grow in proportion to the length of the text (up to the logarithmic cost of looking up distinct keys), whether it is accepted or refused, and so do the cost of serializing and dropping the result.",
 ["inputs"],"all repetitive document families and sizes",
 "No test measures cost; a superlinear path needs long inputs of one particular kind.",
 ["src/parser.rs","src/codegen.rs","src/object.rs"],[("predictive parser without backtracking","src/parser.rs"),("hash-ordered tree","src/object.rs")],["json::parse","dump","pretty"])
p("C23","Values can be read from many threads and sent between them",
 "Reading operations through a shared reference (lookup, indexing, iteration, accessors, comparison, printing, cloning) never write to the value, so any number of threads may read one value at the same time and each gets the result a single thread would get. A value may be moved to another thread, used and dropped there.",
 ["schedules","histories"],"all values, all read operations, all interleavings of readers",
 "No test uses threads; the code asserts Send and Sync by hand for keys holding raw pointers.",
 ["src/object.rs","src/value/mod.rs"],[("unsafe impl Sync / Send for Key","src/object.rs"),("&self accessors","src/value/mod.rs, src/object.rs")],["&JsonValue API"])
p("C24","Iterators visit every entry exactly once, in order, from both ends",
 "members, entries and their mutable forms yield every item or key/value pair exactly once in order; taken from both ends in any interleaving they meet in the middle without overlap, and the remaining length is always exact. Writing through the mutable forms changes exactly the visited value; on values of the wrong type they are empty.",
 ["histories","inputs"],"all values and all interleavings of front and back steps",
 "Four tests walk two-element containers in one direction.",
 ["src/object.rs","src/value/mod.rs"],[("Iter / IterMut over the node store","src/object.rs"),("members / entries","src/value/mod.rs")],["members","members_mut","entries","entries_mut","Object::iter","Object::iter_mut"])
p("C25","Indexing is error-resilient: reads give null, writes create the path",
 "Reading through any path of string and integer indexes never panics and never changes the value: it gives the value at that path, or null where the path leaves the existing structure. Assigning through a path of keys makes exactly that path hold the assigned value, turning absent or non-object steps into objects and leaving every other member untouched; assigning at an array index within bounds replaces that item, and at one past the end or beyond appends one item.",
 ["inputs","histories"],"all values and all index paths, read and assigned in any order",
 "A handful of fixed paths on small values are tested.",
 ["src/value/mod.rs","src/object.rs"],[("Index / IndexMut for JsonValue and Object","src/value/mod.rs, src/object.rs")],["value[..]","value[..] = .."])
p("C26","Type predicates and accessors describe exactly the value's type",
 "For every value, however it was obtained, exactly one of the type predicates holds, and an accessor returns Some exactly when the value is of its type (and range, per C13), with the value's contents. is_empty, len, take, take_string and clear behave as documented for every type, whichever way a string is stored.",
 ["inputs","histories"],"all values of all types and representations",
 "Tests check each predicate on one or two values.",
 ["src/value/mod.rs","src/short.rs","src/number.rs"],[("is_* / as_* / take / take_string / clear","src/value/mod.rs")],["is_*","as_*","take","take_string","clear","is_empty","len"])
p("C27","Custom generators see every part of the document and can stop it",
 "A user's implementation of codegen::Generator that overrides any of the hooks is driven consistently: all strings and object keys go through write_string, all numbers through write_number, all objects through write_object and all values through write_json, in document order; the separator of a member is offered to write_min; indent and dedent are balanced, never below the start, and enclose the items of a non-empty container with a new_line before each item and before the closing bracket. The concatenated output is exactly the document in the layout the hooks choose. When a hook or the writer fails, that error is returned and nothing more is written.",
 ["inputs","fault_sequences"],"all values, all combinations of overridden hooks, all points of failure",
 "No test implements Generator.",
 ["src/codegen.rs"],[("Generator default methods","src/codegen.rs")],["codegen::Generator"])
p("C28","Formatting values and errors gives their whole text or the sink's failure",
 "Display writes strings as they are, numbers, booleans and null as in JSON (NaN as nan), containers as compact text, and with the alternate flag the pretty text with indent 4; strings honour width, fill and precision like any Rust string, whichever way they are stored. Debug shows every key and string in order. Error messages differ by kind and show the offending character with (line:column), or the expected type, which for push is an array and for insert an object; equal failures give equal errors. Into a sink that fails at any byte, formatting fails and has written a prefix of that text.",
 ["inputs","fault_sequences"],"all values, numbers and errors; all widths and precisions; all points of failure of the sink",
 "Five tests format fixed values; no test has a failing sink or a field width.",
 ["src/value/mod.rs","src/number.rs","src/short.rs","src/object.rs","src/error.rs"],[("fmt::Display for JsonValue / Number / Short / Error","src/value/mod.rs, src/number.rs, src/short.rs, src/error.rs"),("fmt::Debug for Node / Short","src/object.rs, src/short.rs")],["Display","Debug","Error","push","insert"])
p("C29","Sign and negation of numbers agree with their value",
 "For every number, however it was made, is_nan, is_zero, is_empty and is_sign_positive describe its value; negation is its own inverse, keeps NaN a NaN and zero a zero, and otherwise gives exactly the number of opposite sign: unequal to the original, with the same digits in print, and with opposite f64, f32 and signed fixed point results. The sign of zero is kept through conversion, printing and parsing.",
 ["inputs"],"all numbers, from parts, floats, integers, literals and negation",
 "One test negates one number.",
 ["src/number.rs","src/util/print_dec.rs","src/value/implements.rs"],[("ops::Neg for Number, category bits","src/number.rs")],["Number::is_nan","Number::is_zero","Number::is_empty","Number::is_sign_positive","-Number"])
p("C30","Everything a value offers works at every depth that parses",
 "On a value nested up to 512 levels in any mix of containers, parsing its text, cloning, comparing, dumping, pretty printing, writing, Display, Debug, walking, changing the innermost part, taking, building by conversion and dropping all complete on a thread with the 2 MiB of stack Rust gives a new thread, with the right result.",
 ["inputs"],"all values up to 512 levels deep, every operation",
 "One test parses 512 levels; it neither prints nor compares them, and runs only what the test build's frames need.",
 ["src/parser.rs","src/codegen.rs","src/value/mod.rs","src/object.rs"],[("recursion of Generator::write_json, Clone, PartialEq, Drop","src/codegen.rs, src/value/mod.rs, src/object.rs")],["json::parse","JsonValue::*"])
p("C31","Container operations scale with what they touch",
 "For keys whose hashes were not made to collide, building an array or object of n entries by push, insert, indexing, collecting or conversion, reading each entry by key or index, iterating, cloning, comparing equal objects in any member order, printing, popping, removing the last item and dropping take steps, copied bytes and memory in proportion to n, times at most the depth of the object's search tree (logarithmic on average). Replacing a value under one key keeps the object at its size.",
 ["inputs","histories"],"all sizes, key families and insertion orders",
 "Tests use containers of a few entries, where a linear search or a full copy per operation costs nothing.",
 ["src/object.rs","src/value/mod.rs","src/value/implements.rs"],[("Object::insert_index / get binary tree search","src/object.rs"),("Vec growth and Object::with_capacity","src/object.rs, src/value/mod.rs")],["Object::*","JsonValue::*"])
p("C32","Documented storage promises: what allocates nothing, what moves",
 "An empty object, however it is made, allocates nothing until a value is inserted. A string of at most 30 bytes made from a &str is made, copied, compared, taken and dropped without heap allocation. An object made with_capacity(n) takes n entries with keys of at most 30 bytes without allocating again, and clear keeps that room (or what the object had grown to); take moves a value of any size without allocating or copying its contents; and take_string hands over the very allocation a heap-allocated string lives in.",
 ["inputs","histories"],"all capacities, key orders, strings, values and places they are taken from",
 "No test observes the allocator or addresses; every one passes when these copy or reallocate.",
 ["src/object.rs","src/short.rs","src/value/mod.rs","src/value/implements.rs"],[("Object::new / with_capacity / clear","src/object.rs"),("JsonValue::take / take_string","src/value/mod.rs"),("Short","src/short.rs")],["Object::new","Object::with_capacity","Object::clear","JsonValue::take","JsonValue::take_string","JsonValue::from"])
p("C33","A panic in the caller's code leaves everything sound",
 "When a writer, formatter sink, Generator hook, iterator, key's AsRef<str>, element's Into<JsonValue> or Clone, or comparison passed to the library panics at any call, the panic reaches the caller unchanged and no further callback of that writer, sink or hook is made; what was written is a prefix of the full output. Every value that existed before holds what it held (a push or insert interrupted this way adds nothing), every item passed in is dropped exactly once and no memory is lost. The same and all other operations then work as before.",
 ["inputs","fault_sequences"],"all values, all calls that run the caller's code, all callbacks at which it can panic",
 "No test panics inside a callback.",
 ["src/codegen.rs","src/object.rs","src/value/mod.rs","src/value/implements.rs","src/lib.rs"],[("Generator::write_json, print_dec::write","src/codegen.rs, src/util/print_dec.rs"),("FromIterator for Object","src/object.rs"),("push / insert / contains","src/value/mod.rs"),("array! / object!","src/lib.rs")],["JsonValue::write","write_pretty","Display","Generator","FromIterator","From","push","insert","contains","array!","object!"])
p("C34","Calls from inside the caller's code",
 "Code that the library calls back (writer, formatter sink, Generator hook, iterator, key, conversion, clone, comparison) may itself use the library: parse, have a parse refused, print, build and change other values, and print the very value that is being written or searched, to any level of nesting. Both the inner and the outer operation give exactly the results they give alone.",
 ["inputs","schedules"],"all values, all callbacks, all operations inside them, nested calls",
 "No test calls the library from a callback.",
 ["src/codegen.rs","src/object.rs","src/value/mod.rs","src/value/implements.rs","src/parser.rs","src/util/print_dec.rs"],[("Generator::write_json","src/codegen.rs"),("FromIterator for Object","src/object.rs"),("JsonValue::contains","src/value/mod.rs")],["JsonValue::write","write_pretty","Display","Debug","Generator","FromIterator","From","push","insert","contains"])
p("C35","The library's generators, driven call by call",
 "DumpGenerator, PrettyGenerator, WriterGenerator and PrettyWriterGenerator take any sequence of the calls of the Generator trait (values, objects, strings, numbers, raw bytes through write, write_char or get_writer, the separators of write_min, new_line, indent and dedent), any number of times. The output is the concatenation of what each call means by itself: values laid out at the current level, new_line a line break and the indent in the pretty forms and nothing in the compact ones, write_min its long or its short form. In-memory generators and those on a stream, however the stream takes the bytes, give the same bytes, and several in turn on one stream continue each other.",
 ["histories","inputs"],"all sequences of calls, all levels and indents, all values, all ways a stream takes bytes",
 "No test drives a generator directly.",
 ["src/codegen.rs","src/util/print_dec.rs"],[("trait Generator and the four implementations","src/codegen.rs")],["DumpGenerator","PrettyGenerator","WriterGenerator","PrettyWriterGenerator","Generator::*"])
p("C36","Threads that use the library at once do not disturb each other",
 "Any number of threads may parse, be refused, build, change, convert, clone, compare and print values of their own at the same time, also from inside callbacks and while a thread is ending; each operation gives exactly the result it gives on a single thread, and there is no data race.",
 ["schedules","inputs"],"all schedules, all operations on each thread",
 "Tests run on several threads but each does one fixed thing, and a wrong result needs an unlucky schedule.",
 ["src/parser.rs","src/codegen.rs","src/object.rs","src/number.rs","src/value/mod.rs","src/util/grisu2.rs","src/util/print_dec.rs"],[("statics and tables","src/parser.rs, src/codegen.rs, src/util/grisu2.rs, src/value/mod.rs"),("the whole public interface","src/lib.rs")],["json::parse","JsonValue::*","Object::*","Number::*"])
p("C37","The same results whatever the machine's word size and byte order",
 "On 32-bit machines and on big-endian ones, parsing, printing, conversions, comparisons, and operations on objects, arrays, strings and numbers give what they give on 64-bit little-endian ones. The only differences are those of Rust's own isize and usize: conversions to them succeed exactly when the integer fits the type of that machine.",
 ["inputs","configurations"],"all inputs, on any target with 32- or 64-bit pointers and either byte order",
 "The tests run on the developer's own machine only; code that reads or compares words, or narrows to usize, is right there and wrong elsewhere.",
 ["src/parser.rs","src/codegen.rs","src/object.rs","src/short.rs","src/number.rs","src/value/mod.rs","src/util/diyfp.rs","src/util/grisu2.rs","src/util/print_dec.rs"],[("isize and usize arithmetic","src/util/diyfp.rs, src/util/grisu2.rs, src/util/print_dec.rs"),("as_usize, as_isize","src/value/mod.rs"),("keys, short strings and their raw bytes","src/object.rs, src/short.rs")],["json::parse","JsonValue::*","Object::*","Number::*"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
import re
for x in P:
    assert len(x['title'])<=80,x['title']
    n=len(re.findall(r'[.](?=\s|$)',x['statement']))
    if n>3: print(x['id'],n)
