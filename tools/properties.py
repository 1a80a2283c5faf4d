#!/usr/bin/env python3
# writes /verif/properties.jsonl
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
J, V, M, A = "json/JSON.go", "json/Value.go", "json/Map.go", "json/Array.go"
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech], "observe_at": list(observe), "hook_needed": None}})

p("C01", "Integer reads give the exact integer or refuse",
  "Reading a value as any of the ten integer types gives exactly the integer that the value holds (as an integer of any type, by value or by pointer) or that its text denotes, or it reports an error; it never wraps, truncates or invents a number. An integer that fits the requested type is always read, one that does not fit is always refused, and content that denotes no integer is never read as one. The same holds through the typed reads of a map.",
  ["inputs"], "every stored integer of every type, every text, every target type",
  "The tests try a few boundaries of some type pairs; the claim is about 20 source kinds times 10 targets times every 64-bit integer and every text.",
  [V, M], [("range checks before narrowing", "Value.go GetInt8..GetUInt64"), ("delegation", "Map.go getters")], [("content", "what a value holds", "Value.go internal_value")], ["Get<Int> and Get<Int>Value results"])
p("C02", "Numbers in parsed text are stored exactly or refused",
  "A number in the text given to the parser is stored as the integer its digits denote, in a type that can hold it, or as the floating point reading of its text when it has a fraction (single precision when that is in range); a number that no integer type holds and text that is no number are refused with an error. No number is ever stored wrapped or truncated.",
  ["inputs"], "every number literal",
  "Tests parse a few literals near type limits; the claim is about all digit strings.",
  [J], [("literal classification", "JSON.go parseJSONValue")], [], ["content of the parsed value"])
p("C03", "A map is an insertion-ordered dictionary",
  "After any sequence of assignments and removals a map has exactly the keys assigned and not removed since, in the order of first assignment, each with the value last assigned to it; its list of keys, its membership test, its lookups and its list of values always agree. Removing a present key removes that entry alone, removing an absent one is refused and changes nothing.",
  ["inputs", "histories"], "every history of assignments (through every setter) and removals, every key",
  "Tests run a few short histories on some setters; the claim ranges over all histories and all keys.",
  [M, A], [("parallel structures kept in step", "Map.go setInternalValue, removeKey")], [("dictionary", "entries", "Map.go internal_map"), ("order", "keys in order", "Map.go internal_keys"), ("values in order", "array of values", "Map.go internal_keys_obj")], ["GetKeys, HasKey, GetValue, Values"])
p("C04", "An array is a bounds-checked sequence",
  "After any sequence of appends, replacements and removals an array holds exactly the elements those operations leave, in order, and reports their number. Replacing or removing at an index inside the array affects that position alone (removal closes the gap), and an index outside is refused without change and without a crash.",
  ["inputs", "histories"], "every history, every index including negative ones",
  "Tests cover a few indices on short arrays.",
  [A], [("index checks", "Array.go SetValueAtIndex, RemoveValueAtIndex"), ("append", "Array.go Append*")], [("elements", "the sequence", "Array.go values")], ["Len, GetValues"])
p("C05", "What a typed setter stores is what the store then holds",
  "Storing through any typed setter of a value replaces its content by exactly what was given, and through any setter of a map makes the entry hold exactly what was given; the matching typed read then gives it back. Nothing else changes.",
  ["inputs"], "every setter, every argument, every previous content",
  "Tests pair some setters and getters on single examples.",
  [V, M], [("stores", "Value.go Set*"), ("stores", "Map.go Set*")], [], ["content after a set"])
p("C06", "Absent and null values read as nil or are refused, never invented",
  "Reading a value that is nil, or a key of a map that is absent or holds nil, gives nil without error through every pointer read and an error through every by-value read. A pointer read gives nil without error only in that case, except that an unsigned pointer read of the text NULL also gives nil.",
  ["inputs"], "every read, every content and key",
  "Tests cover some getters with a nil or missing key.",
  [V, M], [("nil tests", "JSON.go isNil"), ("nil branches", "Value.go, Map.go getters")], [], ["results of reads"])
p("C07", "Whole-array reads agree with element reads",
  "Reading an array as a list of one type gives a list of the same length whose every element is what the single read of that element gives, or reports an error when some element cannot be read; it never drops, reorders or invents elements.",
  ["inputs"], "every array of every length and content, every element type",
  "Tests use short arrays of well-typed elements.",
  [A, M], [("element loops", "Array.go GetArrayOf*")], [], ["results of GetArrayOf*"])
p("C08", "A clone equals its original and shares nothing with it",
  "The clone of a value, array or map holds the same content: equal scalars, clones of nested maps and arrays in the same order under the same keys. It is made of new objects, so no change to either one shows in the other.",
  ["inputs", "histories"], "every content, nested to any finite depth",
  "Tests clone a few flat examples; equality and independence range over all contents.",
  [V, M, A], [("copy per type", "Value.go Clone"), ("element loops", "Array.go clone, Map.go clone")], [], ["content and identity of the clone"])
p("C09", "Serialisation appends exactly the JSON rendering",
  "Serialising appends to the given builder, after what it already holds, exactly the JSON text of the object: braces or brackets around the renderings of the entries in order, separated by single commas, each key quoted and escaped and followed by a colon; it changes nothing else.",
  ["inputs"], "every map and array, of any length and content",
  "Tests compare the text of a few small objects.",
  [J, M, A], [("rendering by type", "JSON.go ConvertInterfaceValueToJSONStringValue"), ("entry loops", "Map.go toJSONString, Array.go ToJSONString")], [], ["text appended"])
p("C10", "Escaping is JSON escaping and unescaping inverts it",
  "Escaped text contains no bare quote and no control character, and every backslash in it starts one of the JSON escapes; unescaping it gives back the original text for every text. Text without a backslash is left alone by unescaping.",
  ["inputs"], "every text, over all bytes and lengths",
  "Tests try single escapes.",
  [J], [("escape loop", "JSON.go escapeString"), ("unescape loop", "JSON.go unescapeString")], [], ["results of the two conversions, as seen in serialised and parsed text"])
p("C11", "Parsing ends with a result or an error for every input",
  "For every text the parser returns, without a crash and in a number of steps bounded by the length of the text, either a map or at least one error.",
  ["inputs"], "every byte string",
  "Tests parse a fixed list of texts.",
  [J], [("index checks", "JSON.go Parse, parseJSONMap, parseJSONValue")], [], ["return of Parse"])
p("C12", "Text with unbalanced brackets or an unterminated end is rejected",
  "Parsing succeeds only when the text is an object whose braces and brackets outside strings are properly nested and closed, with nothing but white space around it. Everything else is refused with an error.",
  ["inputs"], "every byte string",
  "Tests try a few malformed texts.",
  [J], [("mode tracking", "JSON.go parseJSONMap"), ("end checks", "JSON.go Parse")], [], ["errors of Parse"])
p("C13", "Parsing keeps the structure and text of the document",
  "Parsing a well-formed document gives a map with the document's keys in order and for each the value written there: strings with their escapes decoded and every other byte kept, numbers, true, false, null, and nested objects and arrays likewise.",
  ["inputs"], "every well-formed document",
  "Tests parse a few documents.",
  [J], [("parser loop", "JSON.go parseJSONMap"), ("scalars", "JSON.go parseJSONValue")], [], ["content of the map"])
p("C14", "Serialising and parsing back gives the same document",
  "Serialising a map and parsing the text gives a map with the same keys in the same order and equal values, for every content made of strings, integers, booleans, null, and nested maps and arrays.",
  ["inputs"], "every such map",
  "Tests round-trip a few documents.",
  [J, M, A], [("serialiser and parser", "JSON.go")], [], ["round trip"])
p("C15", "Reading changes nothing",
  "No read, test, count, listing, cloning or serialisation of a value, map or array changes it or anything reachable from it; the only thing serialisation changes is the text builder it is given.",
  ["inputs", "histories"], "every reading operation in every state",
  "Tests read once and compare that one result.",
  [V, M, A], [("no stores on read paths", "all getters")], [], ["state after a read"])
p("C16", "Type predicates say exactly what is stored",
  "Each type test answers true exactly when the stored content is of that kind, by value or by pointer; the group tests (number, integer, float) are the unions of the single ones. For a missing key every test answers false except the null test.",
  ["inputs"], "every content, every predicate",
  "Tests check each predicate on one or two contents.",
  [V, M], [("predicates", "Value.go Is*, Map.go Is*")], [], ["answers of the tests"])
p("C17", "Booleans, floats and strings are read as stored",
  "Reading a stored boolean, string or floating point number as its own type gives the same one (single precision reads through six decimals). Other content is converted only in the documented way (text and 0/1 for booleans, numbers and numeric text for floats) or refused with an error.",
  ["inputs"], "every content",
  "Tests read a few values.",
  [V], [("reads", "Value.go GetBool, GetFloat32, GetFloat64, GetString")], [], ["results of reads"])
p("C18", "Every operation an object offers can be called",
  "A newly made value, map or array has an implementation behind each operation it lists, and calling any of them with any argument in any state does not crash.",
  ["inputs", "histories"], "every operation, every argument, every reachable state",
  "Tests call most operations once on benign arguments.",
  [V, M, A], [("constructors", "NewValue, NewMapOfValues, NewArrayOfValues")], [], ["calls"])
p("C19", "Every read reports either a result or errors",
  "A read that reports errors gives no result beside them: the pointer is nil, the number or text is the zero value. The list of errors is nil exactly when there is none.",
  ["inputs"], "every read, every content",
  "Tests look at the error of a few failing reads.",
  [V, M, A], [("return statements", "getters")], [], ["results of reads"])
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
