import json
J="jscandec.go"; A="append_type_stack.go"; U="internal/unescape/unescape.go"; I="internal/atoi/atoi.go"; N="internal/jsonnum/jsonnum.go"
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,obs=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],hook_needed=None))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    d["anchors"]["observe_at"]=obs or ["Decoder.Decode (returned index, error, destination)","Unmarshal"]
    P.append(d)

p("C01","Only and all syntactically valid JSON documents are accepted",
"Decode and Unmarshal return an error for every input that is not exactly one RFC 8259 JSON value surrounded by nothing but insignificant whitespace, whatever the type of the destination, including when the malformed part lies in data that would be ignored (unknown fields, surplus array elements, `[0]T`, `struct{}`) or after the value. Conversely a syntactically valid document is never rejected for its syntax: into `any` every valid document whose numbers fit a float64 and which nests at most 10,000 levels decodes successfully.",
["inputs","programs"],"all byte strings, all destination types",
"The tests feed a few dozen hand-written malformed inputs to a few types; nothing covers malformed bytes inside skipped values or after complete values for arbitrary types.",
[J],[("Tokenize callback result and errTok handling at the end of Decode",J),("value skipping for unknown fields, surplus array elements, empty structs",J)])

p("C02","Integers decode exactly or are rejected, for every width and position",
"For each of int, int8…int64, uint, uint8…uint64 (and types defined on them), in every position (root, pointer, struct field, slice or array element, map value), a JSON number written as an integer decodes to exactly that integer if it is within the range of the type, and otherwise Decode fails with ErrIntegerOverflow (ErrUnexpectedValue for negative numbers into unsigned types). Numbers with a fraction or an exponent, and every non-number other than null, are rejected; no value is ever truncated or wrapped around.",
["inputs","configurations"],"every number literal of any length × 10 integer types × every position × []byte/string input × 64- and 32-bit platforms",
"Tests check a handful of boundary values per width; wrap-around happens only for particular out-of-range magnitudes and digit counts.",
[J,I],[("per-width parsers with overflow detection",I),("integer cases of Decode and the optimized []intN/[]uintN loops",J)])

p("C03","Floats decode to the nearest representable value, bit for bit",
"A JSON number decoded into float32, float64 or any (any position, including slices) yields exactly the value, bit for bit, that strconv.ParseFloat returns for that literal and size, including the sign of zero, subnormals and halfway cases. If and only if the literal is out of the range of the type an error wrapping strconv.ErrRange is returned.",
["inputs"],"every number literal × float32/float64/any × every position",
"Tests sample a few literals; the code has separate short-integer fast paths whose boundaries matter only for particular digit counts and signs.",
[J],[("integer fast paths below 1<<24 / 1<<53 and strconv fallback",J),("decodeAny number conversion",J)])

p("C04","Strings are unescaped exactly as in encoding/json",
"Every JSON string that is decoded (into strings, any, map keys, struct field names before matching, text unmarshalers, base64 byte slices) is unescaped exactly as encoding/json does: all eight short escapes, \\uXXXX in either hex case, surrogate pairs combined, lone surrogates and bytes that are not valid UTF-8 replaced by U+FFFD, everything else preserved byte for byte.",
["inputs"],"every JSON string literal × every string position × []byte/string input",
"The unescaper works in batches of 8 bytes with unrolled branches; tests cover few alignments of escapes, surrogates and invalid bytes.",
[U,J],[("unescape.Valid",U),("call sites in Decode and decodeAny",J)])

p("C05","Values of type any hold the complete JSON document",
"Decoding a valid document into `any` (at the root or at any position inside other types) yields the tree encoding/json yields: nil, bool, float64, string, []any (never nil, also when empty) and map[string]any (never nil; of duplicate keys the last one wins), with every element, in order. Nothing of the document is dropped, duplicated or attributed to a different parent, and the decoding of whatever follows the `any` value is unaffected.",
["inputs"],"every valid JSON document × every position of `any` in a type",
"Tests decode a few small trees.",
[J],[("decodeAny (recursive over tokens, returns the tail)",J)])

p("C06","Struct fields receive exactly the member that names them",
"Each member of a JSON object decoded into a struct is stored in the field that encoding/json would choose (exported, not `json:\"-\"`, tag name or Go name, exact match before first case-insensitive match, ambiguous names dropped, names compared after unescaping; embedded structs excepted), duplicates applied in order. Members matching no field are skipped completely whatever value they have and wherever they stand, and no other field, no unexported or ignored field and no memory of the struct is changed.",
["inputs","programs"],"all struct types (any number, order, naming, tagging and types of fields) × all objects (any order, duplicates, unknown members with arbitrary nested values)",
"Tests use few struct shapes, with unknown members of simple kinds; matching is unrolled by four and skipping depends on the nesting of the unknown value.",
[J,A],[("field list construction, tag parsing, ambiguity removal",A),("fieldFrameIndexByName and SCAN_KEYVALS loop",J)])

p("C07","The `string` tag option decodes quoted scalars like encoding/json",
"For fields of string, bool, integer and float kinds (and unnamed pointers to them) tagged `,string`, Decode accepts exactly a JSON null (no effect; nil for pointers) or a JSON string whose unescaped content is the JSON literal of a value of that kind in range (or null), and stores that value, as encoding/json does. Anything else — an unquoted value, surrounding garbage or whitespace, an empty string, a literal of another kind or out of range — is rejected, and fields without the option are unaffected.",
["inputs","programs"],"all contents of the quoted literal × all supported field kinds",
"Tests check some literals per kind; partial-number prefixes, escapes and nested quotes are mostly untested.",
[J,A,N],[("*String expect types and unquoteStringTag/readWholeNumber",J),("number scanner",N),("tag option parsing",A)])

p("C08","Maps contain exactly the members of the object",
"Decoding an object into a map whose key type is a string kind, an integer kind or a text unmarshaler adds one entry per distinct decoded key with the value of the last member with that key (each value decoded from scratch), leaves other existing entries untouched, creates an empty map for `{}` into a nil map and stores nil for null. Keys are converted exactly like encoding/json does (unescaped; integers in range only, otherwise rejected), and map types with other key types are rejected when the decoder is created.",
["inputs","programs"],"all map types (key kinds × value types incl. nested, large and zero-size ones) × all objects × existing map contents",
"Tests use small maps of few key/value kinds; the runtime map functions are called directly through linkname with raw pointers depending on key kind and value size.",
[J,A],[("mapassign / mapassign_faststr / makemap / typedmemclr calls",J),("appendMapKeyToStack",A)])

p("C09","Slices and arrays have exactly the elements of the JSON array",
"A JSON array of n elements decoded into a slice gives length n with element i decoded from the i-th JSON element (non-nil also for n=0; null gives nil), for every element type including zero-size ones; base64 strings decode into byte slices. Decoded into [k]T the first min(n,k) elements are stored, surplus elements are ignored, whatever they are, and the remaining array elements are zeroed.",
["inputs","programs"],"all element types × all lengths and nestings × existing slice length/capacity",
"There are 15 specialised loops plus the generic path; tests cover each with a few short arrays.",
[J,A],[("ExpectTypeSlice*, ExpectTypeArray*, ON_VAL_END element advance",J)])

p("C10","null and pointers behave as in encoding/json at every level",
"JSON null sets pointers, maps, slices and any to nil and leaves every other kind of value (bool, numbers, strings, structs, arrays, text unmarshalers of such kinds) unchanged. Any other value decoded through a pointer of any depth is stored into the existing pointee if the pointer is not nil and into exactly one newly allocated zero value otherwise, and decoding continues with the pointer's enclosing container.",
["inputs","programs"],"all types containing pointers at any depth and position × all inputs × nil/non-nil existing pointers",
"Tests use single pointers at few positions, mostly starting from nil.",
[J],[("ON_PTR, null handling, unmarshalerAt",J)])

p("C11","Recursive types decode completely at any depth and in any mixture",
"For structs that refer to themselves directly or mutually through pointers, slices and maps (including several recursive fields of different kinds, nested containers of recursive containers, and recursion below arrays, maps or other structs) Decode yields the value encoding/json yields for every nesting depth and shape, including when siblings follow a recursive value and when a recursion is empty, null or repeated.",
["inputs","programs"],"all recursive struct families × all trees of arbitrary depth and shape",
"Tests cover a few families with shallow trees; the decoder saves and restores shared mutable frames per recursion level, so errors show only for specific sequences of descents and siblings.",
[J,A],[("enterRecursion / leaveRecursion and recurFrame handling",J),("recursion detection in appendTypeToStack",A)],
[("recursion stack","saved destination/offset/length of every frame overwritten by descending","stackFrame.RecursionStack in jscandec.go")])

p("C12","Unmarshalers are called exactly once with exactly their raw value",
"For every value in the input whose destination implements json.Unmarshaler or encoding.TextUnmarshaler (by value or pointer receiver, any underlying kind, at any position, as map key for text), its method is called exactly once, in document order, on the destination itself, with exactly the bytes of the JSON value (json) or the unescaped string (text), following encoding/json for null, pointers and precedence. An error it returns stops decoding and is returned as is with the index of the value; unmarshalers of absent values are never called.",
["inputs","programs"],"all placements of unmarshaler types × all inputs × errors returned at any call",
"Tests use a few unmarshaler types in few positions.",
[J,A],[("ON_JSON_UNMARSHALER, text unmarshaler cases, unmarshalerAt",J),("implementsUnmarshaler, determine*Support",A)])

p("C13","A decoder's result does not depend on what it decoded before",
"For every sequence of Decode calls on one decoder — successful, failed at any point, aborted by a panic of an unmarshaler, with different options and destinations, interleaved with other decoders sharing the same tokenizer — each call returns the same index, error and destination contents as the same call on a fresh decoder.",
["histories","inputs","fault_sequences"],"all sequences of calls over all inputs and failure points",
"Tests use one decoder for one or two calls, rarely after a failure; the frame stack, its offsets and recursion stacks persist between calls.",
[J],[("deferred reset of destinations and recursion stacks",J)],
[("stackExp","per-decoder mutable frames (Dest, Offset, Len, RecursionStack) reused across calls","Decoder in jscandec.go")])

p("C14","Decoding into existing data merges it exactly like encoding/json",
"When the destination already holds data, a successful Decode leaves exactly the value encoding/json would leave: fields and array elements that are not mentioned keep their value or are zeroed as encoding/json does, existing pointers and maps are reused, existing slice elements are merged into when the capacity suffices or the slice grows, shrunk slices keep their backing array, scalars are overwritten.",
["inputs","histories"],"all types × all existing contents (excluding pointers inside of any and non-zero spare slice capacity) × all inputs, and sequences of Decode calls into the same variable",
"The tests decode into zero values except in a few cases.",
[J],[("reuse of pointers, maps, slices; typedslicecopy, typedmemclr",J)])

p("C15","Decoding is memory safe",
"No call of NewDecoder, Decode or Unmarshal, on any input, type and destination (successful or failing), reads or writes memory outside of the input, the destination and objects it allocates, creates ill-typed or dangling pointers, hides live objects from the garbage collector or breaks Go's unsafe.Pointer rules: everything reachable from the destination stays valid and unchanged under garbage collection, stack growth and heap reuse after Decode returns.",
["inputs","programs","schedules"],"all inputs × types × destinations × GC timings",
"Unit tests run without sanitizers, checkptr or GC pressure; a violation usually corrupts memory silently.",
[J,A],[("unsafe pointer arithmetic with Dest/Offset, runtime linknames (mallocgc, newarray, mapassign, typedmemclr, typedslicecopy)",J)],
None,["race/checkptr build","address sanitizer build","GC with clobberfree and forced collections","canaries around the destination"])

p("C16","Results own their memory; the input is never modified",
"Decode never modifies its input. When S is []byte nothing in the destination refers to the input's memory after Decode returns (strings, numbers, map keys, any, byte slices): overwriting the input afterwards does not change any decoded value. When S is string, string values without escapes refer to the source string instead of being copied, and no decoded value can modify the source.",
["inputs","programs"],"all inputs × all types",
"Tests compare the destination once, while the input is still intact.",
[J,U],[("string conversions in Decode/decodeAny; unescape.Valid copying",J),("unsafe.String conversions",U)])

p("C17","[]byte and string inputs give identical results",
"For every type, input, destination and options, decoding the same bytes as []byte and as string gives the same success or failure, the same error index and cause, and equal destination contents.",
["inputs","programs"],"all inputs × types × options",
"The two instantiations take different code paths (unsafe conversions); tests do not compare them systematically.",
[J,U,I],[("type switches on S in Decode, unescape.Valid, init()",J)])

p("C18","Errors identify the first offending value and its cause",
"Decode returns (-1, nil) exactly on success. On failure it returns a non-nil error and the byte index at which the first value (in document order) that cannot be decoded starts — the member name for unknown fields and invalid map keys — with the documented cause: ErrUnexpectedValue for values of a wrong kind, ErrIntegerOverflow for integers out of range, ErrUnknownField, strconv range errors for floats, ErrExceededMaxDepth, the error of the unmarshaler, or jscan's error and its index for syntax errors; ErrNilDest for nil destinations.",
["inputs","programs"],"all invalid or mismatching inputs × types × options",
"Tests check index and error for few single-error inputs; with nested containers, skipped values or several errors the index depends on the token bookkeeping.",
[J],[("errIndex/err assignments in every case of Decode",J)])

p("C19","Independent decoders can be used concurrently",
"Any number of goroutines may concurrently create and use decoders (each with its own tokenizer) and call Unmarshal, also for the same types, the same read-only input and the shared default options: there is no data race and every result equals that of a sequential run.",
["schedules","programs"],"all interleavings of concurrent NewDecoder/Decode/Unmarshal calls on distinct decoders",
"The tests never decode concurrently under the race detector.",
[J,A],[("absence of package-level mutable state; read-only DefaultOptions/DefaultInitOptions",J)])

p("C20","Decoding always terminates without panic",
"For every type NewDecoder/Unmarshal either return an error (types with channels, functions, complex numbers, non-empty interfaces, unsupported map keys or unsupported recursion) or a decoder, and for every input Decode returns a result or an error: it never panics (unless an unmarshaler does), crashes the process, loops forever, overflows the stack or allocates memory out of proportion to the input.",
["inputs","programs"],"all types × all byte strings, including truncated, mutated, huge and deeply nested ones",
"Tests include few malformed or extreme inputs; token indexes are advanced by unchecked arithmetic, so a wrong skip ends in an endless loop or an out-of-range index only for certain shapes.",
[J,A],[("token index advancement in Decode; depth limit in decodeAny",J),("recursive type detection",A)])

p("C21","Decoders do not keep decoded data alive",
"After Decode has returned — successfully, with an error or by a panic of an unmarshaler — the decoder and tokenizer hold no reference to the destination or anything reachable from it, so the garbage collector can free it while the decoder is still in use.",
["inputs","histories","fault_sequences"],"all types × inputs × ways of ending a call",
"No test observes object lifetime.",
[J],[("deferred reset of Dest, recursion stack pops that clear Dest",J)],
[("Dest","destination pointers in frames and recursion stacks","stackFrame, recursionStackFrame in jscandec.go")],["finalizers on the destination and on objects reachable from it"])

p("C22","Unmarshal is equivalent to NewDecoder followed by Decode",
"For every type and input Unmarshal(s, &t) succeeds exactly when NewDecoder with the default options succeeds and its Decode(s, &t) with the default options does, with the same error cause and the same contents of t, independently of previous calls; a nil destination gives ErrNilDest in both.",
["inputs","programs"],"all types × inputs × existing contents",
"The tests run both only for the tested samples and compare neither errors nor prefilled destinations.",
[J],[("Unmarshal",J)])

p("C23","Number preserves the literal text",
"Decoding a JSON number into Number stores exactly the literal's characters, a JSON string whose unescaped content is a valid JSON number literal stores that content, null leaves it unchanged and everything else is rejected; Float64, Int64 and String of the result agree with strconv and the text.",
["inputs"],"all number literals and strings × all positions",
"Tests check a handful of literals.",
[J,N],[("ExpectTypeNumber cases, readWholeNumber, Number methods",J),("number scanner",N)])

p("C24","Options change exactly what they document",
"DisallowUnknownFields makes Decode fail with ErrUnknownField exactly when a member matches no field of the struct it is decoded into; DisableCaseInsensitiveMatching restricts matching to exact names; DisableFieldNameUnescaping compares raw member names; DisallowStringTagOptOnUnsupportedTypes makes NewDecoder fail exactly for types using `,string` on unsupported kinds. In any combination they have no other effect, apply to one call only, and are never modified.",
["inputs","programs","configurations"],"all 8 combinations of decode options × init option × struct types × objects",
"Tests set single options on few flat structs.",
[J,A],[("options handling in the key and empty-struct cases",J),("string option check",A)])

p("C25","Decoding agrees with encoding/json for arbitrary compositions of types",
"For every type composed of supported kinds (scalars, any, Number, pointers, slices, arrays, maps, structs, unmarshalers, nested arbitrarily) and every input, Decode succeeds exactly when encoding/json.Unmarshal does and then leaves an equal value (same nil-ness, lengths, contents), except for the documented deviations (embedded structs, pointers held in any).",
["inputs","programs","configurations"],"all compositions of types × all inputs × 64- and 32-bit platforms",
"Every nesting of frame kinds interacts with the shared frame bookkeeping; the tests cover a few dozen types, each with a few inputs.",
[J,A],[("the whole decoder: frame stack construction and the token loop",J),("appendTypeToStack",A)])

p("C26","Results depend on the JSON value only, not on its spelling or position",
"Adding or removing insignificant whitespace, reordering members with distinct names, spelling string characters with or without escapes, and inserting unknown members does not change whether Decode succeeds nor the decoded value. A value decodes to the same result at the root as when it is a struct field, slice or array element, map value or pointee next to arbitrary siblings.",
["inputs","programs"],"all values × all equivalent spellings × all embeddings",
"Unit tests fix one spelling and one position per case.",
[J,A,U],[("token loop independent of index distances; field frames at arbitrary offsets",J)])

p("C27","Marshalled values decode back to themselves",
"For every Go value of a supported type that encoding/json can marshal without loss, decoding the output of json.Marshal or json.MarshalIndent into a fresh variable yields an equal value.",
["inputs","programs"],"all values of all supported types",
"No test round-trips generated values.",
[J],[("the whole decoder",J)])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
print(len(P))
for x in P: assert len(x['title'])<=80,x['title']
