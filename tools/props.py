import json
F="generator/codegen/field/"
def p(id,title,st,over,q,why,files,mech,**kw):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if "state" in kw: kw["state"]=[{"name":kw["state"].split(" ")[0],"meaning":kw["state"],"where":mech[0][1]}]
    a.update(kw)
    return {"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":q},"why_tests_cant":why,"anchors":a}
P=[]
P.append(p("C01","Decoding stores exactly what the document says",
"Whenever decoding a JSON document into a fresh generated type succeeds, every member present in the document with a non-null value ends up in its Go field with exactly the denoted value (same integer, same float after rounding to the field's width, same string bytes after unescaping, same booleans, same element order and count, same map keys), and no other field is touched. A document whose members all fit their declared types, contain every required member and carry no repeated member is accepted.",
["inputs","programs"],
"every supported field shape (scalars, named scalars, pointers, slices, arrays, maps, nested structs, named containers) and option combination, every document of bounded size over symbolic numbers, string bytes, keys and member kinds",
"the tests decode a few literal documents per type; value-dependent and shape-dependent slips (wrong conversion, wrong index, swapped field, lost element) need all values of all supported shapes",
["generator/codegen/struct.go",F+"fill.go",F+"extractors.go","generator/codegen/array.go","generator/codegen/map.go","generator/codegen/transit.go","generator/codegen/byteslice.go"],
[("field extraction and assignment",F+"fill.go FillStatements/TypedValue"),("slice, array and map element filling",F+"fill.go appendElem/fillElem/mapExtraction"),("top-level containers","generator/codegen/array.go, map.go, transit.go FillFromFunc")],
state="the Go value produced by decoding",observe_at=["the generated decode methods' result and receiver"]))
P.append(p("C02","Numbers that do not fit the field are rejected, never altered",
"A JSON number stored into an integer field is stored only if it is an integer literal inside the range of that field's type, and a number stored into a 32-bit float only if its magnitude is representable; otherwise decoding fails. No number is ever wrapped, truncated or saturated silently, at any nesting depth (element, map value, pointer, named type).",
["inputs","programs"],
"every integer literal up to 70 bits and every float64, for every numeric field type and container shape",
"boundary values differ per width and per shape, and the tests sample a handful of in-range numbers per field",
[F+"fill.go",F+"extractors.go"],
[("range check after extraction",F+"fill.go checkErr/getMaxByType"),("choice of extraction accessor",F+"extractors.go intExtraction..floatExtraction")]))
P.append(p("C03","Members of the wrong JSON kind are rejected",
"If a document gives a member, element or map value a JSON kind other than the one its Go type is represented by (number, string, boolean, array, object), decoding fails with an error; nothing of another kind is ever coerced.",
["inputs","programs"],
"every JSON kind at every position of a bounded document, for every supported shape",
"kind confusion has to be tried at every position of every shape; the tests try a few",
[F+"fill.go",F+"extractors.go","generator/codegen/array.go","generator/codegen/map.go"],
[("typed extraction and error propagation",F+"fill.go checkErr/breakErr, extractors.go"),("container error propagation","generator/codegen/array.go, map.go FillFromFunc")]))
P.append(p("C04","Repeated members are rejected; unknown ones only by strict types",
"A document object that repeats any declared member is rejected, wherever the repeats are and whatever their values. A member the type does not declare is rejected if the type is declared strict, and otherwise is ignored: it neither causes an error nor changes the result.",
["inputs","programs"],
"every object with up to four members whose names are symbolic byte strings, for strict and non-strict structs of every field count in the corpus, inlined and nested ones included",
"it must hold for every member name and every order; tests use one or two hand-written names",
["generator/codegen/struct.go","generator/analyse.go"],
[("member validation","generator/codegen/struct.go ValidatorFunc"),("strictness option","generator/codegen/tags/tags.go StrictRules")]))
P.append(p("C05","Absent members: required fails, default applies, others stay",
"When a member is absent from the document, decoding fails if the member is declared required, stores exactly the declared default if it has one, and otherwise leaves the field as it was. When the member is present the default is never applied and a required member never causes an error by itself.",
["inputs","programs"],
"every subset of present members, every prior value of the target and every option (required, default, neither) on every shape that supports it",
"the presence pattern is exponential and interacts with earlier contents of the target; tests show a few patterns on fresh values",
[F+"fill.go","generator/codegen/helpers/asthelpers.go","generator/codegen/tags/tags.go"],
[("default and required branch",F+"fill.go ifDefault"),("default literal","generator/codegen/helpers/asthelpers.go BasicLiteralFromType")]))
P.append(p("C06","Null is absence for nullable members and an error for plain ones",
"A null member value counts as absent for pointer, slice, map and array fields and never turns into a non-nil or non-empty value; for plain scalars, strings, times and identifiers a null is rejected. A null element of a collection of pointers decodes to a nil pointer.",
["inputs","programs"],
"every placement of null in a bounded document, for every supported shape",
"null handling is decided separately for each shape; tests place null in a few fields",
[F+"fill.go","generator/static/tpl/valyjson_utils.go.tpl","generator/codegen/array.go","generator/codegen/map.go"],
[("presence condition",F+"fill.go FillStatements (nullable condition)"),("null short cuts in containers",F+"fill.go mapExtraction, generator/codegen/map.go")]))
P.append(p("C07","Encoding always emits one well-formed JSON value",
"Whenever encoding a value of a generated type succeeds, the bytes produced are exactly one syntactically valid JSON value: members and elements separated by single commas, brackets and quotes balanced, nothing before or after. This holds for every combination of empty, nil, zero and non-zero fields and every container length.",
["inputs","programs"],
"every field shape in every position with every combination of zero, nil and non-zero values (symbolic contents), containers of up to three elements",
"separators depend on which subset of fields is empty: exponentially many combinations, of which tests show a few",
[F+"marshal.go",F+"marshalers.go","generator/codegen/struct.go","generator/codegen/array.go","generator/codegen/map.go"],
[("comma bookkeeping",F+"marshal.go putCommaFirstIf, WriteBlock.Render; marshalers.go SetCommaVar"),("element separators","generator/codegen/array.go, map.go MarshalToFunc; "+F+"marshalers.go arrayMarshal/mapMarshal")]))
P.append(p("C08","Encoding states every field's exact value under its declared name",
"The encoded object contains each non-inlined field once under its declared JSON name with exactly the field's value: full integer value, a float literal that reads back equal, string contents, all elements in order, all map entries, null for a nil pointer, slice or map (a nil slice or map that is itself an element may also appear as an empty one). A field declared omitempty is left out exactly when it is empty (zero scalar, empty string, nil pointer, nil slice or map, zero struct), and no other field is left out.",
["inputs","programs"],
"every supported shape and option, all values within the bounds (symbolic scalars and bytes)",
"value-dependent omissions and conversions need all values; tests compare a few fixed outputs",
[F+"marshal.go",F+"marshalers.go",F+"fields.go","generator/codegen/array.go","generator/codegen/map.go","generator/codegen/transit.go"],
[("scalar writers",F+"marshalers.go intMarshal..stringMarshal"),("emptiness conditions",F+"marshalers.go NotZero/IfZero"),("element writers",F+"fields.go GetValueExtractor")]))
P.append(p("C09","Decoding what was encoded restores the value",
"For every value of a generated type whose strings are valid UTF-8, whose floats are finite and whose times their layouts can express, decoding its own encoding into a fresh value succeeds and gives an equal value (empty omitted collections and nil being equal), provided the type declares no default or required option on an omittable member.",
["inputs","programs"],
"all values within the bounds for every supported shape with both directions generated",
"round trips must close for every value; tests close a few fixed ones",
[F+"fill.go",F+"marshalers.go",F+"fields.go"],
[("decoder","generator/codegen/* FillFromFunc"),("encoder","generator/codegen/* MarshalToFunc")]))
P.append(p("C10","A reset value behaves like a fresh one",
"After resetting a value with arbitrary earlier contents it reads as the zero value of its type (collections empty), and decoding any document into it gives the same outcome and the same contents as decoding that document into a fresh value; no element, key or pointed-to datum of the earlier contents shows through.",
["inputs","histories","programs"],
"every prior contents within bounds, every following bounded document, every supported shape",
"leaks of earlier contents appear only for particular pairs of earlier value and next document",
["generator/codegen/codegen.go","generator/codegen/struct.go","generator/codegen/array.go","generator/codegen/map.go","generator/codegen/transit.go",F+"fill.go"],
[("reset","generator/codegen/codegen.go resetStmt and the ResetFunc methods"),("capacity reuse while decoding",F+"fill.go appendElem, extractors.go sliceExtraction")],
state="slice capacity tails, map contents and nested values kept across Reset"))
P.append(p("C11","The emptiness test is exact",
"The generated emptiness test answers true for a value exactly when all its fields are empty: every scalar zero, every string empty, every pointer nil, every collection nil and every nested value empty; a named collection without elements is empty too, while an empty collection that is not nil may count either way inside another value. It never answers true while some field carries information.",
["inputs","programs"],
"all values within bounds of every supported type (types holding inline fixed arrays may answer false)",
"a field that is not looked at shows only when it is the single non-empty one; tests do not try each field alone",
["generator/codegen/struct.go","generator/codegen/array.go","generator/codegen/map.go","generator/codegen/transit.go","generator/codegen/byteslice.go","generator/codegen/helpers/asthelpers.go"],
[("emptiness test","generator/codegen/* ZeroFunc"),("zero literals","generator/codegen/helpers/asthelpers.go ZeroValueOfT")]))
P.append(p("C12","Decoded values own their data",
"After decoding returns, nothing done later to the input buffer, and no later decode through any generated type, changes the decoded value. Two values decoded one after the other share no memory.",
["inputs","histories","programs"],
"every supported shape, every bounded document, followed by overwriting the input and an arbitrary second decode that reuses the pooled parser",
"sharing is invisible until the buffer or parser is reused; tests compare right after decoding",
[F+"fill.go",F+"extractors.go","generator/codegen/codegen.go"],
[("string and byte copies",F+"fill.go typedFillIn, byteslice.go"),("parser pooling","generator/codegen/codegen.go NewUnmarshalFunc")],
state="parser buffers in the per-type pools"))
P.append(p("C13","Operations on different values never interfere",
"Decoding, encoding, emptiness tests and resets on one value read and write only that value, the bytes handed in or out, and pooled scratch memory held exclusively for the duration of the call; a parser is never handed back twice and never used after it was handed back. Hence any number of goroutines working on different values behave as if run one after another.",
["schedules","inputs","histories","programs"],
"every interleaving of operations on disjoint values, decided by the footprint of a single arbitrary operation on every path, successful or failing",
"a race needs a particular interleaving; the footprint of each path decides all of them at once",
["generator/codegen/codegen.go",F+"marshal.go","generator/static/tpl/valyjson_utils.go.tpl"],
[("parser pool discipline","generator/codegen/codegen.go NewUnmarshalFunc"),("shared helpers","generator/static/tpl/valyjson_utils.go.tpl")],
state="package-level parser pools"))
P.append(p("C14","No input makes generated code crash",
"Decoding any JSON document, whatever its kinds, lengths and nesting, into any value of a generated type (fresh, reset or already filled) returns normally with or without an error, and so do encoding, emptiness tests and resets of any value, a nil receiver of an encoder included, which encodes as null.",
["inputs","programs"],
"every bounded document and every bounded value of every supported shape, nil pointers at every place",
"a crash needs a particular length, nil or kind combination; tests use well-behaved inputs",
[F+"fill.go",F+"extractors.go",F+"marshal.go","generator/codegen/struct.go","generator/codegen/array.go","generator/codegen/map.go"],
[("slice extension and indexing",F+"fill.go appendElem/fillElem"),("nil checks","generator/codegen/* MarshalToFunc, "+F+"marshalers.go")]))
P.append(p("C15","Inlined and embedded structs keep their declared place",
"The members of a struct inlined into another are read from and written to the enclosing object itself, as if declared there; an embedded struct with a JSON name is read from and written to a nested object of that name. Both hold at any depth and for types of other packages, and no member is lost, duplicated or moved to another level.",
["inputs","programs"],
"all bounded documents and values for every inlining arrangement: one or more levels, several inlined structs, first, middle or last position, named and unnamed, local and imported",
"placement mistakes depend on the arrangement of neighbours and on which members are empty",
["generator/analyse.go","generator/codegen/struct.go",F+"marshalers.go"],
[("field flattening","generator/analyse.go collectFields/exploreInlined"),("unnamed embedded encoding",F+"marshalers.go inlineStructMarshal")]))
P.append(p("C16","Named types behave exactly like the type they denote",
"A type declared from another type (scalar, struct, collection, reference, imported type), whether used as a field, an element, a map key or value or at the top level, accepts, rejects, stores and emits exactly what the denoted type would, with the same limits.",
["inputs","programs"],
"all values and bounded documents, for each pair of a named type and its denoted type in every supported position",
"the generator decides conversions per position and per kind; tests use a few pairs with one value each",
["generator/codegen/transit.go",F+"fields.go",F+"fill.go","generator/codegen/helpers/gotypes.go"],
[("denoted type resolution","generator/codegen/helpers/gotypes.go"),("transitive types","generator/codegen/transit.go")]))
P.append(p("C17","Times follow the declared layout in both directions",
"A time field is written with the layout its declaration names (RFC 3339 with nanoseconds if none) and read with that same layout, or with the documented set of layouts if none; text in another form is rejected. The instant stored is the instant the text denotes.",
["inputs","programs"],
"every instant, every kind of text (right layout, other layout, not a time) for value and pointer fields, elements and named times, with layouts given as text and by standard name",
"each shape has its own code for layout and emptiness; tests check few fixed instants",
[F+"extractors.go",F+"marshalers.go",F+"marshal.go","generator/static/tpl/valyjson_utils.go.tpl"],
[("reading",F+"extractors.go timeExtraction"),("writing",F+"marshalers.go timeMarshal")]))
P.append(p("C18","Byte strings and identifiers use their exact text form",
"Byte slices and byte arrays are written as the standard base64 text of all their bytes and identifiers as their canonical text; reading accepts exactly texts of that form and stores exactly the encoded bytes. A byte array is filled completely or the document is rejected.",
["inputs","programs"],
"all byte contents up to the bound, all lengths up to the bound including one too few and one too many for arrays",
"length and content errors show only for particular sizes; tests use one size",
[F+"byteslice.go","generator/codegen/byteslice.go",F+"extractors.go",F+"marshalers.go"],
[("base64 reading and writing",F+"byteslice.go"),("identifiers",F+"extractors.go uuidExtraction; marshalers.go uuidMarshal")]))
P.append(p("C19","A decoding error names the offending place",
"When a member, element or map entry is rejected, the error text contains the chain of member names, element positions and map keys that leads from the root of the document to the offending value, in that order.",
["inputs","programs"],
"every position of an offending value in bounded documents of every supported shape",
"the chain is assembled piecewise in each container's code; tests check few messages",
[F+"fill.go",F+"extractors.go","generator/codegen/array.go","generator/codegen/map.go","generator/static/tpl/valyjson_utils.go.tpl"],
[("path wrapping","generator/static/tpl/valyjson_utils.go.tpl newParsingError"),("path elements",F+"fill.go breakErr/checkErr")]))
P.append(p("C20","Encoding only reads its value and only appends",
"Encoding leaves the value exactly as it was, including the spare capacity of its slices, and only appends to the output given, so that encoding the same value twice in a row appends the same text twice (up to the order of map entries).",
["inputs","histories","programs"],
"all bounded values of every supported shape, encoded twice into one output",
"a write through a shared slice or leftover encoder state shows only on the second use",
[F+"marshalers.go",F+"byteslice.go","generator/codegen/codegen.go"],
[("writers",F+"marshalers.go"),("top-level encode","generator/codegen/codegen.go NewMarshalFunc")]))
P.append(p("C21","Names and defaults are reproduced letter for letter",
"The generated code recognises and emits exactly the declared JSON name, for every name of letters (any script), digits and the punctuation encoding/json allows in names; it stores exactly the declared default and writes and reads times in exactly the declared layout, whatever characters (quotes, backslashes, backquotes, percent signs, non-ASCII letters) the default or layout contains. Nothing in the text is interpreted, dropped or changed.",
["inputs","programs"],
"every name, default and layout text up to the bound, with symbolic characters",
"the tests' declarations only use plain ASCII words",
["generator/codegen/tags/tags.go","generator/codegen/helpers/asthelpers.go","generator/codegen/struct.go",F+"fill.go",F+"marshalers.go"],
[("tag parsing","generator/codegen/tags/tags.go Parse"),("literal construction","generator/codegen/helpers/asthelpers.go BasicLiteralFromType; "+F+"extractors.go timeExtraction")]))
P.append(p("C22","Directives decide what is generated, however they are written",
"The code generated for a type depends only on the set of options of its own directive: decoders unless encode-only or custom, encoders unless decode-only or custom, strict checks exactly if strict; letter case, spacing, order and repetition of options, spreading them over several comment lines and other comments around them do not matter, and types without a directive (other than element types of declared slices and arrays, which follow the type that uses them) get nothing of their own.",
["inputs","programs","configurations"],
"every directive of up to two options (three in the thorough tier) each of which is any word of up to six letters of any case or blank, in every form of comment, for every form of declaration",
"tests use one spelling of each option",
["generator/analyse.go","generator/codegen/tags/tags.go"],
[("directive parsing","generator/analyse.go extractTags"),("selection","generator/analyse.go BuildDecoders/BuildEncoders")]))
P.append(p("C23","Types of other packages resolve to the imported package",
"A field, element or inlined type written with a package qualifier is handled according to the declaration of that name in the package of the module that the file imports under that qualifier, whatever the alias, the package clause and the directory are called, and even if other packages of the module have the same name or declare a type of the same name; and the generated file imports that same package under that same name, and only if it uses it.",
["programs","configurations"],
"every one-letter alias and package clause of two packages of one module that declare same-named types of eight kinds, used in nine forms of declaration, with equal and different directory names, in the root of the module, spread over files, declared by way of another type, or both imported in one file",
"it depends on the layout of the whole module; the tests have one layout",
["generator/analyse.go","generator/parser.go","generator/discoverer/parser.go","generator/discoverer/projstruct.go"],
[("external resolution","generator/analyse.go resolveExternal"),("package discovery","generator/discoverer/projstruct.go")]))
P.append(p("C24","Generation depends only on the source it is given",
"Generating code for a file gives the same text every time, whatever order maps are iterated in, and the same text whether or not code for other files was generated earlier in the same process.",
["histories","programs"],
"four source files that use every kind of import, before and after a file with an arbitrary import alias of up to eight letters, and under different map orders",
"hidden state shows only for particular orders of files",
["generator/parser.go","generator/analyse.go","generator/codegen/struct.go"],
[("import registration","generator/parser.go FixImports"),("shared syntax nodes","generator/analyse.go collectFields")],
state="process-wide package registry and syntax nodes reused between passes"))
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P: jsonschema.validate(x,s)
print(len(P), max(len(x["title"]) for x in P))
