import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    d["anchors"]["hook_needed"]=None
    P.append(d)
I="include/valijson/"
VV=I+"validation_visitor.hpp"; SP=I+"schema_parser.hpp"; CC=I+"constraints/concrete_constraints.hpp"; BA=I+"internal/basic_adapter.hpp"
nosuite="The JSON-Schema-Test-Suite submodule is empty here, so the stable tests exercise "
p("C01","Boolean applicators and boolean schemas combine verdicts as specified",
 "A document is valid against allOf exactly when it is valid against every child, against anyOf when at least one, against oneOf when exactly one, and against not when its child rejects it. When 'if' accepts the document 'then' decides (absent: valid), otherwise 'else' decides (absent: valid), and 'then'/'else' without 'if' are ignored. A draft-7 boolean schema true accepts and false rejects every document, wherever a schema may appear, and a schema's keywords are conjoined.",
 ["inputs","configurations"],"every schema built from these applicators to any nesting depth, every document, drafts 3/4/7 where the keyword exists",
 nosuite+"only a handful of nested applicator combinations; the truth table over every combination of accepting/rejecting children, nested in each other, is never explored.",
 [VV,SP,CC],[("visit(AllOf/AnyOf/OneOf/Not/Conditional)",VV),("makeAllOf/AnyOf/OneOf/Not/ConditionalConstraint",SP)],["Validator::validate result"])
p("C02","Object keywords decide exactly the objects JSON Schema says they do",
 "properties, patternProperties and additionalProperties together apply to each member every subschema whose name equals or pattern matches it, and additionalProperties exactly to members matched by neither; required, minProperties, maxProperties, property and schema dependencies, and propertyNames accept exactly the objects the JSON Schema draft says. None of them constrains a value that is not an object. They behave this way at the schema root and in any nested subschema.",
 ["inputs","configurations"],"every combination of the object keywords in one schema, every member set (including empty, overlapping patterns, names with '/', '~', '%' or non-ASCII characters), every nesting",
 nosuite+"few combinations of the three property keywords; overlaps of names and patterns and nested placements are unbounded.",
 [VV,SP,CC],[("visit(PropertiesConstraint) and its functors",VV),("visit(Required/Dependencies/PropertyNames/Min/MaxProperties)",VV),("makePropertiesConstraint",SP)],["Validator::validate result"])
p("C03","Array keywords decide exactly the arrays JSON Schema says they do",
 "A single items schema applies to every element; an items array applies position by position and additionalItems applies exactly to the elements beyond it (false: no such element may exist; ignored when items is not an array). contains accepts an array exactly when some element is accepted, minItems and maxItems bound the element count, and uniqueItems accepts exactly the arrays without two deeply equal elements. None of them constrains a value that is not an array.",
 ["inputs","configurations"],"every combination of array keywords, every array length around the number of item schemas, every position of failing or duplicate elements",
 nosuite+"a few fixed lengths; off-by-one behaviour at each boundary and each position of a failing element is not sampled.",
 [VV,SP,CC],[("visit(SingularItems/LinearItems/Contains/UniqueItems/Min/MaxItems)",VV),("makeLinearItemsConstraint, makeSingularItemsConstraint",SP)],["Validator::validate result"])
p("C04","Scalar keywords decide exactly the values JSON Schema says they do",
 "With strong typing, type accepts exactly the named JSON types (a number with zero fraction within the 64-bit range is an integer, every integer is a number), and minimum, maximum, their exclusive forms and multipleOf/divisibleBy accept exactly the numbers that satisfy the arithmetic relation. pattern accepts exactly the strings in which the regular expression matches somewhere; minLength and maxLength compare the number of characters. Keywords for numbers never constrain non-numbers and keywords for strings never constrain non-strings.",
 ["inputs"],"every scalar document, every bound including equal-to-bound and sign changes, integral and fractional numbers (up to 15 significant decimal digits), every regular expression of a generated grammar",
 nosuite+"single values per keyword; the boundaries (equal, just above, fraction against integral divisor, zero, negative) for each bound are not covered.",
 [VV,CC],[("visit(Type/Minimum/Maximum/MultipleOf*/MinLength/MaxLength/Pattern)",VV)],["Validator::validate result"])
p("C05","Formats accept exactly the strings of their grammar and calendar",
 "A string is accepted by format date, time, date-time and ipv4 exactly when it is in that format's grammar: real calendar days including leap years, hours 0-23, minutes 0-59, second 60 only at 23:59 UTC after applying the offset, four decimal octets 0-255 of one to three digits. The UTC offset is mandatory in strict date/time mode and optional in permissive mode, which changes nothing else. Non-string values and unknown format names are always accepted, and no string (up to a few kilobytes) makes validation throw.",
 ["inputs","configurations"],"every string, both date/time modes",
 "The date/time tests list a fixed file of strings; calendar arithmetic and leap-second normalisation over all days, times and offsets, and near-miss strings, are unbounded.",
 [VV,I+"validator.hpp"],[("visit(FormatConstraint)",VV),("validate_date_range, validate_leap_second",VV)],["Validator::validate result"])
p("C06","A local reference behaves exactly like the subschema it points to",
 "Replacing a subschema by a $ref to an identical subschema elsewhere in the same document - by JSON Pointer (with ~0, ~1 and percent escapes), by absolute or relative $id/id, or by a #name identifier - never changes any verdict, whatever order, sharing, nesting or forwarding (a $ref to a $ref) is used, and including recursive schemas. Siblings of a $ref are ignored. A reference that identifies nothing makes schema loading fail instead of being ignored.",
 ["inputs","programs"],"every schema document with any arrangement of definitions, identifiers and references, every member name used as a path component, every document",
 "Tests contain a few hand-written reference layouts; collisions between registry keys, escape handling, forwarding and sharing depend on the combination of names and order.",
 [SP,I+"internal/json_reference.hpp",I+"internal/json_pointer.hpp",I+"internal/uri.hpp",I+"schema_registry.hpp"],
 [("makeOrReuseSchema / resolveThenPopulateSchema",SP),("findSchemaById / findScopeForPath",SP),("schema registry keys",SP)],["SchemaParser::populateSchema outcome","Validator::validate result"],
 [("schemaRegistry","URI+path of a schema node -> the subschema built for it","schema_parser.hpp")])
p("C07","Remote schema documents: right URI, fetched once, freed once, on every path",
 "Loading a schema calls the fetch callback exactly with the absolute-resolved URIs of the remote documents its references reach, at most once per distinct URI, and every document obtained is released through the free callback exactly once, never before it was last read, whether loading succeeds, a fetch fails, a reference is dangling, or a schema is malformed. A failed fetch or a missing callback pair makes loading fail with an exception. Verdicts are those of the schema with the remote parts inlined.",
 ["fault_sequences","histories","inputs"],"every reference graph over several documents (chains, diamonds, self and mutual references, root references), every subset of failing fetches, every position of a malformed or dangling part",
 "Tests fetch one or two documents successfully; failing fetches, repeated URIs and errors after a successful fetch are hardly exercised and the free calls are not counted.",
 [SP],[("docCache, freeDocumentCache",SP),("resolveDocumentUri",SP)],["fetchDoc/freeDoc callbacks","SchemaParser::populateSchema outcome"],
 [("docCache","resolved URI -> fetched document still owned by the parser call","schema_parser.hpp")])
p("C08","Asking for error details never changes the verdict",
 "Validation returns the same verdict whether or not a results object is supplied. A valid document adds no error to the results; an invalid one adds at least one. Validation never throws for a schema that was loaded successfully and whose regular expressions are valid, in either typing mode.",
 ["inputs","configurations"],"every loaded schema, every document, strong/weak typing, strict/permissive date-time",
 "The two evaluation strategies (stop early, continue) take different branches in every visitor; tests compare them on a few pairs only.",
 [VV,I+"validator.hpp",I+"validation_results.hpp"],[("m_results null / non-null branches",VV)],["Validator::validate result","ValidationResults::numErrors"])
p("C09","Errors identify the offending location and come out in order",
 "Each reported error names, as an RFC 6901 JSON Pointer and as the equivalent legacy context list, the location in the document of the value whose schema keyword failed, and every failing keyword of an applied schema is reported, including each failing member or element reached through it (allOf stops at its first failing child). The error queue is first-in first-out: iteration and popping yield the same errors in the order they were added, each exactly once, and the count always equals what is left.",
 ["inputs","histories"],"every failing schema/document pair, member names needing ~ and / escapes, nesting through every applicator; every sequence of push, pop and iterate",
 "Tests assert one or two messages for a few documents; path construction through each keyword and nesting is unbounded.",
 [VV,I+"validation_results.hpp"],[("pushError path handling",VV),("toJsonPointer / toContext / popError",I+"validation_results.hpp")],["ValidationResults iteration and popError"],
 [("m_errors","queue of reported errors","validation_results.hpp")])
p("C10","Weak typing accepts exactly the documented conversions",
 "With weak typing a string is additionally accepted as a number, integer or boolean exactly when its whole text is such a JSON literal (blanks around it, a leading plus, inf and nan are left open), an empty string as null, and an empty array or object as each other; keywords apply to the converted value (const and enum on empty values are left open). type object, array and string are not widened. With strong typing none of these conversions happens.",
 ["inputs","configurations"],"every keyword, every document of strings that look like numbers/booleans (and near misses), empty containers, both modes",
 "Tests of weak mode cover a few named conversions in one or two keywords; the product of keywords and convertible values is not sampled.",
 [VV,BA,I+"internal/double_parser.hpp"],[("maybe*/as* casts",BA),("m_strictTypes branches",VV)],["Validator::validate result"])
p("C11","The verdict does not depend on which JSON library holds the document",
 "For every JSON text, every strictly typed adapter (RapidJSON, JsonCpp, nlohmann, picojson, Boost.JSON, Poco, Qt JSON and QVariant) loads the same schema or fails alike and gives the same verdict and the same multiset of error locations, also when schema and document are held by different libraries. Every adapter exposes the same tree: types, sizes, members in lookup and iteration, values and equality.",
 ["inputs","configurations"],"every schema/document pair within the numbers and strings all libraries can represent, every pair of adapters",
 "The adapter comparison tests use fixed small values per adapter, never whole schemas or generated trees across all pairs of libraries.",
 [I+"adapters/rapidjson_adapter.hpp",I+"adapters/jsoncpp_adapter.hpp",I+"adapters/nlohmann_json_adapter.hpp",I+"adapters/picojson_adapter.hpp",I+"adapters/boost_json_adapter.hpp",I+"adapters/poco_json_adapter.hpp",I+"adapters/qtjson_adapter.hpp",I+"adapters/qvariant_adapter.hpp"],
 [("Adapter/Array/Object/Value classes","include/valijson/adapters")],["Adapter interface","Validator::validate result"])
p("C12","Deep equality is JSON equality, for const, enum and uniqueItems alike",
 "Strict comparison of two JSON values, in any two libraries and also against a stored (frozen) copy, is true exactly when they have the same JSON type and, numbers compared mathematically (1 equals 1.0), strings character by character, arrays element by element and objects as unordered maps, equal content. It is reflexive, symmetric and transitive. const and enum accept exactly the values equal to (one of) the listed ones, uniqueItems rejects exactly arrays with two equal elements.",
 ["inputs","configurations"],"every pair of values (nested, permuted members, near-equal numbers, subset objects), every pair of adapters",
 "Existing comparison tests use scalar values and one fixed array/object; symmetry and nested near-misses quantify over all pairs.",
 [BA,VV]+[I+"internal/frozen_value.hpp"],[("equalTo, ArrayComparisonFunctor, ObjectComparisonFunctor",BA),("FrozenValue::equalTo","include/valijson/adapters")],["Adapter::equalTo","FrozenValue::equalTo","Validator::validate result"])
p("C13","A loaded schema is independent of the document it came from",
 "After loading, the schema gives the same verdicts when the schema text's document, the fetched documents and the parser are modified or destroyed, and validation modifies neither schema nor document. The same schema object can be populated and used from any mix of libraries.",
 ["histories"],"every interleaving of load, destroy or overwrite of the source document, parser destruction, and validation",
 "Tests keep source documents alive on the stack for the whole test, so retained references would go unnoticed.",
 [SP,CC,I+"internal/frozen_value.hpp",I+"schema.hpp"],[("freeze() of const/enum values","include/valijson/adapters"),("string copies in constraints",CC)],["Validator::validate result after source destruction","sanitizer aborts"])
p("C14","Schema objects own their memory: balanced, movable, misuse rejected",
 "Every block a schema obtains from the allocation functions it was given is returned through the matching free function exactly once, whatever sequence of creating subschemas, adding constraints, setting attributes, moving and destroying is performed, also when loading throws half-way. Giving a subschema of another schema, or the shared empty subschema, to a mutating call raises an exception and changes nothing. Attributes read back what was last set and moved-to objects behave as the source did.",
 ["histories","fault_sequences"],"every sequence of those operations up to a bound, with and without custom allocators, every constraint kind, allocation failures",
 "Tests build schemas once and destroy them; allocator balance, moves and foreign-handle misuse over operation sequences are not observed.",
 [I+"schema.hpp",I+"subschema.hpp",I+"internal/custom_allocator.hpp",I+"constraints/basic_constraint.hpp",CC],
 [("Schema destructor, createSubschema, mutableSubschema",I+"schema.hpp"),("Subschema destructor/move, addConstraint",I+"subschema.hpp")],["custom alloc/free calls","exceptions","getters"],
 [("subschemaSet","subschemas owned by a schema","schema.hpp"),("m_constraints","owned constraint copies","subschema.hpp")])
p("C15","A validator's verdict does not depend on what it validated before",
 "A validator object reused for any sequence of schemas and documents, interleaved in any order, gives for each pair the verdict and errors a fresh validator gives; the typing and date-time modes chosen at construction stay in force. Two validators with different modes never influence each other, and a pattern always means its own regular expression.",
 ["histories","configurations"],"every sequence of validate calls with several schemas, documents, patterns and validators of all four mode combinations",
 "Tests use a validator for one or two calls; the regular-expression cache and static state are shared across calls.",
 [I+"validator.hpp",VV],[("regexesCache",I+"validator.hpp"),("static format regexes",VV)],["Validator::validate result"],
 [("regexesCache","pattern text -> compiled expression, kept across calls","validator.hpp")])
p("C16","Malformed schemas are rejected by an exception, well-formed ones accepted",
 "Loading a schema in which a keyword known to the chosen draft has a value of the wrong type or shape (or which uses a keyword in a draft that forbids it) raises an exception, wherever in the schema it occurs; a well-formed schema loads without exception. Loading never crashes, and a rejected schema leaves the parser usable for the next one. Keyword values are read with weak typing (a number may be given as text), and unknown keywords are ignored.",
 ["inputs","configurations"],"every keyword, every JSON type as its value, every nesting position, drafts 3, 4 and 7",
 "Tests try a few malformed schemas; the matrix keyword x value type x draft x nesting position is not sampled.",
 [SP],[("populateSchema and make*Constraint checks",SP)],["SchemaParser::populateSchema outcome"])
p("C17","JSON Pointers resolve per RFC 6901 in URI fragment form",
 "Resolving a pointer from a root yields exactly the node reached by splitting at '/', percent-decoding and unescaping ~1 and ~0 in that order of nesting, selecting object members by exact name and array elements by decimal index; the empty pointer is the root. A missing member, out-of-range or non-decimal index, '-' on an array, a token applied to a scalar, a bad percent escape or a missing leading slash raises an exception and never yields another node; empty tokens (a//b, a trailing slash) are skipped, as the library documents in its tests.",
 ["inputs"],"every pointer string and every document, all adapters",
 "Tests list about twenty pointers; escapes, indexes and malformed tokens are an unbounded input space.",
 [I+"internal/json_pointer.hpp"],[("resolveJsonPointer(Strict), extractReferenceToken",I+"internal/json_pointer.hpp")],["resolved node or exception"])
p("C18","Relative references resolve against their base as RFC 3986 prescribes",
 "Resolving a relative reference (path, absolute path, query or fragment) against a hierarchical base URI gives the RFC 3986 result, with '.' and '..' segments removed, '..' never escaping the authority, and query and fragment of the base dropped; absolute URIs and URNs are returned unchanged and an empty reference returns the base. Resolution is idempotent on its own results, and a reference split into document URI and fragment always recombines to the original.",
 ["inputs"],"every base and reference over path segments, dots, queries, fragments and authorities within the forms documented in uri.md",
 "Tests list a table of pairs; dot-segment and slash combinations are unbounded.",
 [I+"internal/uri.hpp",I+"internal/json_reference.hpp","uri.md"],[("resolveRelativeUri, isUriAbsolute, isUrn",I+"internal/uri.hpp"),("getJsonReferenceUri/Pointer",I+"internal/json_reference.hpp")],["returned URI"])
p("C19","String length counts Unicode characters",
 "For every well-formed UTF-8 string, including embedded NUL, the length used by minLength and maxLength is its number of code points; for arbitrary bytes the count is at least one per started sequence, never exceeds the byte count and never reads outside the string. Appending a well-formed character increases it by one.",
 ["inputs"],"every byte string, complete at the encoding-class level up to a bound",
 "Tests check a list of strings; truncated and mixed sequences at every position are not enumerated.",
 [I+"utils/utf8_utils.hpp",VV],[("u8_strlen",I+"utils/utf8_utils.hpp")],["returned count","Validator::validate result"])
p("C20","Custom constraints are built, invoked, copied and destroyed correctly",
 "A registered constraint builder is invoked for every occurrence of its keyword in a loaded schema with that keyword's value, exactly once where the subschema is used in place and once for each way it is reached where it is referred to, and the constraint it returns takes part in validation like a built-in keyword: it is called with the value and path it applies to and its verdict and errors count. Every constraint object and every copy is destroyed exactly once, builders are destroyed with the parser, and an exception from a builder aborts loading and leaks nothing.",
 ["histories","inputs","fault_sequences"],"every schema in which custom keywords occur at any positions and any number, several builders, builders that throw, moved schemas",
 "One test registers one builder on a flat schema; occurrence counts, nesting, failures and object lifetimes are not observed.",
 [SP,I+"constraint_builder.hpp",CC],[("addConstraintBuilder, constraintBuilders loop",SP),("PolyConstraint clone protocol",CC)],["builder and constraint callbacks"])
p("C21","Reference cycles never hang or crash the library",
 "A schema whose references form a cycle through keywords that descend into the document loads and validates every finite document like its infinite unfolding. A reference cycle that contains nothing but references makes loading fail with an exception (never silently accept everything). Loading terminates for every schema, also when the cycle passes through the root, through identifiers, or through several documents.",
 ["inputs","programs"],"every reference graph up to a bound over root, definitions, identifiers and remote documents",
 "Tests have two or three recursive schemas; which back edge closes a cycle and through which mechanism is combinatorial.",
 [SP],[("newRegistryKeys cycle check in makeOrReuseSchema",SP),("resolveThenPopulateSchema",SP)],["SchemaParser::populateSchema outcome","Validator::validate result"])
p("C22","Loosely typed containers validate by the weak-typing rules",
 "For Boost property trees (whose empty node is an empty array) and YAML documents, which store every scalar as text, validation gives the verdict that a strictly typed tree with the same texts gives under weak typing, and iteration, lookup, sizes and path reporting follow the tree. The string adapter used for property names behaves as a string value.",
 ["inputs","configurations"],"every tree of strings, sequences and maps, every keyword, both typing modes",
 "Existing tests iterate fixed trees and validate a few YAML documents.",
 [I+"adapters/property_tree_adapter.hpp",I+"adapters/yaml_cpp_adapter.hpp",I+"adapters/std_string_adapter.hpp",BA],
 [("adapters without strict types","include/valijson/adapters")],["Validator::validate result"])
p("C23","Each draft gives its own meaning to the keywords that differ",
 "Drafts 3, 4 and 7 are told apart by the parser's version only: boolean versus numeric exclusiveMinimum/Maximum, boolean versus array required, id versus $id, extends and schemas in type only in draft 3, divisibleBy versus multipleOf, string dependencies only in draft 3, boolean schemas and if/then/else and propertyNames only in draft 7. A schema using only keywords common to all drafts gets the same verdicts in all of them.",
 ["inputs","configurations"],"every schema over the differing keywords, each draft, every document",
 nosuite+"draft-specific keywords almost nowhere; cross-draft confusion is only visible on specific keyword/draft pairs.",
 [SP],[("m_version branches",SP)],["SchemaParser::populateSchema outcome","Validator::validate result"])
p("C24","Threads with objects of their own do not interfere",
 "Threads may load schemas and validate documents at the same time as long as no object that one of them modifies is used by another: loading modifies only its parser and its schema, validating modifies only its validator and its results and leaves the schema and the document as they were, and copying a validator modifies nothing but the copy. Under that rule no two calls touch the same memory with one of them writing it, in particular no state is kept behind the scenes for all validators or all parsers, and every call returns what it would have returned alone - also for several validators sharing one schema and document, and for a validator or a schema handed from one thread to another.",
 ["schedules","histories","inputs"],"every schedule of loads, validations, copies and destructions by several threads that keeps to the rule, every schema, document and mode",
 "No test uses a thread; a data race shows in no single-threaded run and rarely in a threaded one.",
 [VV,I+"validator.hpp",I+"subschema.hpp",SP],[("ValidatorT::validate",I+"validator.hpp"),("Subschema::apply, applyStrict",I+"subschema.hpp"),("static regular expressions of formats and URNs",VV)],["Validator::validate result","SchemaParser::populateSchema outcome","memory accesses (ThreadSanitizer)"])
p("C25","loadDocument reads what the file says or says no",
 "For every supported library with such a helper, loadDocument(path, document) returns true exactly when it could read the file as a document and never throws: a file whose content is a JSON text (any white space, escapes and spellings of numbers, of any length) gives true and the document is the value that the text denotes; a missing file, a directory, an empty or blank file, and a file that holds no beginning of a value or a value that never ends give false; libraries that read JSON and nothing more give false for every other text, too. A document object may be used again after a success or a failure, and then holds the new value only.",
 ["inputs","histories"],"every file content, every library, every sequence of files read into one document",
 "The tests read a fixed set of well-formed files that exist; no test reads a malformed one.",
 [I+"utils/"+x+"_utils.hpp" for x in ("rapidjson","nlohmann_json","picojson","boost_json","jsoncpp","poco_json","qtjson","qvariant","property_tree","yaml_cpp")]+[I+"utils/file_utils.hpp"],[("loadDocument",I+"utils/rapidjson_utils.hpp"),("loadDocument",I+"utils/nlohmann_json_utils.hpp"),("loadFile",I+"utils/file_utils.hpp")],["loadDocument result","the document"])
p("C26","The regular expression engine the user chose decides every pattern",
 "A ValidatorT<Engine> asks Engine, and nothing else, about every pattern and every name in patternProperties, wherever they stand (below propertyNames, combinators, references, nested values): the engine is made from exactly the text in the schema and searched with exactly the string or the member name, so loading and validating never depend on what another engine would say about the pattern, not even when it is malformed as ECMAScript. An exception of the engine leaves validate() as it is, a verdict that is returned never depends on a pattern the engine gave up on, and the validator goes on giving right answers for other schemas and documents afterwards. Formats do not involve the engine. Building with VALIJSON_USE_BOOST_REGEX gives the same verdicts as without it for patterns that mean the same in both.",
 ["inputs","configurations","histories"],"every schema with patterns, every document, every engine, every sequence of documents on one validator",
 "One test uses a custom engine, with one pattern; no test has an engine that throws or differs from std::regex; boost::regex is never built.",
 [I+"validator.hpp",I+"internal/regex.hpp",VV],[("ValidatorT, DefaultRegexEngine",I+"validator.hpp"),("visit(const PatternConstraint &)",VV),("ValidatePatternProperties",VV)],["Validator::validate result","exceptions of validate"])
open(__import__("os").path.join(__import__("os").path.dirname(__import__("os").path.dirname(__import__("os").path.abspath(__file__))),"properties.jsonl"),"w").write("".join(json.dumps(x)+"\n" for x in P))
print(len(P))
