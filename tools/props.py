# One source for properties.jsonl and MANIFEST.json (python3 tools/mk.py writes both).
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=(), technique="", level="exploration", note="", claimed=True, reason=""):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                  observe=list(observe), technique=technique, level=level, note=note, claimed=claimed, reason=reason))

prop("C01", "Validating a value against a type decides conformance exactly",
 "For every model and every value, validating the value against a type of the model succeeds exactly when the value conforms to the type: base type, integer width, inclusive numeric min/max, inclusive string (in bytes), array and map sizes, pattern, allowed values, enum symbols, UUID/Timestamp/UnitValue text forms, required and unknown struct fields, array items, map keys and values, and exactly one declared variant for unions, at any nesting depth and through named types. It never crashes, and never changes the model.",
 ["inputs", "programs"], "all models built from the base types with any constraints, all values (bool, string, decimal, list, map)",
 "test/types_test.go samples a few dozen hand written examples; the guarantee is over all types, constraints and values, in particular values on and next to every boundary and nested values.",
 ["model.go", "decimal.go", "uuid.go", "timestamp.go", "unitvalue.go"],
 [("Model.Validate / ValidateAgainstTypeSpec and the per-type Validate* functions", "model.go")],
 ["the error (or not) returned by Validate and ValidateAgainstTypeSpec"],
 technique="runtime monitor: differential reference-model oracle over generated models and boundary-perturbed values",
 note="Held on the generated models and values of the run; an independent reference validator (harness/ref) is trusted. String sizes on ASCII text.")

prop("C02", "Scalar types keep their value and reject malformed text",
 "For every Decimal, Timestamp, UUID and UnitValue: parsing accepts exactly the well-formed texts, formatting then parsing gives back the same value (full decimal precision, milliseconds in UTC for timestamps, four digit years), JSON encoding is valid JSON and decodes to the same value, comparison and arithmetic agree with exact arithmetic, and a malformed or infinite text is reported as an error, not as some other value and not as a crash. UUIDs derived from names follow RFC 4122 version 5 and generated ones are well formed and distinct.",
 ["inputs", "histories"], "all texts, all instants (years 0-9999), all decimals, in any process time zone",
 "the existing tests only check a few literals through the schema parser; round trips, precision and malformed input need the whole input space and several time zones.",
 ["decimal.go", "timestamp.go", "uuid.go", "unitvalue.go"],
 [("Parse*/String/MarshalJSON/UnmarshalJSON of the scalar types", "decimal.go, timestamp.go, uuid.go, unitvalue.go")],
 ["results of parse, format, JSON encode/decode, comparison"],
 technique="runtime monitor: round-trip and exact-arithmetic (big.Rat) oracles over generated and mutated texts",
 note="Held on the generated texts; decimals up to several dozen digits, time zones set through TZ.")

prop("C03", "Model names are unique and every name resolves to its own definition",
 "Building a model succeeds exactly when its type names (base types included) and its http action names are distinct; a duplicate anywhere is reported as an error. In the built model every type and action name finds exactly its own definition and any other name finds nothing, and the target of an example (a type, a field path into nested structs, or a field of an action's request or response) resolves to exactly the declared type or is reported as an error.",
 ["inputs", "programs"], "all schemas, all names and example targets",
 "the tests build a handful of well-formed schemas; duplicates at any position, base type shadowing and all field paths are not sampled.",
 ["model.go", "schema.go"], [("NewModel, FindType, FindHttp, FindExampleType", "model.go")],
 ["error and result of NewModel, FindType, FindHttp and FindExampleType"],
 technique="runtime monitor: name-table reference model over generated schemas with injected duplicates",
 note="Held on the generated schemas; the schema given is compared before and after.")

prop("C04", "Configuration data: lookups, typed accessors, defaults and files agree",
 "For every configuration document and key path, a Data lookup (Get, Has, GetString/Bool/Int/Int64/Decimal/Array/Map/Data, nested paths) returns exactly the value stored there, or nothing when any step of the path is missing, and never changes the document; generator options return the configured value if there is one of the right kind and the default otherwise; a document saved to a file and loaded again, from JSON or YAML in any style, is the same document, and a missing, malformed or unwritable file is reported as an error.",
 ["inputs", "fault_sequences"], "all nested documents, all key paths, JSON and YAML files, write failures",
 "no existing test touches Data or configuration files; the guarantee is over all paths including missing intermediate keys and values of another type.",
 ["data.go", "generator.go"], [("Data.Get*/Has/Put, DataFromFile, DataToFile, Generator.GetConfig*", "data.go, generator.go")],
 ["results of the accessors, the loaded documents, returned errors"],
 technique="runtime monitor: reference walk of the document, replayed against every accessor; save/load round trips with injected write faults",
 note="Held on the generated documents; numbers are exact in a float64.")

prop("C05", "Generated files are complete, confined, and never silently lost",
 "Writing generated output creates exactly the intended files with exactly the intended content under the output directory and touches nothing else; an existing file is left untouched unless overwriting was requested; and any failure to create or write one of the files (existing directory in the way, missing directory, full disk, size limit), at any point of a multi-file export, makes the export report an error, even if later files succeed. Text emitted through the generator arrives in order, unchanged.",
 ["inputs", "fault_sequences", "histories"], "all models and options of the Go and Java generators, each output file in turn failing in each way",
 "the tests never generate files; each fault point of each output file has to be hit, with the whole directory tree compared.",
 ["generator.go", "golang/export_golang.go", "java/export_java.go"],
 [("Generator.WriteFile/FileExists/Begin/End/Emit", "generator.go"), ("golang.Export, java.Export", "golang/, java/")],
 ["directory tree before and after, returned error"],
 technique="runtime monitor: directory-tree model checked after every operation, with real kernel faults injected at every output file",
 level="fault_enumeration", note="Every output file of the generated exports is failed in turn with EISDIR, ENOENT/ENOTDIR, ENOSPC, EFBIG; models and options are sampled.")

prop("C06", "Type equivalence and inline-enum refactoring preserve meaning",
 "Two types are reported equivalent exactly when they have the same structure and constraints compared by value (order of values, elements and variants aside), symmetrically and whether given inline or by name. Converting inline enums to named types leaves every struct field with the same accepted values, options and documentation, defines every new type once, reuses an equivalent existing type, reports a conflict with a different one as an error, and leaves no reference to an undefined type.",
 ["inputs", "programs"], "all pairs of types, all models with inline enum fields",
 "the tests convert one fixed model; equivalence needs all single-difference pairs.",
 ["model.go"], [("Model.EquivalentTypes, ConvertInlineEnums", "model.go")],
 ["equivalence verdicts, the converted model, validation verdicts before and after"],
 technique="runtime monitor: metamorphic oracle (single-difference mutants, permutations) plus validation verdicts before/after the refactoring",
 note="No verdict on reordered struct fields, comments, or mutually recursive array/map types.")

prop("C07", "Text helpers keep all text and comments stay comments",
 "Formatting a comment keeps every word in order, puts the comment prefix on every line (so no comment text can become code), breaks lines only at spaces and keeps lines within the width whenever the words fit; capitalization and name helpers change only the first letter; lookups in annotations and formatting of annotations and JSON text lose nothing, do not depend on map order, and never escape or alter characters of the text.",
 ["inputs"], "all comments, widths, prefixes, names, paths, annotations",
 "no existing test covers these helpers; text with markers, long words, newlines and unicode needs generated input.",
 ["misc.go", "generator.go", "struct_helpers.go"], [("FormatComment, Capitalize/Uncapitalize, BaseFileName, AnnotationsAsString, Pretty", "misc.go, struct_helpers.go")],
 ["the returned texts"],
 technique="runtime monitor: read-back oracle and direct specifications over generated text",
 note="Held on the generated texts.")

prop("C08", "The OpenAPI export describes exactly the model",
 "For every model whose types OpenAPI can hold, the exported OpenAPI 3 document contains exactly one schema per type and one operation per http action, with the same types, constraints (min/max, sizes, pattern, values, symbols, required fields), comments, methods, paths (base path included, query stripped), parameters with their place, name, requiredness and type, body, expected and exceptional responses with status, headers and types, tags, servers, license and examples; every reference in it resolves; the printed document is that document; the model is unchanged. What OpenAPI cannot hold (a Bytes, UnitValue or Any type definition, two actions for one method and path, two responses with one status, an undefined item type, an unknown method) is reported as an error, never dropped or a crash.",
 ["inputs", "programs"], "all models with an expected response per action and one exception per status",
 "the existing export tests only print two documents without checking them.",
 ["openapi/export_openapi.go", "openapi/model.go"], [("Generator.ExportToOAS3, Export", "openapi/export_openapi.go")],
 ["the returned and printed document, returned error"],
 technique="runtime monitor: node-by-node comparison with an independently computed document over generated models; refusal oracle",
 note="Held on the generated models; numeric limits within float64.")

prop("C09", "The OpenAPI import keeps the meaning of the document and never crashes",
 "For every OpenAPI 3 document (JSON or YAML), the imported model has exactly one type per component schema and one action per operation, with the types, formats, limits, sizes, patterns, enums, required properties, descriptions, references (aliases included), maps, unions, examples, parameters (path level ones included) with place, name, requiredness and type, bodies, responses, headers, statuses, tags, servers, license and version of the document; parameters, bodies, responses and headers that refer to shared components mean what they refer to. A construct SADL cannot hold (cookie parameters, references to nothing or in a circle, wildcard or inline exceptional responses, missing responses, unknown types, dangling or circular aliases, object parameters, names of base types) is reported as an error; no document, however damaged, crashes the import.",
 ["inputs", "programs"], "all OpenAPI 3 documents whose operations are named and whose items are references or scalars; all damaged documents for the no-crash part",
 "no existing test imports anything.",
 ["openapi/import_openapi.go", "openapi/model.go"], [("Load, Import, Model.ToSadl", "openapi/import_openapi.go")],
 ["the imported model, returned error"],
 technique="runtime monitor: documents generated together with the model they stand for, compared node by node; structural fault injection for refusal and totality",
 note="Held on the generated documents; inline constraints of array and map items are not kept by SADL.")

prop("C10", "OpenAPI round trip keeps types and actions",
 "Exporting a model to OpenAPI, saving it as JSON or YAML and importing the document gives a model in which every type accepts and rejects the same values, every action has the same name, method, path, parameters, responses, resource and tags, and comments, version, server, license and examples are kept, apart from what OpenAPI has no place for; a second round trip changes nothing.",
 ["inputs", "programs"], "all models over Bool, Int32, Int64, Float32, Float64, Decimal, String, Timestamp, Array, Map, Struct, Enum, Union, Any",
 "no test imports an exported document; losses show up only in particular combinations of type, constraint and place.",
 ["openapi/export_openapi.go", "openapi/import_openapi.go"], [("ExportToOAS3 followed by Import", "openapi/")],
 ["original and re-imported model, validation verdicts of both"],
 technique="runtime monitor: round-trip oracle (node by node, validation verdicts, fixpoint) over generated models",
 note="Held on the generated models; conversions forced by OpenAPI are listed in harness/c10.")

prop("C11", "The Swagger 2.0 import keeps the meaning of the document and never crashes",
 "For every Swagger 2.0 document (JSON or YAML), the imported model has exactly one type per definition and one action per operation, with the types, formats, limits, sizes, patterns, enums, required properties, descriptions, references, maps, parameters (path level ones included), body parameters, responses, headers, tags, host and base path, license and version of the document, whatever media types are declared at either level; parameters and responses that refer to shared definitions mean what they refer to. A document of another version, or with a construct SADL cannot hold (form parameters, references to nothing or in a circle), is reported as an error; no damaged document crashes the import.",
 ["inputs", "programs"], "all Swagger 2.0 documents whose operations are named and that use application/json; all damaged documents for the no-crash part",
 "no existing test imports anything.",
 ["openapi/import_swagger.go", "openapi/import_openapi.go"], [("LoadSwagger, ImportSwagger, toV3*", "openapi/import_swagger.go")],
 ["the imported model, returned error"],
 technique="runtime monitor: documents generated together with the model they stand for, compared node by node; structural fault injection",
 note="Held on the generated documents.")

prop("C12", "The GraphQL export describes exactly the types of the model",
 "For every model of structs, enums, unions of structs, lists and scalars, the exported text is valid GraphQL with exactly one type, enum or union definition per struct, enum and union, the same symbols, variants, fields and non-null marks in the same order, every named or inline list (also nested and recursive through structs) written as a list of non-null items, every named or base scalar as its GraphQL equivalent or the scalar the custom-scalars option maps it to, and one scalar definition per custom scalar used; every name it uses is defined; comments stay comments. Export prints exactly that text, exporting twice gives the same text, and the model is unchanged. What GraphQL cannot hold (a Map, Bytes, Any or UnitValue type, an inline struct, enum, union, map, bytes or any field, a list of those, a list containing itself, a union of anything but structs) is reported as an error and nothing is printed.",
 ["inputs", "programs", "configurations"], "all models and custom-scalar mappings",
 "no existing test exports GraphQL.",
 ["graphql/export_graphql.go"], [("FromSadl, Export, typeRef, scalarType", "graphql/export_graphql.go")],
 ["the returned and printed text, returned error"],
 technique="runtime monitor: output parsed by an independent GraphQL parser and compared definition by definition with an independently computed list; refusal oracle",
 note="Held on the generated models.")

prop("C13", "The GraphQL import keeps the meaning of the document and never crashes",
 "For every GraphQL type document (in any order of definitions), the imported model has exactly one type per object, enum and union with the same name, fields, types, lists, non-null marks, symbols, variants and descriptions, plus the ID string type; interfaces, inputs, arguments, directives, and the operation types named by a schema definition anywhere in the document add nothing; name and namespace come from the options. Lists of lists, unknown custom scalars, extensions, operations, duplicate type names, syntax errors, missing and several files are reported as an error; no document that the GraphQL parser reads crashes the import or leaves a field without a type; exporting an imported model and importing it again gives the same types.",
 ["inputs", "programs"], "all GraphQL documents whose objects do not refer to interfaces, inputs or operation types; all damaged documents for the no-crash part",
 "no existing test imports GraphQL.",
 ["graphql/import_graphql.go"], [("Import, gqlSchema, gqlStruct, gqlEnum, gqlUnion", "graphql/import_graphql.go")],
 ["the imported model, returned error"],
 technique="runtime monitor: documents generated together with the model they stand for, compared type by type; text fault injection; export and re-import",
 note="Held on the generated documents.")

prop("C14", "Generated Go model code compiles and its JSON is the model's",
 "For every model of the types the Go generator supports, the generated package compiles, is in the requested package and file, and declares exactly one Go type per model type and one request and response type per http action, with the field names, Go types, JSON names, omitempty and pointer marks, enum constants, exception methods and helper functions the model implies. Decoding a JSON value of a type with it and encoding it again gives the same JSON value, without losing digits of decimals, bytes, time or enum symbols (also as map keys); values of the wrong JSON type and unknown enum symbols are rejected; the FromString helpers parse exactly the valid texts. Generating twice gives the same files and leaves the model unchanged. A type the generator does not support (UnitValue without the runtime, an inline enum, struct or union) is reported as an error, and nothing is written.",
 ["inputs", "programs", "configurations"], "all models, package and service names, with and without the runtime",
 "the existing tests generate no code; the generated programs have to be compiled and run.",
 ["golang/export_golang.go", "golang/golang_model.go"], [("Export, EmitType and the emit functions", "golang/")],
 ["generated files, type-checked declarations, JSON the compiled packages read and write"],
 technique="runtime monitor: generated packages type-checked and their declarations compared with an independent specification; compiled packages executed and their JSON observed against a value oracle",
 note="Held on the generated models; names distinct in Go and not Go keywords.")

prop("C15", "A generated Go client and server carry every call as the model says",
 "For every service, the generated Go server, client and implementation interface compile, together or alone, with or without the runtime, and every call made with the client reaches the implementation exactly once with the same arguments, over a request with the method, path, query, headers and body the model gives; the result, each exception (with its status, type and content) and output headers come back the same; an unexpected error gives status 500 and an error at the client, and so does an exception declared without a status (the default one); whatever else a server answers (an undeclared status, a body that is not JSON, a dropped connection) gives an error at the client, never a result; calls made at the same time with one client and one server come out as each does alone. Absent query parameters take their defaults; a body that is not JSON gives status 400 without reaching the implementation; an unknown path gives 404. Path and query arguments may contain any character. A parameter type the generator does not support, and two responses of an action with the same status, are reported as errors.",
 ["inputs", "programs", "histories", "fault_sequences"], "all services, base URLs, arguments and replies",
 "the existing tests generate no code; faults need a particular combination of method, parameter place and type, reply kind.",
 ["golang/golang_server.go", "golang/golang_client.go", "golang/export_golang.go"], [("server and client generation", "golang/")],
 ["request given, request on the wire, request seen by the implementation, response on the wire, result"],
 technique="runtime monitor: generated programs executed over loopback HTTP with a recorder at five points of each exchange and a trace oracle computed from the model",
 note="Held on the generated services; a stand-in replaces gorilla/mux, which is not available offline.")

prop("C16", "Generated Java model code compiles and its JSON is the model's",
 "For every model of the types the Java generator supports and every combination of its options (immutable, instants, JSON helper, service exception, package, model package, source directory, header, maven project), the generated project consists of exactly the expected files, compiles, and declares one Java class or enum per struct, union, enum, UnitValue and http request, response and exception type, with the field names, Java types, builders, comments and validation annotations the model implies; the maven project file is well-formed, named after the model, and has complete dependencies. A value of a type written as JSON and read back is the same value, through setters, fluid copies and builders alike; unions keep their variant, enums and UnitValues their text, exceptions their message; malformed text is rejected. Generating twice gives the same files and leaves the model unchanged; what the generator does not support (a keyword as field name, an inline UnitValue or union, a collection containing itself) is reported as an error.",
 ["inputs", "programs", "configurations"], "all models and options of the Java generator (lombok aside)",
 "the existing tests generate no Java; the generated programs have to be compiled and run.",
 ["java/export_java.go", "java/java_model.go", "java/java_timestamp.go", "java/java_util.go", "java/java_pom.go"],
 [("Export, CreatePojo* and the emit functions", "java/")],
 ["generated files, reflected declarations and annotations, JSON the compiled classes read and write"],
 technique="runtime monitor: generated classes compiled and loaded in a JVM, their declarations reflected and compared with an independent specification, their JSON observed against a value oracle",
 note="Held on the generated models; a stand-in interprets the Jackson annotations, since the library is not available offline.")

prop("C17", "A generated Java client and server carry every call as the model says",
 "For every service, the generated Java server, client and service interface compile, together or separately, and every call made with the client reaches the implementation exactly once with the same arguments, over a request with the method, base path, path, query, headers and body the model gives; the result, its headers and each exception with its status and content come back the same; an undeclared error gives status 500 and an error at the client, and an exception declared without a status comes back from status 500. Absent parameters take their defaults; an unsupported default, and two responses with the same status, are reported as errors. The example implementation and launcher that are generated compile and answer every action.",
 ["inputs", "programs", "histories"], "all services, options, arguments and replies",
 "the existing tests generate no Java.",
 ["java/java_server.go", "java/java_client.go", "java/export_java.go"], [("server and client generation", "java/")],
 ["arguments given, request on the wire, arguments seen by the implementation, response on the wire, result"],
 technique="runtime monitor: generated programs executed in a JVM with a recorder at every point of the exchange and a trace oracle computed from the model",
 note="Held on the generated services; stand-ins interpret the JAX-RS and Jackson annotations.")

prop("C18", "The HTTP trace shows every example as the model says",
 "For every action and every request example for it, in the order of the examples, the printed trace contains one HTTP request with the method and path of the action, every path and query value of the example in place and escaped, absent query parameters, headers and bodies left out, the headers and the JSON body of the example; and, when a response or exception example has the same name, one HTTP response with the status of the action or exception (500 for an exception without one), the headers, the current date in GMT, and a JSON body of exactly the stated length (none for 204 and 304). Nothing else is printed, the trace does not depend on map order, values held as the parser or as the JSON loader leaves them print alike, and the model is unchanged. An example that is not an object is reported as an error, never a crash or exit.",
 ["inputs", "programs"], "all services and examples",
 "no existing test prints a trace.",
 ["httptrace/export_http_examples.go"], [("Export, generateHttpTrace", "httptrace/export_http_examples.go")],
 ["the printed text, returned error"],
 technique="runtime monitor: the printed trace is read back as HTTP messages by net/http and compared with the model and examples",
 note="Held on the generated services.")

prop("C19", "Every conversion is a function of its input alone",
 "For every model or document and every set of options, an export (OpenAPI, GraphQL, Go, Java, HTTP trace), an import (OpenAPI, Swagger, GraphQL), a validation, a lookup or an inline-enum conversion gives the same result (returned, printed or written) every time, in any process, whatever conversions of this or other models were executed before it; and apart from inline-enum conversion, which changes its own model, no conversion changes the model it is given.",
 ["histories", "inputs", "programs"], "all models, documents, options, and all histories of conversions in one process",
 "a unit test executes a conversion once in one order; state left behind by another conversion and map iteration order need histories and repetitions.",
 ["model.go", "generator.go", "openapi/export_openapi.go", "openapi/import_openapi.go", "openapi/import_swagger.go", "graphql/export_graphql.go", "graphql/import_graphql.go", "golang/export_golang.go", "java/export_java.go", "httptrace/export_http_examples.go"],
 [("package level variables and map iterations of the exporters and importers", "openapi/, graphql/, golang/, java/, httptrace/")],
 ["results of conversions in histories and alone in fresh processes, the models after each"],
 technique="runtime monitor: random histories of conversions, each result compared with that of a fresh process and the models compared after each step",
 note="Held on the generated histories (1-3 models or documents each, up to 45 conversions).")

prop("C20", "Conversions in several goroutines do not disturb each other",
 "For every set of goroutines that export, import, validate or look up, sharing models or not, there is no data race, every goroutine gets the result the conversion gives alone, and the shared models are unchanged.",
 ["schedules", "inputs", "programs"], "all models and documents, all interleavings of conversions",
 "no existing test is concurrent.",
 ["model.go", "generator.go", "openapi/export_openapi.go", "openapi/import_openapi.go", "openapi/import_swagger.go", "graphql/export_graphql.go", "graphql/import_graphql.go", "golang/export_golang.go", "java/export_java.go", "httptrace/export_http_examples.go"],
 [("examplesLock; everything else is per conversion", "openapi/import_openapi.go")],
 ["data races reported by the race detector, results of concurrent and sequential conversions, the models afterwards"],
 technique="sanitizer: Go race detector over barrier-started goroutines with random yields and processor counts; results compared with sequential execution",
 note="Held on the generated schedules; what exporters print is not compared under concurrency.")

prop("C21", "Parsing SADL source gives exactly the model that the source describes",
 "For every model of the language (types of every kind with their constraints, inline structs and enums, http actions, operations, examples, comments, annotations, options, defaults), and every layout of its source (spacing, blank lines, comments before or after, semicolons, one-line or multi-line bodies, option order, with or without a final newline, as a string, a file, or spread over included files), parsing the source gives exactly that model: nothing lost, nothing invented, nothing attached to something else.",
 ["inputs", "programs"], "all models of the language, all layouts of their source",
 "the parser tests check a few dozen fixed snippets for success or failure and rarely look at the resulting model.",
 ["parser.go", "model.go", "schema.go"], [("ParseSadlString, ParseSadlFile and the recursive descent parser", "parser.go")],
 ["the JSON of the parsed model"],
 technique="runtime monitor: independent source printer with random layouts, parsed model compared node by node with the intended one",
 note="The tokenizer module is not available offline; a stand-in with the same interface is used (shim/scanner). Quoted text outside literals has no escapes. Comments are compared by words.")

prop("C22", "Source that is not a valid model is rejected with an error",
 "For every source that is malformed (missing, doubled or changed brackets, truncated definitions, malformed statements, unknown directives) or inconsistent (undefined, doubled or misplaced types, fields, symbols, variants, actions, parameters or exceptions; constraints that do not apply to the type; defaults and examples that do not conform; bad methods, paths or bodies), wherever in the source that is, parsing reports an error and gives no model.",
 ["inputs", "programs"], "all valid sources with one defect of about 70 kinds of inconsistency and 110 malformed statements, at any place",
 "the tests contain about twenty bad snippets.",
 ["parser.go", "model.go"], [("the Validate* functions and the syntax errors of the parser", "parser.go")],
 ["the error returned by ParseSadlString"],
 technique="runtime monitor: valid generated sources with one injected defect; acceptance is the violation",
 note="Held on the injected defects; the unbroken source is checked to be accepted. Stand-in tokenizer.")

prop("C23", "Parsing any text ends with a model or an error, never a crash or a hang",
 "For every text given as source, and every state of the files it includes (missing, damaged, directories, including each other or themselves), parsing ends in bounded time and stack with either a model or an error with a message; an accepted model refers to nothing undefined and defines nothing twice; parsing the same text again gives the same result.",
 ["inputs", "fault_sequences"], "all texts, including damaged sources, token soup and deep nesting, and all arrangements of included files",
 "the tests only parse short well formed or slightly wrong snippets.",
 ["parser.go"], [("ParseSadlString, ParseSadlFile, include", "parser.go")],
 ["panics, CPU time, model and error, names used and defined in the model"],
 technique="runtime monitor: mutation workload under crash, CPU and closedness monitors",
 note="Held on the generated texts. Stand-in tokenizer.")

prop("C24", "A model written as SADL source and parsed again is the same model",
 "For every model that the language can express, however it was made (in code, parsed, loaded from JSON, imported from another format), the source written for it is valid and describes exactly that model, is the same every time, and writing it leaves the model as it was.",
 ["inputs", "programs"], "all models of the language and all imported models with names the language can express",
 "no existing test writes source.",
 ["unparser.go", "parser.go", "generator.go"], [("DecompileSadl, CreateSadlSource and the sadlXxxSpec functions", "unparser.go")],
 ["the source text, the model parsed from it, the model before and after"],
 technique="runtime monitor: write-parse round trip compared node by node",
 note="Held on the generated models. Stand-in tokenizer; names, patterns, values and annotations without quotes and backslashes; comments by words.")

prop("C25", "A model saved as JSON and loaded again is the same to every consumer",
 "For every model, saving it as JSON and loading the file gives a model with the same definitions (numbers to the last digit), the same verdict on every value, and the same output from every exporter (OpenAPI, GraphQL, Go, Java, HTTP trace, SADL source) as the parsed one; a file that is damaged, incomplete, followed by other data, of another kind, inconsistent, missing or not a file is refused with an error.",
 ["inputs", "programs", "fault_sequences"], "all models, all exporters and options, all damaged files",
 "no existing test loads a model from JSON.",
 ["parser.go", "model.go", "schema.go", "golang/golang_server.go", "java/java_server.go", "openapi/export_openapi.go", "httptrace/export_http_examples.go"],
 [("LoadModel, IsValidFile, JSON form of the schema types; handling of *string, string, *Decimal and float64 literals in the exporters", "parser.go, schema.go, golang/, java/, openapi/")],
 ["loaded models, verdicts, generated output, errors"],
 technique="runtime monitor: differential between the parsed, loaded and unmarshalled model through every consumer; damaged files",
 note="Held on the generated models; plain Unmarshal only where numbers are exact in a float64.")

prop("C26", "The Smithy export describes exactly the model",
 "For every model, the Smithy AST written for it defines one shape for each type and each inline definition, with its kind, members in order, required members, constraints (sizes, limits, patterns, symbols), comments, tags and sensitive, deprecated, unique and paginated annotations; one operation for each http action and each operation with method, path, status, header, query, label and payload bindings, its errors with their own status, and its examples; and one service with all of them. Every target names a defined shape, nothing is defined twice, the document is the same every time and after any earlier export, and the model is left as it was. A model Smithy cannot express (unit values, items of unspecified collections, colliding shape names, an exception with several statuses or that is not a struct) is reported as an error, never exported as something else and never a crash.",
 ["inputs", "programs", "histories"], "all models, options and export histories",
 "no existing test runs the Smithy export.",
 ["smithy/export_smithy.go"],
 [("Export, FromSADL and the shape builders", "smithy/")],
 ["the exported AST, the model before and after, errors"],
 technique="runtime monitor: independent derivation of the expected Smithy AST, compared shape by shape with the exported document; closedness and determinism monitors",
 note="Held on the generated models. The Smithy AST module is not available offline; a stand-in with the same interface is used (shim/smithy). Defaults and field-level tags are not compared.")

prop("C27", "The Smithy import keeps the meaning of the document",
 "For every Smithy model (one file, several files or a directory of files) of the features SADL can hold, importing gives a model with the same types, members in order, constraints, comments and annotations, one http action or operation for each operation with the same method, path, status, bindings and errors, the same examples, and the namespace, name, version and comment of the chosen service; every type it refers to is defined, the configuration is left as it was and nothing is printed. A document that is damaged, refers to undefined shapes, is inconsistent, has features SADL cannot hold, or does not have the chosen service is refused with an error, never a crash and never a model that means something else.",
 ["inputs", "programs", "fault_sequences"], "all Smithy models of the supported features, spread over files, and with one defect",
 "no existing test imports Smithy.",
 ["smithy/import_smithy.go"],
 [("Import, AssembleModel, ToSadl and the import*Shape functions", "smithy/import_smithy.go")],
 ["the imported model, errors, panics, standard output"],
 technique="runtime monitor: generated Smithy documents with the intended model, compared node by node with the imported one; injected defects",
 note="Held on the generated documents. Stand-in for the Smithy AST module (shim/smithy), including its IDL parser.")

prop("C28", "The command converts exactly what it was given and reports every failure",
 "For every input (one file, several files or a directory, of any supported format, restricted with -t or not), generator, -x options, configuration file (given with -c or found in the home directory) and -o, -f, -n, -ns, -s and -b options, the sadl command prints and writes exactly what the library conversion of that input under those options gives (-x options prevail over the entry of the generator in the configuration file), leaves other files alone and ends with status 0; if any given file, configuration, option or generator is missing, damaged or of no known kind, the input is of several kinds, the conversion is refused, or output cannot be written, it ends with a message and a non-zero status. It never crashes.",
 ["inputs", "programs", "fault_sequences"], "all command lines over all inputs, configurations and output faults",
 "no existing test runs the command.",
 ["cmd/sadl/main.go", "cmd/sadl/import.go", "cmd/sadl/export.go", "data.go"],
 [("main, ImportFiles, expandPaths, ExportFiles", "cmd/sadl/")],
 ["standard output, exit status, directory trees before and after"],
 technique="runtime monitor: differential between the compiled command and the library, with injected input, configuration and output faults",
 note="Held on the generated command lines. Stand-in tokenizer and Smithy library.")

prop("C29", "The documentation server answers every concurrent client correctly",
 "For every model and any number of concurrent clients, the swagger-ui generator serves at http://localhost:8080 the complete OpenAPI document of the model (as <name>.json), the index page rewritten to refer to that document, and every other page of the distribution unchanged, in whole or in the requested range, and answers not found for anything else; no request affects the answer of another, there are no data races, and the server stays up.",
 ["inputs", "schedules"], "all models, all requests, all interleavings of concurrent requests",
 "no existing test starts the server; interleavings of concurrent requests are not settled by a sequential test.",
 ["cmd/sadl/serve.go"], [("serveSwaggerUi", "cmd/sadl/serve.go")],
 ["every HTTP answer, race detector reports, server process"],
 technique="runtime monitor: race detector (ThreadSanitizer) on the serving process under concurrent clients, answers compared with export and archive",
 note="Held on the request interleavings of the run. The distribution archive is generated; nothing is downloaded.")

prop("C30", "Included files and extension statements are read exactly as written",
 "For every source spread over a tree of included files, with statements of registered language extensions between the definitions, parsing gives the model of all definitions in textual order, each included one annotated with x_include, the namespace, name, version, base and comment being those of the main file alone and every comment going to its own statement. Each extension is given each of its statements exactly once, in source order, also those in included files, and the public parser functions give it precisely what is written there (identifiers, strings, options, annotations, type specifications, blocks, comments); it validates once, with the whole model, and its result is found in the model. Unknown statements, failing or same-named extensions, missing, damaged or cyclic includes and types defined twice are refused with an error: never a crash, never a hang.",
 ["inputs", "programs"], "all sources, all divisions of them into files, all placements of extension statements",
 "no existing test includes a file or registers an extension.",
 ["parser.go", "model.go"],
 [("parseIncludeDirective, ParseNoValidate, registerExtension and the exported parser functions", "parser.go")],
 ["the parsed model, the calls to each extension with what the parser gave it, errors"],
 technique="runtime monitor: event log of three recording extensions and the parsed model compared with what the generator wrote; injected defects",
 note="Held on the generated sources. The tokenizer is the stand-in in shim/scanner.")

prop("C31", "An imported document converts to every other format",
 "For every OpenAPI, Swagger, GraphQL or Smithy document that imports, each generator, given the imported model as it is, either reports an error or produces output that is complete and valid: an OpenAPI document and a Smithy AST that describe exactly that model and in which every reference resolves; GraphQL that parses and defines exactly the types of the model; Go and Java that compile, also with the server, the client or both, the Go declaring exactly the types and operations of the model; an HTTP trace. No generator crashes, and none changes the model, so that the conversions come out the same in any order.",
 ["inputs", "programs"], "all documents of the four formats, all pairs of a source and a target format",
 "no existing test converts between two foreign formats; what breaks is a combination of what one importer leaves in the model and what one generator assumes about it.",
 ["openapi/import_openapi.go", "openapi/import_swagger.go", "graphql/import_graphql.go", "smithy/import_smithy.go", "openapi/export_openapi.go", "graphql/export_graphql.go", "smithy/export_smithy.go", "golang/export_golang.go", "java/export_java.go", "httptrace/export_http_examples.go"],
 [("Import functions", "openapi/import_openapi.go"), ("Export functions", "smithy/export_smithy.go"), ("Export", "golang/export_golang.go")],
 ["the imported model before and after each export, errors, the documents and programs that come out"],
 technique="runtime monitor: every pair of importer and generator executed on random documents; outputs parsed, type-checked or compiled by independent tools and compared with what the imported model says",
 note="Held on the generated documents, whose names are identifiers and distinct in Go.")

prop("C32", "Import, export and import again gives the same model",
 "For every OpenAPI, Swagger, GraphQL or Smithy document that imports, exporting the model to the same format (Swagger as OpenAPI 3) gives a document that imports again (GraphQL lists of lists and OpenAPI exceptions of a base type, which the importers refuse, excepted), and the second model is the first: the same types with the same fields in the same order, constraints, symbols and variants, the same actions with the same parameters, bodies, responses and exceptions, up to what the format has no place for. Likewise a SADL model taken through Smithy or GraphQL and back has the same structures, fields, required marks, base types, enum symbols and actions, and taken through once more does not change.",
 ["inputs"], "all documents of the four formats and all SADL models with constructs that Smithy or GraphQL can hold",
 "no existing test goes around the loop for Smithy or GraphQL at all; what breaks is a pair of an exporter and an importer that disagree about one construct.",
 ["openapi/import_openapi.go", "openapi/import_swagger.go", "graphql/import_graphql.go", "smithy/import_smithy.go", "openapi/export_openapi.go", "graphql/export_graphql.go", "smithy/export_smithy.go"],
 [("Import functions", "openapi/import_openapi.go"), ("Export", "smithy/export_smithy.go"), ("FromSadl", "graphql/export_graphql.go")],
 ["the model after the first import, the exported document, the model after the second import"],
 technique="runtime monitor: importers and exporters executed around the loop on random documents and models; the models before and after compared node by node",
 note="Held on the generated documents and models; what each format cannot keep is listed in the harness.")

