import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=observe
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["hook_needed"]=None
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
GP="inputs/gin/parseFunction.go"
p("C01","Every registered route that is not denied is documented exactly once",
"For every gin engine, the generated OpenAPI document has exactly one operation, under its method and templated path, for each registered route whose path no deny rule matches, and no other operation. A route matched by any one of the configured deny rules (exact path, regular expression or function) appears nowhere, and adding or removing other routes or rules does not change whether a route is present.",
["configurations","inputs"],"Every set of registered routes (methods x paths x handler kinds, groups and middleware included) and every combination and order of deny rules.",
"The tests register a handful of routes on one engine and one deny rule at a time; they do not combine methods, paths, handler kinds and rules.",
["inputs/gin/createRoutes.go","inputs/gin/createRoute.go","listing.go","routes.go","outputs/openapi/generate.go"],
[("CreateRoutes","inputs/gin/createRoutes.go"),("WithPathDenyList, WithPathDenyListRegex, WithPathDenyListFunc","listing.go"),("operations by method","outputs/openapi/generate.go")],["paths of the generated document"])
p("C02","Path templates and path parameters agree, segment by segment",
"For every registered path, the documented path has the same segments in the same order, each named segment written as a template with the same name and each static segment unchanged. The operation declares exactly one path parameter for each named segment of the template, of type string, required for a ':name' segment, and declares no other path parameter, also when a struct is bound on top of it.",
["inputs"],"Every path over an alphabet of static, named and catch-all segments (names with digits, dashes, dots, underscores and prefixes of each other) up to a length.",
"The tests look at four or five fixed paths.",
["utils/pathParams.go","inputs/gin/parseRoute.go","outputs/openapi/generate.go"],[("ExtractParamsFromPath, MapPathParams","utils/pathParams.go"),("path templating","outputs/openapi/generate.go")])
p("C03","Every response a handler sends is documented with its status, type and body",
"For every handler, the documented responses are exactly the (status code, content type, body schema) combinations that the context calls in its body can send: each gin response method contributes its status and content type, whatever the way the status and the value are written (literal, constant, variable, expression, call, other package) and wherever in the control flow the call is. Calls for different statuses or content types never hide, replace or merge with each other, and repeated calls do not duplicate.",
["programs"],"Every handler over an alphabet of response methods x forms of the status x forms of the value, and every ordered pair in every control-flow shape, within the bounds of DESIGN.md.",
"The tests parse a few sample handlers with literal or net/http statuses; combinations of forms, orders and shapes are not reached.",
[GP,"contextFuncBuilder.go","astTraversal/expression.go","astTraversal/extractStatusCode.go","safePushing.go","outputs/openapi/generate.go"],
[("context method table",GP),("StatusCode, ExpressionResult, Value","contextFuncBuilder.go"),("AddReturnType","safePushing.go"),("Value, Type","astTraversal/expression.go")])
p("C04","Every request input a handler reads is documented in its place",
"For every handler, the documented query parameters, request headers, form fields, files, request bodies and response headers are exactly those that the context calls in its body read or set, each once, in the right place, with the right name, shape (single, array or map) and type. Inputs bound to a struct appear with the keys of the struct's tags for that place, and every input is still there when several calls read from the same place.",
["programs"],"Every handler over an alphabet of input methods x forms of the name or bound value, and every ordered pair (and selected triples), within the bounds of DESIGN.md.",
"The tests use one input method per handler with literal names.",
[GP,"outputs/openapi/generate.go","outputs/openapi/schema.go","bindingTags.go"],[("context method table",GP),("parameters and request bodies","outputs/openapi/generate.go"),("mapParamToSchema, boundProperties","outputs/openapi/schema.go")])
p("C05","Splitting a handler into functions does not change what is documented",
"A handler that passes its context to other functions, directly or through any number of levels, in the same file, another file or another package, under any parameter name and position, is documented exactly like the handler with those bodies written in place. Recursive and shared helpers contribute once, and statements after a call are documented as if the call had not been there.",
["programs"],"Every way to distribute a fixed set of statements over call trees up to a depth, over files and packages, with every parameter position and name, including recursion.",
"The tests follow one or two helper functions; the distribution, the packages and what comes after the call are not varied.",
[GP,"astTraversal/traverser.go","astTraversal/callExpression.go","astTraversal/function.go","astTraversal/packageNode.go"],[("following context arguments",GP),("FindDeclarationForNode","astTraversal/traverser.go"),("FindArgumentNameByType","astTraversal/function.go")],None,[("active file","the file in which names are resolved","astTraversal/traverser.go")])
p("C06","Go types and their schemas have the same shape under every binding",
"The schema documented for a Go type has exactly the keys that the place it is used in gives to the type's exported fields: the name in the field's tag for that place (JSON, XML, YAML, form or header), or the field's name when the field has no tags; a field hidden for that place is absent, and a key of one format never appears in another one. Each field has the schema of its own type: scalars by the documented table, pointers like what they point to, slices, arrays, maps, named types and structs by structure, and embedded structs are promoted unless a tag names them.",
["inputs","programs"],"Every type expression up to a depth over scalars, containers and named types, every combination of tags per field over an alphabet, and every embedding shape up to a depth, under JSON, XML, YAML, form and header bindings.",
"The tests check some fixed structs; combinations of tags, containers and embedding under the different bindings are not reached.",
["astTraversal/type.go","astTraversal/tags.go","utils.go","bindingTags.go","outputs/openapi/components.go","outputs/openapi/schema.go","types.go"],
[("Result","astTraversal/type.go"),("ParseStructTag","astTraversal/tags.go"),("componentToSchema","outputs/openapi/components.go"),("mapFieldToSchema","outputs/openapi/schema.go")])
p("C07","Enumerations and documentation comments are carried over faithfully",
"The schema of a named basic type (string, integer or floating-point) lists exactly the values of the constants that its own package declares at package level with that type's name by literals (a number may have a sign), with their Go values, and no others; other types have no enumeration. The documentation comment of a type describes its schema and that of a handler describes its operation, and neither appears anywhere else.",
["programs"],"Every basic kind x every combination of declaration forms (grouped or single, several names, several types in a block, other files, same name in another package) up to a number of constants, and every placement of comments.",
"The tests have one string and one int enumeration in a single file.",
["astTraversal/type.go","astTraversal/packageNode.go","astTraversal/docs.go","outputs/openapi/components.go","outputs/openapi/generate.go"],
[("enum values","astTraversal/type.go"),("FindDocForType","astTraversal/packageNode.go"),("descriptions","outputs/openapi/generate.go")])
p("C08","References resolve, and distinct types have distinct components",
"Every $ref in a generated document resolves to a component of the same document, and it is the component of the type that is meant: types of different packages never share a component, whatever their names and package paths are, and whatever order they are found in. No component is overwritten by another one.",
["inputs","configurations"],"Every set of components over an alphabet of names, nested and overlapping package paths and binding tags, in every order, up to a number of components.",
"The tests check two or three fixed pairs of package paths.",
["outputs/openapi/components.go","outputs/openapi/schema.go","outputs/openapi/generate.go","safePushing.go"],
[("makeCollisionSafeNamesFromComponents, separateCollisionSafeNames","outputs/openapi/components.go"),("makeComponentRef","outputs/openapi/components.go"),("AddComponent","safePushing.go")],None,
[("collisionSafeNames","component names of the current generation","outputs/openapi/components.go")])
p("C09","Each operation describes its own handler and nothing of another one",
"What is documented for a route depends only on its own handler: operation ID, description, parameters, bodies and responses are those of the function registered for it, also when handlers share a file, a name in different packages or files, a path with another method, a helper or a type, or are function literals. Reordering, adding or removing other routes does not change an operation.",
["programs","configurations"],"Every ordered selection of handlers out of an alphabet (same name in other packages, literals, closures, shared helpers and types) on every assignment of methods and paths up to a number of routes.",
"The tests never compare a route documented alone with the same route documented among others.",
["inputs/gin/parseRoute.go","routes.go","inputs/gin/parseRoutes.go","utils/splitHandlerPath.go","outputs/openapi/generate.go"],
[("handler lookup by package, file, name and line","inputs/gin/parseRoute.go"),("ReplaceRoute","routes.go"),("SplitHandlerPath","utils/splitHandlerPath.go")])
p("C10","The same program always gives byte-identical output",
"Generating twice from the same program and options gives byte-for-byte the same output files, whatever order the runtime iterates over maps in. This holds for the OpenAPI (JSON and YAML), JSON and Azure Functions outputs.",
["schedules","configurations"],"Every choice of the starting point of every map iteration that the generation makes (all alike, every single one, and pairs of them), for handlers, component lists and services that exercise every map.",
"A test sees one random iteration order per run and compares nothing across orders.",
["outputs/openapi/generate.go","outputs/openapi/components.go","outputs/openapi/schema.go","bindingTags.go","outputs/json/generate.go"],
[("sorted parameters","outputs/openapi/generate.go"),("sorted field names","outputs/openapi/components.go"),("orderBindingTags, separateCollisionSafeNames","outputs/openapi/components.go")])
p("C11","Services in one process do not influence each other",
"The output of a service depends on its own routes and options only: it is the same whether it is generated first, after, between or interleaved with phases of any other services in the same process, and whether its generation is repeated. Options, type mappings, deny rules, custom functions and component names of one service never appear in another one.",
["histories"],"Every interleaving of the phases (create, parse, clean, generate) of two services, and every sequence of services up to a length, over an alphabet of services with conflicting types, packages and options.",
"The tests generate one service per process state and compare with nothing.",
["service.go","new.go","outputs/openapi/components.go","astTraversal/loadPackage.go","types.go","bindingTags.go"],
[("per-service state","service.go"),("clearing of collisionSafeNames","outputs/openapi/components.go"),("GetTypeMapping","types.go")],None,
[("collisionSafeNames","names of the components, shared in the process","outputs/openapi/components.go"),("cachedPackages","loaded packages, shared in the process","astTraversal/loadPackage.go")])
p("C12","A cached service is restored without loss",
"Storing a service in a cache file and loading it into another one preserves every part of it that the outputs depend on: configuration, inputs and outputs with their settings, routes with all their fields, components and custom type mappings, in JSON and in YAML. Generating from the restored service gives the same output as from the original one, at whatever phase it was stored.",
["inputs","histories"],"Every service state over an alphabet of values for every field of the persisted types (each field alone, and every pair), in both formats, stored after every phase.",
"The tests store one service with few fields set and look at some of them.",
["cache.go","cache/cache.go","types.go","input.go","output.go","service.go"],[("Cache, LoadCacheFromCustomPath","cache.go"),("field tags","types.go")])
p("C13","Generating in two steps with the CLI equals generating in one",
"Setting up in the program and completing with 'astra generate' gives the same output files as completing in the program itself, for every supported combination and number of outputs and configurations, with the default or a given cache location and directory. A cache that is missing, damaged or has an unknown mode or missing setting makes the command fail with a non-zero status and writes no output.",
["configurations","histories"],"Every combination and order of outputs, cache location (default, JSON, YAML), options and working directory over an alphabet, and every single damage of a cache over an alphabet.",
"There is no test of the CLI at all.",
["cli/astra/cmd/generate.go","cli/astra/cmd/rebind.go","cache.go","parse.go","cli/cli.go"],[("generateCmd","cli/astra/cmd/generate.go"),("rebindOptions","cli/astra/cmd/rebind.go"),("SetupParse, CompleteParse","parse.go")])
p("C14","A crash at any point leaves nothing that spoils a later run",
"Whenever the process is stopped during a generation, at any file operation and also in the middle of a write, a later complete run in the same directory succeeds and produces exactly the output of an undisturbed run, with nothing else left behind. A cache that exists after the crash is either complete or reported as unusable, never silently partial, and source files are intact.",
["crash_points"],"Every file-system operation of a generation (and every prefix class of every write), for every output kind and cache mode, each followed by a complete run.",
"The tests never interrupt a run.",
["cache.go","dir.go","mainPackage.go","setup.go","teardown.go","outputs/azureFunctions/generate.go"],[("Cache writes and renames","cache.go"),("SetupTempOutputDir, MoveTempOutputDir","dir.go"),("setupTempMainPackage","mainPackage.go")])
p("C15","A file operation that fails is reported or does not matter",
"When any single file-system operation of a generation fails, the generation either returns an error or has produced the complete and correct output. It never panics, and a failed generation can be repeated successfully once the cause has gone.",
["fault_sequences"],"Every file-system operation of a generation x an alphabet of errors (no space, no permission, input/output error, short write), for every output kind and cache mode.",
"The tests never make a file operation fail.",
["setup.go","cache.go","dir.go","mainPackage.go","generate.go","outputs/openapi/generate.go","outputs/json/generate.go","outputs/azureFunctions/generate.go"],[("error returns of every phase","parse.go"),("output writers","outputs/openapi/generate.go")])
p("C16","A run leaves only what was asked for in the workspace",
"A successful generation changes nothing in the working directory but the requested outputs and, when caching or the CLI is used, the tool's own ignored directory; without caching that directory is gone, and the copy of the main package is gone in every case. Existing files, including the sources and earlier content of the output, are otherwise unchanged.",
["configurations","histories"],"Every combination of outputs, cache mode, CLI mode, pre-existing files and repeated runs over an alphabet.",
"The tests look for single files and do not compare the whole tree.",
["setup.go","teardown.go","dir.go","mainPackage.go","cache.go"],[("Setup","setup.go"),("Teardown","teardown.go"),("MoveTempOutputDir","dir.go")])
p("C17","The output formats are different writings of the same content",
"The YAML and JSON forms of an OpenAPI document have the same content, the file name decides which form is written (and gets an extension when it has none), and the JSON output holds every route and component without loss. Generating several outputs at once gives each the content it has alone, in any order.",
["configurations","inputs"],"Every combination, order and file name of outputs over an alphabet, for a set of services that uses every part of the document, and every string of an alphabet of YAML- and JSON-sensitive texts in every text position.",
"The tests check one document in one format.",
["outputs/openapi/generate.go","outputs/openapi/types.go","outputs/json/generate.go","outputs/outputs.go","types.go"],[("marshalling and extension rule","outputs/openapi/generate.go"),("field tags","outputs/openapi/types.go"),("JSON output","outputs/json/generate.go")])
p("C18","Responses, components and routes accumulate as sets",
"Adding responses or components, one at a time or together, in any order and any number of times, keeps the first of each identity, keeps the order of first addition and loses nothing. Identity is status, content type, type and package for a response, and name and package for a component; replacing a route changes the route with its path and method and no other.",
["histories"],"Every sequence of additions (in every grouping) up to a length over an alphabet of items that differ in each single part of the identity and in parts that do not belong to it, and every sequence of route additions and replacements.",
"The tests have four fixed sequences of at most two items.",
["safePushing.go","routes.go"],[("AddReturnType, AddComponent","safePushing.go"),("AddRoute, ReplaceRoute","routes.go")])
p("C19","The package tree is consistent under concurrent use",
"When packages are looked up and added from any number of goroutines, every path has one node: all callers get the same node for the same path, a path that was added is found by every later lookup, and no other path changes. There is no data race and no deadlock in any schedule.",
["schedules"],"Every interleaving of two and three goroutines with up to a few operations each over an alphabet of overlapping paths, at the granularity of every shared access.",
"The tests use one goroutine, or one uncontrolled schedule.",
["astTraversal/packageManager.go","astTraversal/packageNode.go"],[("AddPackage, Find, FindOrAdd under the mutex","astTraversal/packageManager.go")],None,[("tree","package path tree","astTraversal/packageManager.go"),("mu","guards the tree","astTraversal/packageManager.go")])
p("C20","Code that cannot be understood never brings the generation down",
"For every handler that compiles, the generation ends without a panic and without running forever, whatever statements, types, generics, recursion or calls it has, and the other routes of the service are documented as if that handler were not there. A type or call that is not supported affects at most its own documentation.",
["programs"],"Every handler over an alphabet of unusual statements, expressions, types and call forms, in every position (status, name, bound value, body, helper argument), alone and before and after understood calls, next to understood routes.",
"The tests only parse code that is supported.",
[GP,"inputs/gin/parseRoute.go","astTraversal/expression.go","astTraversal/type.go","astTraversal/traverser.go","astTraversal/declaration.go"],[("error handling of handlers","inputs/gin/parseRoute.go"),("type recursion","astTraversal/type.go"),("recursion of functions",GP)])
p("C21","The configuration appears in the document as it was given",
"Title, description, version, contact, licence and the server address of a generated document are those of the configuration, with the documented defaults for what was left out, for any order of setting them. Building a configuration without a port is refused, and a configuration that was built does not change when more is set on its builder. Generating without an input or an output returns an error and writes nothing, and an OpenAPI document without a configuration is refused and not written.",
["configurations"],"Every configuration over an alphabet of values (including empty ones) per field, built by literal and by every order of builder calls.",
"The tests set each field once and do not look at the generated document.",
["config.go","configBuilder.go","outputs/openapi/generate.go","parse.go"],[("Validate","config.go"),("ConfigBuilder","configBuilder.go"),("info and servers","outputs/openapi/generate.go")])
p("C22","Custom functions add to a route without losing anything",
"A custom function that recognises a call contributes what it returns to the route in which the call is made, at every level of helper functions, and a custom function that returns nothing or does not recognise the call changes nothing. The first one that recognises a call decides, the built-in rules apply to all other calls, and what was documented before and after the call is kept.",
["programs","configurations"],"Every sequence of custom and built-in calls up to a length, in the handler and in helpers, under every list of custom functions (recognising, ignoring, replacing the route, changing it in place) up to a length.",
"The tests use one custom function with one call.",
["contextFuncBuilder.go",GP],[("WithCustomFunc, ContextFuncBuilder","contextFuncBuilder.go"),("custom function loop",GP)])
p("C23","Type mappings apply exactly to the types they name",
"A type declared in a package that has a custom mapping is documented with that type and format wherever it is used, and a custom mapping takes precedence over a predefined one; types without a mapping, and types of the same name in other packages, are not affected. The built-in mappings (time.Time, time.Duration, UUID) hold in every position, and mappings given one by one or together are equivalent, the last one for a type deciding.",
["configurations","programs"],"Every combination and order of mapping options over an alphabet of types and formats x every position in which a type can be used.",
"The tests map one type in one position.",
["types.go","formatTypes.go","substituteTypes.go","outputs/openapi/components.go","clean.go"],[("GetTypeMapping, WithCustomTypeMapping","formatTypes.go"),("HandleSubstituteTypes","substituteTypes.go"),("componentToSchema","outputs/openapi/components.go")])
p("C24","Azure Functions output has one faithful binding per route",
"The Azure Functions output has, for every route, exactly one directory with one binding file whose trigger has the route's method and path, with each path parameter written with its name, type constraint and optionality. Routes whose handlers share a name all keep theirs, earlier content of the output directory is replaced as a whole, and no other file is written.",
["inputs","configurations"],"Every list of routes up to a length over an alphabet of handler names (equal, numbered, nested, literals), methods and paths, onto every earlier state of the output directory.",
"The tests generate two or three routes with different names.",
["outputs/azureFunctions/generate.go","outputs/azureFunctions/convertRoute.go","outputs/azureFunctions/associatedMethods.go","dir.go"],[("function names and bindings","outputs/azureFunctions/generate.go"),("convertRoute","outputs/azureFunctions/convertRoute.go"),("SetupTempOutputDir, MoveTempOutputDir","dir.go")])
p("C25","The package main is documented like any other package",
"Handlers, types, helpers and constants of the package main are documented exactly as they would be in any other package, whatever files the package consists of (tests, excluded files, any legal form of the package clause), however the go.mod file is written and wherever in the module the package is. Its components are named after the package main, the copy that is made of it is never mentioned in an output, and the sources are as before afterwards.",
["programs","configurations"],"Every handler program of the bounds of the properties on responses, inputs, helpers, types and enumerations, put in the package main, and every layout of a module over an alphabet of files, package clauses, go.mod forms and directories.",
"The tests have one main package in one file and check that it has been copied.",
["mainPackage.go","inputs/gin/parseRoute.go","clean.go","teardown.go"],[("setupTempMainPackage, GetMainPackageName","mainPackage.go"),("path loader of main","inputs/gin/parseRoute.go"),("cleanField","clean.go")])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
