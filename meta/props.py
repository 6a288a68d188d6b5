"""Single source of /verif/properties.jsonl and /verif/MANIFEST.json (written by meta/make.py)."""
P = []


def prop(id, title, statement, over, text, why, files, mechanism, technique=None, note="", observe=None, state=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mechanism=mechanism,
                  technique=technique, note=note, observe=observe or [], state=state or [], na=na))


VAL = "src/Validation.cpp"
VTEST = "The validation tests try a few dozen hand-written documents against one sample schema; the rule has to hold for every document and every schema."
DT = ("path-sensitive interprocedural dataflow over the clang AST: the decision table of every validator function is enumerated "
      "(tracked conditions x ordered effects) and each row is checked against the rule")

prop("C02", "Validating a document does not depend on what was validated before",
     "Every validation is independent: nothing learned from one document (fragments, operations, references, errors) influences the verdict on a later one, "
     "and nothing learned from one operation or fragment definition (variables, referenced variables, enclosing type, response names, nesting) influences the verdict on the next definition. "
     "Only facts about the schema may be kept between validations.",
     ["histories", "inputs"], "every sequence of documents validated by one service object, and every sequence of definitions inside one document, on every path out of each of them",
     "Tests validate documents one after the other but never compare a verdict with that of a fresh service; which state survives depends on the path that left the previous document.",
     [VAL, "include/Validation.h"],
     [("reset of per-document state when the errors are taken", VAL + ": ValidateExecutableVisitor::getStructuredErrors"), ("reset of per-operation state on each way out", VAL + ": visitOperationDefinition, visitFragmentDefinition")],
     technique="effect analysis of every member of the validator: may-change sets closed over the call graph, must-reset on every exit path, key-origin analysis of what is kept",
     note="Unknown state added later is judged by the same rule; state kept between documents must be keyed by schema names or constants.")
prop("C14", "Validation accepts operations only if names and operation types allow it",
     "Validation reports an error for every document that repeats an operation name, that has an anonymous operation next to another operation, that uses an operation type the schema does not have, "
     "that contains a definition which is not executable, or whose subscription operation has more than one root field. It reports none of these errors otherwise.",
     ["inputs"], "every document and schema", VTEST, [VAL],
     [("operation collection and dispatch", VAL + ": ValidateExecutableVisitor::visit"), ("operation rules", VAL + ": visitOperationDefinition")], technique=DT)
prop("C15", "Validation enforces the fragment rules",
     "Validation reports an error for every repeated fragment name, undefined fragment spread, unused fragment, fragment on an undefined or non-composite type, "
     "spread whose type can never match its enclosing type, and cycle of fragment spreads; the content of fragments is validated wherever they are spread, and terminates on cyclic fragments.",
     ["inputs"], "every document and schema, including arbitrarily long spread chains", VTEST, [VAL],
     [("fragment definitions", VAL + ": visit, visitFragmentDefinition"), ("spreads and inline fragments", VAL + ": visitFragmentSpread, visitInlineFragment, matchesScopedType")], technique=DT)
prop("C16", "Validation enforces the variable rules",
     "Validation reports an error for every operation that declares a variable twice, declares one with a type that is unknown or not an input type, gives one a default value its type does not accept, "
     "leaves one unused, uses an undeclared one, or uses one in a position whose type is stricter than the declared type (nullability, list depth and named type, with a non-null default value lifting the nullability).",
     ["inputs"], "every document and schema, every nesting of list and non-null wrappers", VTEST, [VAL],
     [("variable definitions", VAL + ": visitOperationDefinition, ValidateVariableTypeVisitor"), ("variable usage", VAL + ": validateInputValue, validateVariableType")], technique=DT)
prop("C17", "Validation type-checks every argument and input value",
     "Validation reports an error for every argument a field or directive does not define, every repeated argument, every missing or null required argument without default, and every literal that its input type does not accept, "
     "at any depth of lists and input objects (unknown, repeated and missing input fields, enum values, scalars, nulls). Well-typed values produce no error.",
     ["inputs"], "every literal of any depth in any argument, default value or directive argument of any document, for every schema", VTEST, [VAL],
     [("literal conversion", VAL + ": ValidateArgumentValueVisitor"), ("type matching", VAL + ": validateInputValue"), ("argument rules", VAL + ": visitField, visitDirectives")], technique=DT)
prop("C18", "Validation enforces the directive rules at every location",
     "Directives are validated on every operation, field, fragment spread, inline fragment and fragment definition that carries them: validation reports an error for a directive the schema does not define, "
     "one used at a location it is not declared for, and one repeated at the same location.",
     ["inputs"], "every document and schema, every directive location", VTEST, [VAL],
     [("directive rules", VAL + ": visitDirectives"), ("callers per location", VAL + ": visitField, visitFragmentSpread, visitInlineFragment, visitFragmentDefinition, visitOperationDefinition")], technique=DT)
prop("C19", "Validation accepts fields only if defined, selected rightly and mergeable",
     "Validation reports an error for every selected field the enclosing type does not have, for every selection on a leaf field and every composite field without one, and for fields of one selection that share a response name but differ in type, name or arguments "
     "(unless they belong to different object types). Introspection fields are only known on the root query type of schemas that support introspection, and the type name field on every composite type.",
     ["inputs"], "every selection of any depth in any document, for every schema", VTEST, [VAL],
     [("field rules", VAL + ": visitField, getScopedTypeFields"), ("merging", VAL + ": ValidateField::operator== and the argument value comparisons")], technique=DT)

GS, GSH = "src/GraphQLService.cpp", "include/graphqlservice/GraphQLService.h"
ET = ("path-sensitive interprocedural dataflow over the clang AST: decision tables (tracked conditions x ordered effects, exceptional paths and deferred closures included) "
      "of the executing functions and of instantiations of the templates, judged row by row; plus call-graph queries on who may call")
prop("C01", "Only documents the validator accepted are executed or subscribed to",
     "Resolving, finding an operation and subscribing all validate the document first; a document with validation errors is never executed and nothing is registered for it, and the errors of the validation are what the caller gets "
     "(in the response document when resolving, as a schema exception otherwise). A document counts as validated only if the validator found no error in it; the deprecated overloads for a bare syntax tree are the only exception.",
     ["inputs", "histories"], "every document, valid or not, through every public entry point and overload, whatever was requested before",
     "Tests show that a few invalid documents are refused by one overload; that no path of any entry point reaches the execution without a verdict is a statement about all paths.",
     [GS, "include/graphqlservice/GraphQLParse.h"], [("entry points", GS + ": Request::resolve, Request::subscribe, Request::findOperationDefinition"), ("verdict", GS + ": Request::validate")], technique=ET)
prop("C03", "@skip and @include decide whether a selection is executed",
     "A field, fragment spread or inline fragment is left out exactly if it carries @skip(if: true) or @include(if: false), whichever other directives it carries; a selection that is left out is not resolved, contributes nothing to the response and does not hide another selection. "
     "A directive without a Boolean condition is an error. The same holds when the selection of a subscription is searched.",
     ["inputs"], "every combination of the two directives and their values, on every kind of selection, at any depth",
     "Tests try a handful of combinations on fields; the rule covers all combinations on all three kinds of selections in two visitors.",
     [GS], [("verdict", GS + ": DirectiveVisitor::shouldSkip"), ("selections", GS + ": SelectionVisitor, SubscriptionDefinitionVisitor")], technique=ET)
prop("C04", "A failing field does not take its siblings down",
     "Every selected field becomes exactly one entry of its object, under its response name: its value, or null together with its errors, whatever its resolver or its future does. Likewise every element of a list is one element of the result, null where it failed. "
     "Every selection is visited, in the order of the document, fragments apply to the types they name only, and no exception of a resolver leaves the execution.",
     ["inputs", "fault_sequences", "schedules"], "every resolver, at every point where it or its future may throw, at any depth of objects and lists, now or later",
     "Tests let a few resolvers throw; the rule covers each throwing point of each collector, synchronous or deferred.",
     [GS, GSH], [("fields", GS + ": SelectionVisitor::visitField"), ("collectors", GS + ": Object::resolve; " + GSH + ": ModifiedResult::convert, ModifiedResult::resolve")], technique=ET)
prop("C05", "The selected operation is executed with its own root, context and launch policy",
     "The operation of the requested name is executed, or the first one if no name was given, and an operation without a type is a query. Mutations run serially in the context of mutations, queries under the requested launch policy in the context of queries, "
     "and subscriptions are only accepted by subscribe, which accepts nothing else. Each operation is resolved against the root object of its type, with its own variables, fragments, directives and the caller's state, and the hooks of an object are called once before and once after its fields.",
     ["inputs", "histories"], "every document with any number and order of operations, through every entry point and launch policy",
     "Tests use documents with one or two operations; the selection and the parameters are decided here on every path.",
     [GS], [("operation lookup", GS + ": findOperationDefinition"), ("execution", GS + ": Request::resolve, OperationDefinitionVisitor::visit, Object::resolve")], technique=ET)
prop("C06", "A response has its data once, and errors iff any, each with message and location",
     "The response document holds the data of the operation exactly once and an errors list exactly if there are errors; every error has its message, its line and column when known, and the path of response names and list indexes of the field it belongs to. "
     "Errors raised while a field is resolved get the location and path of that field unless they bring their own. An error that stops an operation is reported in the document, not thrown.",
     ["inputs", "fault_sequences"], "every error raised at any point of the execution, at any depth, with or without location and path of its own",
     "Tests compare a few error documents; location and path have to be right wherever an error is raised, collected or converted.",
     [GS, GSH], [("documents", GS + ": buildErrorValues, Request::resolve, Request::deliver, Request::subscribe"), ("locations and paths", GS + ": SelectionVisitor::visitField, buildErrorPath; " + GSH + ": ModifiedResult")], technique=ET)
prop("C07", "A subscription is registered from subscribe to unsubscribe, under its own key",
     "Every successful subscribe registers exactly one subscription - the field it selects (also inside of fragments that apply), that field's arguments and directives, its state, variables, fragments and callback - under a key no existing subscription has, and returns that key. "
     "Unsubscribing removes exactly the subscription of the key and leaves all others; a key that is not registered changes nothing. A subscribe that fails, even when the Subscription object is notified afterwards, leaves nothing registered and reports the original error.",
     ["histories", "fault_sequences"], "every sequence of subscribe and unsubscribe calls, synchronous or not, with failures at any point",
     "Tests subscribe once or twice and unsubscribe in one order; keys, listeners and subscriptions have to stay in step over every history.",
     [GS], [("registry", GS + ": Request::subscribe, Request::unsubscribe"), ("registration", GS + ": SubscriptionDefinitionVisitor")],
     technique=ET, state=[("_subscriptions, _listeners, _nextKey", "registered subscriptions, keys per field, next key to give", GSH + ": Request")])
prop("C08", "An event reaches exactly the matching subscriptions of its field, each once",
     "Delivering an event calls the callback of every subscription of that field exactly once if all its arguments and all its directives match what the event says about them, and no other callback; a subscription whose fields fail gets a response with errors. "
     "Every overload means the same: values are compared for equality, filters are asked about every entry, what an overload does not mention always matches, and the object given for the event is resolved or else the default one. "
     "Deliver returns after all callbacks have returned; without subscription support or without any object it fails.",
     ["histories", "inputs"], "every set of registered subscriptions and every event, through all ten overloads",
     "Tests deliver events to one or two subscriptions of a sample; the matching has to be right for every set of subscriptions, arguments and directives.",
     [GS], [("delivery", GS + ": Request::deliver (all overloads)")], technique=ET)
prop("C09", "Work done later or on other threads never uses what is already gone",
     "Whatever is resolved later or on another thread - deferred fields, asynchronous fields and subscriptions, results which are not ready when a resolver returns - only uses data which is kept alive until it is done: "
     "the document, the fragments, the variables, the directives of the operation and of the enclosing fragments, the state and the objects. "
     "The caller may drop its request state and objects, and unsubscribe, as soon as the call returns; what a field was given to look at stays valid until the field has its result.",
     ["schedules", "inputs"], "every launch policy, every resolver that finishes at any time, every document",
     "Tests run with one schedule in which everything is still alive by luck; what a closure may refer to is a question about all its paths and about who owns what.",
     [GS, GSH],
     [("deferred resolution", GS + ": Object::resolve, Request::resolve, subscribe, unsubscribe, deliver"), ("what fields borrow", GS + ": SelectionVisitor; " + GSH + ": OperationData, SubscriptionData, SelectionSetParams, FieldParams"),
      ("results which are not ready", GSH + ": ModifiedResult")],
     technique="escape and ownership analysis over the clang AST: interprocedural escape of closures and arguments (tasks, members, containers, results), borrowed types in captures and owners, roots of every lent reference",
     note="Objects borrowed by closures that are awaited in the same function are accepted; that the awaiting happens is checked. User supplied resolvers are outside of it.")
prop("C11", "A value is what the document says, a variable what the request or default says",
     "Every literal becomes the value it denotes, elements and fields of lists and objects included and in order; a variable becomes its value in the operation, and an unknown variable is an error. "
     "Each variable an operation declares has the value of the request, else its default value, else null; variables it does not declare are not visible, and the selections and directives see exactly these values. "
     "A resolver gets all arguments, the directives, the selection set, the fragments and the variables of exactly the field it resolves; the same holds for the operations of subscriptions.",
     ["inputs"], "every literal at any depth, every set of declared variables and every set of values a request gives",
     "Tests pass a few values through a few fields; the evaluation is decided for every kind of value and every combination of given, defaulted and missing variables.",
     [GS], [("values", GS + ": ValueVisitor"), ("variables", GS + ": OperationDefinitionVisitor::visit, SubscriptionDefinitionVisitor::visit"), ("parameters", GS + ": SelectionVisitor::visitField, ResolverParams")], technique=ET)
prop("C12", "Arguments reach resolvers with the declared type and the value given",
     "An argument reaches the resolver exactly if its value fits its declared type - Int from an integer, Float from a float or an integer, String and ID from a string, Boolean from a Boolean, a list element by element in order - and then with the value given; "
     "anything else is an error naming the argument. A nullable argument or element is empty exactly if it is absent or null, and a custom scalar arrives unchanged. "
     "Looking for an optional argument succeeds exactly when requiring it would, and never throws.",
     ["inputs"], "every value given for an argument of every built-in type, under every nesting of list and nullable wrappers",
     "Tests convert a few values for a few wrappers; the conversion is decided here for every kind of value and inductively for every nesting.",
     [GS, GSH], [("conversions", GS + ": Argument<T>::convert"), ("wrappers", GSH + ": ModifiedArgument")], technique=ET)
prop("C13", "Results become response values of the declared type, wrappers included",
     "A leaf becomes a value of its own type, with the value the resolver gave, and is an error if the document selects fields of it; a list becomes a list of the same length and order; "
     "an absent optional, a null object or a null list is null without errors; an object is resolved with the selection of its field. "
     "It makes no difference whether the resolver returned the value, a future of it or a value converted before.",
     ["inputs"], "every result of every built-in type, under every nesting of list and nullable wrappers, given now or as a future",
     "Tests return a few values under a few wrappers; the conversion is decided here for every kind of value and inductively for every nesting.",
     [GS, GSH], [("leaves", GS + ": Result<T>::convert, blockSubFields"), ("wrappers", GSH + ": ModifiedResult, AwaitableScalar, AwaitableObject")], technique=ET)

RSP, RSPH = "src/GraphQLResponse.cpp", "include/graphqlservice/GraphQLResponse.h"
prop("C23", "A response value keeps its type and only takes and yields what fits it",
     "A value has the type and content it was made of; reading or releasing it as a type yields exactly its content (an Int also as Float, an ID from the Base64 of a String, enum values as strings) and is an error if it holds anything else; "
     "setting it stores exactly what was given, keeps its type, and is an error otherwise. A copy has the same type and content, every element in order; moving and assigning keep the content; values are equal only if type and content are. "
     "Elements are appended in order and found by their index only inside of the list.",
     ["inputs"], "every value of every type, every nesting, every sequence of operations on it (each operation is decided for every value)",
     "Two tests touch the class itself; a value of one type read or copied as another is a matter of nine alternatives times every operation.",
     [RSP, RSPH], [("accessors", RSP + ": Value::get, set, release specializations"), ("construction and copies", RSP + ": Value::Value, operator=, operator=="), ("type", RSP + ": Value::type; " + RSPH + ": Value::TypeData, enum Type")], technique=ET)
prop("C24", "A map value holds each name once, in order, and finds exactly its names",
     "Adding an entry to a map appends it if its name is new and changes nothing (and says so) if the map holds the name already; iterating visits all entries in the order they were added. "
     "Looking a name up yields the entry of this very name, or the end (an error for the subscript) if there is none, also in copies of the map; anything but a map has no names.",
     ["inputs", "histories"], "every map, every sequence of additions and lookups, every copy (invariant of the sorted index, preserved by every operation)",
     "Tests use maps of a few names; the index is sorted and searched by names of any number, order and prefix.",
     [RSP, RSPH], [("index", RSP + ": Value::emplace_back, find, operator[], the copy constructor"), ("entries", RSP + ": Value::begin, end")],
     technique="decision tables (as above) plus an invariant argument: the comparator of every search is evaluated symbolically and must order by name, insertions must keep position and number in step with it")
SMH = "include/graphqlservice/internal/SortedMap.h"
prop("C27", "The sorted containers hold each key once and find exactly the keys they hold",
     "The maps and sets that names, fields, types, keys and subscriptions are kept in hold every key once and in order: adding a new key puts it and its value where it belongs, adding a key that is held changes nothing and says so, and erasing a key removes exactly it. "
     "Looking up finds a key exactly if it was added (or given initially) and not erased; the subscript adds an empty value for a new key, and demanding a missing key is refused. "
     "Names are ordered strictly, and only equal names are equivalent; containers are equal exactly if their elements are.",
     ["inputs", "histories"], "every sequence of operations on every set of keys, for both orders in use (invariant of each operation)",
     "No test touches the containers, which all resolution, validation and subscription bookkeeping relies on; a wrong place or comparison only shows for certain sets of keys.",
     [SMH], [("maps", SMH + ": sorted_map"), ("sets", SMH + ": sorted_set"), ("order of names", SMH + ": shorter_or_less")],
     technique="decision tables (as above) plus an invariant argument: every search covers all elements with the order of the container (comparators evaluated symbolically), every insertion is at the place found; the order of names is decided by exhaustive case analysis")
JS = "src/JSONResponse.cpp"
prop("C25", "The JSON of a value says exactly what it is, and a JSON text is read as it is",
     "The JSON of a map is an object of all its entries in order, that of a list an array of all its elements in order, and that of a string, enum value, Boolean, Int or Float the same string, Boolean or number (null for a Float which is not finite); a custom scalar is its content. "
     "Reading a valid JSON text yields the value it says, at any nesting and with the full length of every string and key; integers that do not fit an Int are refused.",
     ["inputs"], "every value and every valid JSON text (each callback of the reader and each type of value is decided)",
     "Tests write and read back a handful of flat texts; the nesting, the kinds of numbers and the lengths of strings are decided here for all of them.",
     [JS], [("writing", JS + ": writeResponse, toJSON"), ("reading", JS + ": ResponseHandler, parseJSON")], technique=ET,
     note="RapidJSON itself (escapes, number formatting and the parsing of digits) is trusted. What happens to texts that are not JSON is not covered.")
SSRC, ISRC, SSH = "src/Schema.cpp", "src/Introspection.cpp", "include/graphqlservice/internal/Schema.h"
prop("C29", "Introspection tells exactly what the schema was built with",
     "What a definition of the schema was given (names, descriptions, types, arguments, defaults, deprecation reasons, locations, members and their order) is what its accessors return and what the introspection types answer; a type answers null for what its kind does not have. "
     "A type tells the interfaces it implements, an interface the types that implement it; types, fields, arguments and enum values are listed completely and in order, deprecated ones exactly if asked for, and types are found by their names. "
     "The root types and the directives are those of the schema, and a root it does not have is null.",
     ["programs", "inputs"], "every schema built with the library, and every introspection query about it (each accessor and each introspection field is decided)",
     "Tests query the introspection of one sample schema; every kind of definition times every field of the introspection types is decided here.",
     [SSRC, ISRC, SSH], [("schema definitions", SSRC + ": Make, Add*, accessors, WrapType, LookupType"), ("introspection types", ISRC + ": Schema, Type, Field, InputValue, EnumValue, Directive")],
     technique="value-flow over the clang AST from each parameter of each definition through its members to the accessors and introspection resolvers, with decision tables of every getter by kind")
prop("C20", "A document is accepted exactly if the specification's grammar derives it",
     "The parser accepts a text as executable document, as type system document, or as a mixture of both, exactly if the grammar of the specification derives it (vertical tabs and form feeds count as ignored characters too, comments may hold any character, a byte order mark is only ignored at the start). "
     "In particular what separates tokens never matters where the tokens do not need it, keywords are no keywords elsewhere, and a failure inside of a construct is never papered over. "
     "Each entry point reads its kind of document first and falls back to mixed documents, with the nodes of its kind in the tree.",
     ["inputs"], "every text of any length over all of Unicode, its lists, objects, list types and selection sets nested up to the bound of the tier (2 to 5)",
     "There are infinitely many documents; tests parse a few dozen which people wrote with usual spacing.",
     ["include/graphqlservice/internal/Grammar.h", "src/SyntaxTree.cpp"], [("grammar", "include/graphqlservice/internal/Grammar.h"), ("entry points", "src/SyntaxTree.cpp: parseString, parseFile, parseSchemaString, parseSchemaFile, _graphql")],
     technique="exact language comparison: the parsing expression grammar is extracted from the type structure of the PEGTL rules and compared with the specification's grammar by a product of (alternating) automata",
     note="Decided exactly for all texts up to the nesting bound; known deviations are listed as findings. Trusted: the meaning of the rules of PEGTL as documented.")
prop("C21", "The syntax tree of a document has the nodes of its derivation",
     "The tree of a parsed document has exactly one node for each definition, selection, field, argument, directive, value, type and so on which the specification's grammar derives, nested and ordered as there, each with the text it was derived from and with its position. "
     "A node has the type its kind says (is_type), and the rules that only separate or group leave none.",
     ["inputs"], "every text of any length over all of Unicode, its lists, objects, list types and selection sets nested up to the bound of the tier (1 to 3)",
     "Everything else reads this tree; tests look at a few trees, and the rules that decide which nodes are kept are a list apart from the grammar.",
     ["include/graphqlservice/internal/Grammar.h", "include/graphqlservice/internal/SyntaxTree.h", "src/SyntaxTree.cpp"], [("nodes", "include/graphqlservice/internal/Grammar.h"), ("selectors", "src/SyntaxTree.cpp: ast_selector, schema_selector, executable_selector"), ("positions", "src/SyntaxTree.cpp: ast_node")],
     technique="language inclusion between grammars whose texts are marked with the begin and the end of every node (extracted from rules and selectors), decided by a product of automata; decision tables for the functions of the nodes",
     note="Decided exactly up to the nesting bound. Trusted: the meaning of the rules and of the tree builder of PEGTL as documented.")
prop("C22", "A string literal has the value its characters and escapes stand for",
     "The value of a quoted string is its characters in order with every escape sequence replaced by the character it stands for, and that of a block string its characters with only the escaped triple quote replaced (common indentation is kept). "
     "A quoted string with an escape sequence that is no code point is a parse error.",
     ["inputs"], "every string literal of every document",
     "Tests hold two or three of the escapes; which characters are joined to which node is spread over rules, selectors and a lazily computed member.",
     ["include/graphqlservice/internal/Grammar.h", "src/SyntaxTree.cpp"], [("escapes", "src/SyntaxTree.cpp: ast_selector<escaped_char>, ast_selector<escaped_unicode>"), ("join", "src/SyntaxTree.cpp: ast_node::unescaped_view")],
     technique="decision tables over the clang AST of the selectors' transformations and of the accessor, by escape and by kind of node",
     note="Decided completely. Not claimed: that block strings lose their common indentation (they do not in this library). Trusted: PEGTL's decoding of \\u sequences.")
prop("C30", "What threads share is only touched under its lock",
     "The cache of wrapped types of a schema is only read and written under its lock, finds or adds exactly one wrapper per type and kind, and never replaces one. "
     "A resolver of a generated object calls the getter of its object while it holds the lock of that object, so that no two getters of one object run at the same time; it lets go of the lock before it converts the result, so that resolving nested fields does not deadlock. The validator of a service, which holds the state of one validation, is only used under its lock.",
     ["schedules"], "every interleaving of threads that resolve fields of one object or wrap types of one schema (lock discipline on every path)",
     "Tests run one schedule; a missing or wrong lock, or one held too long, does not show in it.",
     [SSRC, "src/SchemaGenerator.cpp", "src/IntrospectionSchema.cpp", "samples/unified/TodaySchema.cpp"], [("cache", SSRC + ": Schema::WrapType"), ("resolvers", "src/IntrospectionSchema.cpp, samples: Object::resolve*")],
     technique="lockset analysis over the clang AST: locks held at each access of the guarded state and at each call of a getter and a conversion, on every path")
GSRC, LSRC = "src/SchemaGenerator.cpp", "src/SchemaLoader.cpp"
TV = ("translation validation: the generator of the current tree is built and writes code, as it does in every build, for the schemas of the repository and for probe schemas; the C++ it wrote is not compiled to a program or run, "
      "its type-checked syntax tree is read by constant folding and compared, construct by construct, with an independent reading of the schema document")
TVN = ("Decided completely for each schema that is generated (the three of the repository and five probe schemas which hold every construct of the schema language in many combinations, each with the options that matter); "
       "the generator is a structural recursion over the document, other schemas are combinations of the same constructs. Names that are C++ keywords are not supported by the generator.")
prop("C31", "The type system of a generated service is the one of its schema document",
     "A generated service adds to its schema exactly the types, directives and root types of the document (extensions applied wherever they stand): fields, arguments, input fields, enum values, members and interfaces in the order of the document with their wrapped types, default values, directive locations, descriptions and deprecation reasons. "
     "Its schema contains the introspection types first, supports introspection unless it was generated without, and without it carries no descriptions; the built-in introspection types are those of the introspection document.",
     ["programs", "configurations"], "every definition of the schema documents of the repository and of the probe schemas, and every combination of generator options used there",
     "Tests compare one sample service; a wrong default, modifier, reason or order anywhere else in the output does not show in them.",
     [GSRC, LSRC], [("emission", GSRC + ": outputSource, outputObjectIntrospection, getIntrospectionType"), ("loading", LSRC + ": visit*, validateSchema, fixup*")], technique=TV, note=TVN)
prop("C32", "Generated services resolve fields and arguments as the schema document says",
     "Each object of a generated service matches the type conditions that apply to its type and has exactly one resolver for each of its fields; the resolver takes each argument under its name as its type, with its default exactly where the request leaves it out, calls the getter of that field with the arguments in order and the directives of the field, and converts the result as the field's type. "
     "Input objects have a member of the right type for each input field, filled from that field; enum values are exchanged by the names of the document, and unknown ones refused. "
     "Each operation type is carried out by the object of its root type, interfaces and getters have the C++ types the schema types stand for, and unimplemented getters are stubs that throw, or left abstract if asked for.",
     ["programs", "configurations"], "every field, argument, input field, enum value and root of the schema documents of the repository and of the probe schemas, and the generator options used there",
     "Tests call some resolvers of one sample service with some arguments; every argument type, default, modifier and name is decided here.",
     [GSRC, LSRC], [("resolvers", GSRC + ": outputObjectImplementation"), ("arguments and defaults", GSRC + ": getArgumentDeclaration, getArgumentDefaultValue, getTypeModifiers"), ("C++ types", LSRC + ": getInputCppType, getOutputCppType")], technique=TV, note=TVN)
prop("C35", "Clients read responses and convert values as the service wrote them",
     "parseServiceResponse keeps the data and every error with its message, its locations and its path, in order, whatever else the response holds and in whatever order its entries come. "
     "A variable or a result is converted by its C++ type: values of another kind are refused, null and a missing optional value are each other, and the elements of a list are converted one by one, in order, with the rest of the type's modifiers.",
     ["inputs"], "every response document, every value of every built-in type, every nesting of optional values and lists",
     "Tests parse a few responses of the samples; most combinations of modifiers, kinds of values and malformed entries do not occur there.",
     ["src/GraphQLClient.cpp", "include/graphqlservice/GraphQLClient.h"], [("responses", "src/GraphQLClient.cpp: parseServiceResponse"), ("built-in types", "src/GraphQLClient.cpp: serialize, parse"), ("modifiers", "include/graphqlservice/GraphQLClient.h: ModifiedVariable, ModifiedResponse")],
     technique="decision tables over the clang AST per nesting level of the response (one arbitrary member or element each), and per instance of the modifier templates in a probe; a compile-fail witness for lists of booleans",
     note="Decided completely; wrappers are instances over an arbitrary inner wrapper (induction over the nesting). What a path segment that is neither name nor index becomes is left open.")

prop("C36", "Generated clients send the variables and read the responses the request has",
     "For every schema and every valid request, the client that clientgen writes compiles, holds the text of the request and has the variables, input objects, enums and response types with the names, the nesting, the lists and the nullability of the schema. "
     "Every variable and input field is sent exactly once under its name in the document, converted by its type; every entry of a response under its response name, and only that, becomes the member made for it, in fragments as well; enum values keep their names both ways. "
     "No client is written for a request that is not valid for its schema or does not have the named operation.",
     ["programs", "configurations"], "every schema and request document given to clientgen with every option",
     "Tests use the checked-in clients of three sample requests; the input types, enums, nested fragments, aliases and wrappers of other requests do not occur in them.",
     ["src/ClientGenerator.cpp", "src/RequestLoader.cpp", "include/RequestLoader.h"],
     [("variables, inputs and enums", "src/ClientGenerator.cpp: outputRequestDeclarations, outputModifiedVariableParsing"), ("responses", "src/ClientGenerator.cpp: outputModifiedResponseImplementation; src/RequestLoader.cpp: ResponseType"),
      ("requests", "src/RequestLoader.cpp: validateRequest, findOperation, collectVariables, collectInputTypes, collectEnums")],
     technique="translation validation of generated code by static reading: the clients generated from the tree for probe schemas and requests are read with clang and compared, declaration by declaration and path by path, with an own reader of schemas and requests; decision tables of the request loader",
     note="Bound: the probe and sample requests in ten configurations; within a generated client every path is decided. The generator is run, the code it writes is not.")

prop("C33", "A schema document which contradicts itself is refused",
     "Every schema document given to schemagen or clientgen is refused with an error, and nothing is generated, if a field, an argument of a field or of a directive, or an input field has a type which is neither built in nor defined in the document or is of a kind that may not be there (an input type as a result, an object, interface or union as an argument), "
     "if a type implements an interface or a union has a member or a root operation has a type which is not defined, if a type has the name of a built in one, if there is no query type, if null is the default of a type which is not nullable, or if it holds an executable definition. No other document is refused for one of these reasons.",
     ["inputs"], "every schema document: any number of types, fields, arguments and wrappers in any order",
     "The tests generate from two valid schemas; a document with an error is not among them.",
     ["src/SchemaLoader.cpp"],
     [("types of fields and arguments", "src/SchemaLoader.cpp: fixupOutputFieldList, fixupInputFieldList"), ("the whole document", "src/SchemaLoader.cpp: validateSchema, visitDefinition, getInputFields")],
     technique="decision tables over every path of the functions that check a schema document, per element of each list of the document, from clang's syntax tree",
     note="Bound: none on documents. That two definitions of one name, cycles of input types and directives in use are consistent is not part of it.")

prop("C37", "Numbers keep their value from document to resolver to response",
     "An integer or a floating point number in a document, in variables or in a JSON text reaches the resolver with the value its digits denote, and a number returned by a resolver is written with digits that denote it.",
     ["inputs"], "every spelling of a number and every value", "Only a handful of numbers occur in the tests.",
     ["src/GraphQLService.cpp", "src/JSONResponse.cpp"], [("conversion of digits", "src/GraphQLService.cpp: ValueVisitor::visitIntValue, visitFloatValue; src/JSONResponse.cpp")],
     na="A statement about the arithmetic of std::atoi, std::strtod and RapidJSON's number conversion on runtime values; the library's own source only passes the digits on (that part is decided by C22 and C25), and no static argument in reach bounds the result of those functions.")
prop("C38", "Every accepted request is answered under every launch policy",
     "A request, a delivery or a subscription change ends with an answer, whatever the launch policy, provided that the resolvers end, and no part of it waits for another forever.",
     ["schedules"], "every launch policy, every await_async of a user and every schedule", "Tests use two launch policies and resolvers which return at once.",
     ["include/graphqlservice/GraphQLService.h", "src/GraphQLService.cpp"], [("awaitables", "include/graphqlservice/GraphQLService.h: await_async, AwaitableScalar, AwaitableObject")],
     na="Progress depends on the user's await_async implementation, on the executor it uses and on the duration of user resolvers, none of which is in the source; the structural part (every path of the library completes its promise, locks are not held across user code) is decided by C04, C09 and C30.")
