#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (source of truth for ids, titles and statements)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),
      why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],**({'observe_at':observe} if observe else {}))))

p("T01","Types survive a protobuf round trip unchanged",
 "Encoding any concrete type to its protobuf form and decoding it again yields a type equal to the original, with the same kind, nullability, type variation reference, parameters (length, precision, scale), child types and user-defined-type arguments. Decoding any well-formed protobuf type and encoding it again yields an equal protobuf message, where an interval-day type without a precision means microseconds. Wrapping a type as a function argument gives the same message. No well-formed type makes either direction panic.",
 ["inputs"],"every type kind, every nullability, every 32-bit variation reference, length, precision and scale, nested types",
 "Tests list a few dozen concrete types with fixed parameters; the field copied wrongly for one kind under one nesting is only seen when every kind is combined with every parameter value.",
 ["types/types.go","types/precison_timestamp_types.go","types/interval_compound_type.go","types/interval_day_type.go","types/interval_year_month_type.go"],
 [("TypeFromProto/TypeToProto","types/types.go"),("ToProto methods of each type","types/*.go")])
p("T02","Type equality is an equivalence that sees every difference",
 "Equality of two concrete types is reflexive, symmetric and transitive, and holds exactly when kind, nullability, type variation reference, parameters and children are all the same. Comparing types never panics, whatever the two kinds are.",
 ["inputs"],"every pair (and triple) of type kinds with arbitrary nullability, variation and parameters, including nested and user-defined types",
 "Tests compare a few pairs; asymmetry or an ignored field needs pairs that differ in exactly one component for every kind.",
 ["types/types.go","types/precison_timestamp_types.go","types/interval_compound_type.go","types/interval_day_type.go"],
 [("Equals methods","types/*.go")])
p("T03","Deriving a type never changes an existing type",
 "Asking a type for a copy with another nullability returns a type that has the requested nullability and is otherwise equal to the original. The original type, and every other type value obtained from the library before, is left exactly as it was.",
 ["inputs","histories"],"every type kind, every source and target nullability, every parameter value",
 "Tests look at the returned value only, and for a few kinds; mutation of the receiver or of a shared type shows only when the original is inspected afterwards.",
 ["types/types.go","types/interval_day_type.go","functions/types.go"],
 [("WithNullability methods","types/*.go")])
p("T04","Named structs and record types keep names and columns aligned",
 "A struct schema is accepted as consistent exactly when it has one name per field, counted depth first through nested structs, lists and maps. Concatenating two record types yields the left columns followed by the right columns and leaves both inputs, and every other record type built from them, unchanged; column lookup within range returns the column at that position.",
 ["inputs","histories"],"struct shapes up to depth 3, arbitrary name lists, any sequence of concatenations",
 "Tests use one or two schemas; aliasing between concatenations depends on spare slice capacity and the order of operations.",
 ["types/types.go","plan/common.go"],
 [("NamedStruct name counting, RecordType concat","types/types.go")])
p("T05","Precision time values convert without losing their instant",
 "A precision timestamp count of units, read at its declared precision, denotes the instant count divided by ten to the precision seconds after the epoch, for negative and positive counts alike, and converting a time to a count and back gives the same instant truncated to that precision. Every precision from 0 to 9 is supported and any other is rejected.",
 ["inputs"],"every precision, every 64-bit count in the representable range of the time type",
 "Tests check a handful of positive instants; rounding direction and overflow depend on sign and magnitude.",
 ["types/precison_timestamp_types.go","expr/literals.go","literal/utils.go"],
 [("unit conversion by precision","types/precison_timestamp_types.go")])
p("T06","Return-type programs evaluate by the arithmetic they spell",
 "A function's derived return type is computed by integer arithmetic, comparisons, boolean connectives, min/max, conditionals and assignments over the actual argument parameters, exactly as the expression is written. Arithmetic is that of 64-bit integers; an expression that cannot be evaluated (unknown variable, division by zero, wrong parameter kind, a derived parameter outside 32 bits) yields an error, never a panic or a wrong type.",
 ["inputs","programs"],"every operator, every argument length, precision and scale, nested conditionals and assignments",
 "Tests run a few decimal formulas with sample precisions; boundary values of min/max/if and unusual operators are not enumerated.",
 ["types/type_derivation.go","types/parameterized_decimal_type.go","extensions/variants.go"],
 [("expression evaluation","types/type_derivation.go")])
p("E01","Function anchors identify functions one to one",
 "In an extension set, every function, type and type variation has exactly one anchor and no two different ones share an anchor, whatever sequence of registrations, lookups and decoding of existing plans that declare each anchor and item once produced the set. Asking again for a registered item returns the same anchor, and looking up an anchor returns the item it was given for.",
 ["histories"],"every sequence of registrations over sets decoded from plans with arbitrary (sparse) 32-bit anchors",
 "Tests register a few items into an empty set, where dense numbering cannot collide; collisions need sparse anchors from a decoded plan.",
 ["extensions/extension_mgr.go"],
 [("set anchor allocation and decode maps","extensions/extension_mgr.go")])
p("E02","Extension declarations round-trip and encode deterministically",
 "Encoding an extension set to the plan's URN and declaration lists and decoding them again gives a set with the same anchors for the same items and nothing else. The encoded lists are the same on every run for the same set, sorted by anchor, and every declaration refers to a URN that is present.",
 ["inputs","schedules"],"sets with arbitrary anchors for functions, types and variations over several URNs, every map iteration order",
 "Map iteration order is random per run, so a test sees one order; ordering mistakes need particular orders of particular sizes.",
 ["extensions/extension_mgr.go"],
 [("ToProto / GetExtensionSet","extensions/extension_mgr.go")])
p("E03","Every loaded function resolves by name, and only to itself",
 "Once an extension file is loaded, each of its function overloads is found under its URN and full compound name, in its own function kind, and lookups under another URN, kind or unknown name find nothing. A plain function name resolves exactly when a single overload has that name, of its kind has that name, and then to that overload. An aggregate function can also be used as a window function unless the file declares that window function itself. Each overload carries the attributes its file declares, with the specification's defaults for those it leaves out.",
 ["inputs","histories"],"several files and any number of overloads per name up to 4, of each function kind, loaded in any order",
 "Tests use the published extension files, where few names have the overload counts and kind mixes that trigger interference.",
 ["extensions/extension_mgr.go","extensions/simple_extension.go","extensions/variants.go"],
 [("collection maps","extensions/extension_mgr.go")])
p("E04","Argument matching accepts exactly the declared signatures",
 "A list of argument types matches a function overload exactly when every argument matches the declared parameter at its position, the argument count is allowed by the declaration and its variadic bounds, and declared parameters sharing a type or integer variable are bound to the same type (apart from its nullability) or number. Arguments of a variadic parameter declared consistent are equal apart from their nullability. Nullability matters for matching under discrete handling only. Matching reports false or an error for anything else and never panics, whatever the number of arguments or position asked for.",
 ["inputs"],"signatures up to 3 parameters with and without variadic bounds, argument lists up to 4, arbitrary nullability and type parameters",
 "Tests match chosen signatures with chosen arguments; fewer arguments than parameters, bounds edges and repeated type variables combine in ways the tests do not reach.",
 ["extensions/variants.go","types/any_type.go"],
 [("matchArguments and type matching","extensions/variants.go")])
p("E05","Result types follow the declared nullability handling",
 "The resolved result type of a call is nullable exactly when an argument is nullable under mirror handling, has exactly its declared nullability under declared-output handling, and under discrete handling is given only for arguments whose nullability is exactly as declared. A result that is a type variable is the type its argument has. Resolution never alters the declared signature or the argument types, so resolving the same call again gives the same type.",
 ["inputs","histories"],"all three handling modes, arguments of arbitrary nullability including variadic ones, repeated resolution",
 "Tests cover two or three calls per mode; variadic tails and repeated resolution after a nullable one are not combined.",
 ["extensions/variants.go"],
 [("EvaluateTypeExpression / HandleNullability","extensions/variants.go")])
p("F01","Dialect lookups agree in both directions in any load order",
 "For a dialect, each supported function kernel maps to its local name and each local name maps back to exactly the kernels declared with it, per function kind and argument count, with the declared notation and options; lookups by argument count (in dialects and in the plain registry) give exactly the variants that can be called with that many arguments, counting the repetitions of a variadic last argument, and those declared with it; a call is supported exactly when its function kernel, argument types and options are. A dialect that names a function, kernel, dependency or type that does not exist is rejected. The outcome does not depend on the order in which functions or mappings are visited, except for the order of listed functions.",
 ["inputs","schedules"],"dialects with up to 3 functions and arbitrary name clashes, every map iteration order",
 "Map iteration order is random per run and clashes between a local and a standard name are not in the test dialects.",
 ["functions/dialect.go","functions/registries.go","functions/local_functions.go"],
 [("local function registry construction","functions/dialect.go")])
p("F02","Local type names translate to types and back",
 "A standard type translated to a dialect's local type name and back yields the same type apart from nullability (which local names do not state) when the local name is not shared, and a shared local name always denotes the same type. A type string formed from a type name (long or short), an optional nullability marker and parameters denotes the type with exactly these parameters; the precision of time types can be left out. Unsupported or malformed names are reported as errors, and a translation never changes what a later translation returns.",
 ["inputs","histories"],"every supported type name, arbitrary parameters and nullability markers, any sequence of translations",
 "Tests translate sample names once each; shared state between translations and rarely used type names are not exercised.",
 ["functions/types.go","functions/registries.go"],
 [("type registry","functions/types.go")])
p("X01","Literals survive a protobuf round trip unchanged",
 "Encoding any literal to protobuf and decoding it again yields a literal equal to the original with the same value, type, nullability and type variation, and decoding then encoding a well-formed literal message yields an equal message. This holds for every literal kind, nested and empty collections and boundary values included; floating-point literals are taken to be numbers (not NaN) and anchors of types with parameters of their own (aliases) are left out.",
 ["inputs"],"every literal kind, every value within the kind's range, every nullability and variation reference",
 "Tests fix one value per kind; zero, negative and empty values and non-zero variations of each kind are not covered.",
 ["expr/literals.go","expr/interval_compound_literal.go","expr/interval_year_to_month.go"],
 [("LiteralFromProto / ToProto","expr/literals.go")])
p("X02","Expressions survive a protobuf round trip unchanged",
 "Encoding any expression of package expr (literals, casts, conditionals, switches, lists, lambdas, direct and masked references, function calls with arguments, options, sorts, bounds and partitions) and decoding it in the same context yields an expression equal to the original that has the same type. The accessors of decoded functions, measures, windows and references give the parts the message states, in its order. Decoding and re-encoding a well-formed expression message gives an equal message.",
 ["inputs"],"every expression kind with arbitrary scalar fields, presence or absence of optional parts, nesting depth 2",
 "Tests decode a few stored messages; optional parts, enum values and combinations of fields are sampled only.",
 ["expr/expression.go","expr/functions.go","expr/lambda.go","expr/field_reference.go"],
 [("ExprFromProto / ToProto","expr/expression.go")])
p("X03","Expression equality is an equivalence that sees every difference",
 "Equality of the expressions and literals of package expr is reflexive and symmetric, and is false whenever the two differ in kind, value, type, argument count, any argument, option, sort, bound, partition or referenced path or root; floating-point values compare as numbers do (NaN differs from itself). Comparing never panics, whatever the two kinds are.",
 ["inputs"],"all pairs of expression and literal kinds, with arbitrary scalar fields and argument lists of differing length",
 "Tests assert equality of clones; pairs differing in one component, or in argument count, are not enumerated.",
 ["expr/expression.go","expr/functions.go","expr/literals.go","expr/field_reference.go"],
 [("Equals methods","expr/*.go")])
p("X04","Rewriting an expression replaces every child and nothing else",
 "Visiting an expression with a function that returns its input gives back an equal expression; visiting it with a replacing function offers each direct child expression exactly once and gives an expression with exactly those children replaced. The case literals of a switch are children that only a literal can replace; members of a literal and expressions in the root of a reference are not children. The original expression is unchanged in both cases, and no expression kind panics on a visit.",
 ["inputs"],"every expression kind, every subset of children replaced, every presence of optional children",
 "Tests visit a few trees with one rewriting; replacing only a later child or visiting optional parts is not covered.",
 ["expr/expression.go","expr/functions.go","expr/field_reference.go","expr/lambda.go"],
 [("Visit methods","expr/*.go")])
p("X05","Field references resolve to the referenced column's type",
 "A field reference built against a schema is accepted exactly when every step exists in it, and then has the type declared at the end of its path, through nested structs, lists and maps. An out-of-range or mismatched step, including a negative index, is an error and never a panic or another column's type.",
 ["inputs"],"schemas of up to 3 columns nested 2 deep, every 32-bit index, every step kind",
 "Tests resolve valid references in two schemas; boundary, negative and kind-mismatched steps are sampled only.",
 ["expr/field_reference.go","types/types.go"],
 [("GetType on reference segments","expr/field_reference.go")])
p("X06","Decimal and byte conversions are exact within their range",
 "Converting a decimal to its 16-byte little-endian two's complement form and back gives the same unscaled value, precision and scale, for negative values and for the largest magnitudes. A value that does not fit the requested precision, or is not finite, is rejected rather than truncated; a fraction needs one digit more than its scale when its precision is derived.",
 ["inputs"],"every 128-bit unscaled value, every scale and precision up to 38",
 "Tests convert a dozen numbers; sign extension, carries and the range edges depend on particular bit patterns.",
 ["expr/decimal_util.go","literal/utils.go"],
 [("decimal byte conversion","expr/decimal_util.go")])
p("X07","Function calls are built only from arguments the function accepts",
 "Constructing a scalar, aggregate or window call, directly or with the builders, succeeds exactly for an overload that accepts the arguments; errors of argument builders are errors of the call. The call then reports the result type the overload resolves for these arguments, also after a protobuf round trip, and the attributes of the overload. It keeps its arguments, options, sorts and bounds in the order given; RANGE bounds need exactly one sort with the window builder. A clone of an aggregate call is independent of the original.",
 ["inputs"],"overloads up to 3 parameters, arbitrary argument types and nullability, arbitrary invocation, phase, bounds and options",
 "Tests build calls for a few published functions; mismatches in count, kind or nullability are not enumerated.",
 ["expr/functions.go","expr/builder.go"],
 [("NewScalarFunc / NewAggregateFunc / NewWindowFunc","expr/functions.go")])
p("P01","Relations and plans survive a protobuf round trip",
 "Encoding any relation tree or plan built through the library and decoding it again gives a tree that encodes to the same message and has the same output schema. Every field of a relation, its hints, advanced extension and emit mapping is kept, and a plan keeps its version, relations, expected types and bindings. The accessors of relations and plans report the same fields as their messages.",
 ["inputs"],"every relation kind with arbitrary scalar fields (offsets, counts, join kinds, modes, references), optional parts present or absent",
 "Tests round-trip one instance of each common relation; fields at non-default values and rarely used relations are not covered.",
 ["plan/relations.go","plan/plan.go","plan/common.go"],
 [("RelFromProto / ToProto","plan/relations.go")])
p("P02","A relation's output schema is the one its operator defines",
 "The output columns a relation reports are those its operator produces from its inputs: unchanged for filters, fetches and sorts, input then expressions for projections, keys, measures and the index of the grouping set if there are several for aggregates, left then right for products and joins with nullability and sides set by the join kind, and common columns for set operations. Computing an output schema never changes the schema of an input.",
 ["inputs"],"every relation and join kind over inputs up to 3 columns of arbitrary nullability",
 "Tests assert schemas of chosen plans; each join kind with each column nullability and shared inputs is not enumerated.",
 ["plan/relations.go"],
 [("RecordType / directOutputSchema","plan/relations.go")])
p("P03","Emit mappings select columns and never damage the relation",
 "Applying a column mapping to a relation gives a relation whose output columns are exactly the mapped ones in that order, composed with any mapping that it already had, and an index outside the current output is an error. The relation it is applied to keeps its own output unchanged, also when the call fails.",
 ["inputs","histories"],"every relation kind, mappings up to length 3 of arbitrary 32-bit indices, repeated remapping",
 "Tests remap valid columns once; bounds against the right schema, composition and preservation of the original are rarely asserted.",
 ["plan/common.go","plan/relations.go","plan/builders.go"],
 [("Remap / Emit","plan/common.go")])
p("P04","The plan builder returns a valid relation or an error",
 "A builder call that succeeds returns a relation whose field references, output mapping, grouping references, rows and conditions fit its inputs, which can be encoded, and whose columns can be asked for. With out-of-range indices, missing inputs, expressions or definitions, rows of other widths or types, or conditions that are not boolean, it returns an error, and it never panics. Calls on a builder do not change relations built before from the same inputs. The values of fetch counts, the schemas given for tables that are read or written, and which operations and join types exist are not checked by the builder.",
 ["inputs","histories"],"every builder operation with arbitrary indices, empty or mismatched lists, nil inputs",
 "Tests check the listed error cases; the index arithmetic over joined inputs and grouping sets is not covered for all values.",
 ["plan/builders.go"],
 [("Builder methods","plan/builders.go")])
p("P05","Rewriting a relation tree replaces what it should and copies the rest",
 "Copying a relation with new inputs or rewriting its expressions gives a relation with exactly these inputs and every expression of the relation itself (filters, rows, projections, grouping expressions, measure arguments, measure filters, sorts and the references of join keys) replaced by its rewritten form, and the rest unchanged. An error of the rewriting is returned. The original tree is left unchanged, and a rewrite that changes nothing returns the relation itself. A list of inputs that was asked for or passed is not shared with a relation. (Expressions inside extension definitions are not rewritten, a rewritten join key has to be a field reference, and the rewrite function may be asked about absent filters.)",
 ["inputs"],"every relation kind, every subset of its expressions rewritten",
 "Tests rewrite one expression in a few relations; a relation that forgets one expression or shares state with its copy is not detected.",
 ["plan/relations.go"],
 [("Copy / CopyWithExpressionRewrite","plan/relations.go")])
p("P06","Parameter bindings are accepted exactly when they fit the plan",
 "A plan is made with parameter bindings exactly when each binding names a parameter that occurs in an expression of the plan, wherever it is (in any relation, subquery, reference or extension), and its literal has the type the parameter declares apart from the nullability. Validation leaves the relations unchanged and the plan has these bindings. (Nothing is claimed for an anchor that is bound twice or declared with two types.)",
 ["inputs"],"parameters in every expression position, arbitrary 32-bit anchors and types, up to 2 bindings",
 "Tests place parameters in a few positions; a position that the walk misses, or a side effect on the types, is not seen.",
 ["plan/plan.go"],
 [("binding validation walk","plan/plan.go")])
p("P07","Decoding an incomplete message gives an error, not a crash",
 "Decoding a protobuf type, schema, literal, expression, function, reference, relation, plan or extended expression from which any sub-message, list element or one-of choice is missing, or whose time precision is outside 0..9, never panics: the decoder returns an error (nil where its signature has none) or a value that can be used, that is printed, typed, traversed, copied and encoded, without a panic. TypeFromProto, TypeParamFromProto, NewNamedStructFromProto and MaskExpressionFromProto, which cannot report an error, are covered by their ...Checked counterparts.",
 ["inputs"],"messages of every kind to a nesting depth of 2 with any one part (thorough: any two parts) missing, every 32-bit time precision",
 "Tests decode complete messages; the combinations of missing parts grow exponentially and come from other producers.",
 ["expr/expression.go","expr/functions.go","expr/literals.go","expr/field_reference.go","plan/relations.go","plan/plan.go","types/types.go"],
 [("FromProto functions","expr, plan, types")])
p("L01","Literals built from Go values hold exactly that value",
 "A literal built by a constructor of package literal from Go values (booleans, numbers, texts, bytes, days, hours to microseconds, counts of units, instants, date and time texts, UUID bytes, lists and maps of literals, user-defined structs) has the type that goes with it and the nullability asked for, and its protobuf form holds exactly that value: a date text denotes the days from the epoch to that calendar day, a time the units since midnight, an instant the units since the epoch at the type's precision, rounded down. What the type cannot hold is rejected with an error, never wrapped or truncated: days beyond 32 bits, times outside a day, counts beyond 64 bits, unknown precisions, UUIDs of other than 16 bytes, empty lists and maps and those with missing elements or elements of different types. Converting a precision time, precision timestamp or day interval literal to another precision with WithType keeps the instant, rounded down (subseconds of an interval: rounded either way), or is rejected.",
 ["inputs"],"every value of the constructors' parameters within the bounds of each harness in gosym/harness/l01.go (texts up to 5 bytes, years 1968..2103, thorough 1600..2399, lists and maps of up to 2 elements)",
 "Tests use a few in-range values; the wrap-around and rounding cases are at range edges and negative components.",
 ["literal/utils.go","expr/literals.go","types/types.go"],
 [("New* constructors","literal/utils.go"),("WithType of precision types","expr/literals.go")])
p("L02","Interval strings denote the interval they spell",
 "Making an interval literal from a string, of years and months as P[n]Y[n]M or of days to seconds as P[n]DT[n]H[n]M[n[.f]]S with at least one component and with a component after any T, gives a literal of exactly the components written: years and months, or days, the seconds that the hours, minutes and seconds amount to, and the fraction of a second in micro- or nanoseconds. A string that is not wholly of that form, has an amount that does not fit 32 bits or a fraction finer than nanoseconds is rejected with an error. Parsing never panics. (Signed years and months and seconds without digits before the point are either rejected or read exactly.)",
 ["inputs"],"all ASCII strings of up to 6 bytes (thorough: 7) and strings of any components with up to 11-digit numbers and 12-digit fractions",
 "Tests parse a few strings; unit order, missing units, trailing text and large numbers are combinatorial.",
 ["literal/utils.go"],
 [("interval parsing","literal/utils.go")])
p("L03","Function test cases are read with the values they state",
 "Parsing the text of a function test file gives its cases in order, each of the group, function, options, arguments and result written: every literal of exactly the value and of exactly the type stated (with its nullability, length, precision and scale), quoted texts without their quotes and with escaped quotes and backslashes unescaped, nulls as nulls, the special outcomes as such; a value is read the same as an argument, in a list at any depth, in a column and in a table of its type. In the three forms of aggregate cases (a column of values, rows before the call, a defined table) the columns have the rows' values in their places, and an argument that names a column refers to that column, with its type, also in the invocation made from the case. A value that does not fit its declared type (an integer beyond its width, a text longer than its length, a literal of another kind), ragged rows, references to columns that do not exist and texts that the grammar does not derive are errors that give no cases; parsing never panics. Reading the options or printing a case gives the same every time.",
 ["inputs","schedules"],"every value of the digits and letters in texts of the stated shapes, every map iteration order",
 "Tests read well-formed files; out-of-range values and ragged data are outside them, and the values are not compared one by one.",
 ["testcases/parser/parse.go","testcases/parser/nodes.go","testcases/parser/visitor.go","expr/literals.go"],
 [("test case nodes","testcases/parser/nodes.go"),("visitor","testcases/parser/visitor.go")])
p("T07","Type expressions mean what the grammar says",
 "Parsing a type expression, in any case of its keywords and with any spaces between tokens, gives the type that the grammar says: its kind, nullability, numbers, names and nested types in order, or for derivations the assignments and operations with the grammar's precedence. Printing what was parsed gives a text that parses to an equal value (function types without parameters excepted). Type parameters that do not fit 32 bits and texts that the grammar does not derive are errors, never panics or a type that ignores part of the text.",
 ["inputs"],"all kinds of types nested to the stated depth with numbers of up to 11 digits, both nullabilities, keyword cases and spacings as stated",
 "Tests parse listed strings only.",
 ["types/parser/parse.go","types/parser/visitor.go","types/type_derivation.go","types/parameterized_func_type.go"],
 [("ANTLR type parser","types/parser")])
open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w").write("".join(json.dumps(x)+"\n" for x in P))
