"""Writes properties.jsonl (kept as a script so the text is easy to edit)."""
import json, os
P = []
def p(id, title, statement, over, q, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": q},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(name=a, meaning=b, where=c) for a, b, c in state],
                          "mechanism": [dict(name=a, where=b) for a, b in mech],
                          "observe_at": list(observe), "hook_needed": None}})

CT = "datashape/coretypes.py"; PA = "datashape/parser.py"; LX = "datashape/lexer.py"
ST = "datashape/type_symbol_table.py"; DI = "datashape/discovery.py"; UT = "datashape/util/__init__.py"
TT = "datashape/util/testing.py"; IU = "datashape/internal_utils.py"; PR = "datashape/predicates.py"
PM = "datashape/promote.py"; TS = "datashape/typesets.py"; US = "datashape/user.py"; VA = "datashape/validation.py"

p("C01", "Printing a datashape and parsing the text gives the same datashape back",
  "For every unnamed datashape (one without a display name of its own) that the constructors make of arguments of the kinds they document, parsing its printed text succeeds and yields an equal datashape, whatever its parameters and however its parts are nested, for both the one-line and the wrapped layout. The same holds for records printed with any field names, quoted or not.",
  ["inputs"], "every type, every choice of its parameters (lengths, encodings, time zones, units, precision, names, categories, optional or not), every nesting of types in types, every print width",
  "the tests parse a few dozen fixed strings; a parameter that is dropped or mis-spelt by one printer is only visible for that type with that parameter set",
  [CT, PA, LX, ST, IU],
  [("str and pretty printing of every type", CT), ("recursive descent parser", PA), ("symbol tables map names back to types", ST), ("field names are quoted unless they are plain identifiers", IU)],
  observe=["str(ds)", "pprint(ds, width)", "dshape(text)"])

p("C02", "Equality of datashapes is structural and agrees with hashing",
  "Two datashapes are equal exactly when they have the same dimensions and the same measure with equal parameters, where one element wrapped as a datashape counts as that element; equality is symmetric and inequality is its negation. Equal datashapes have equal hashes, also when one was hashed before, and a fixed dimension equals and hashes like its plain integer.",
  ["inputs"], "every pair of types, same or different in each parameter, with arbitrary nested types as parameters",
  "tests compare a handful of pairs; equality over all pairs of types and every single-parameter difference is never enumerated, and hash agreement is only tested through a few dict lookups",
  [CT, TS], [("structural equality by shape and measure", CT), ("cached hash from the same data", CT), ("fixed dimension compares with int", CT), ("type set equality", TS)],
  state=[("cached hash", "memoised per instance; must never leak into equality", CT)], observe=["==", "!=", "hash()", "dict and set membership"])

p("C03", "Pickling or copying a datashape preserves it completely",
  "Every unnamed datashape survives pickling with every protocol, shallow copying and deep copying: the result has the same type, equals the original, hashes and prints the same and answers the same accessors.",
  ["inputs"], "every type with every choice of parameters, all pickle protocols, copy and deepcopy",
  "the pickle tests cover a list of example strings with the default protocol; per-type state is restored positionally, so a new or reordered parameter breaks silently",
  [CT], [("state is the tuple of parameters, restored slot by slot", CT), ("composite datashape restores its own flags", CT)],
  observe=["pickle.loads(pickle.dumps(ds, protocol))", "copy.copy", "copy.deepcopy"])

p("C04", "Datashapes never change and share no mutable state with their callers",
  "No public operation (comparison, hashing, printing, indexing, multiplication, conversion, predicate, promotion, discovery, validation, assertion) changes the observable value of a datashape or of a container passed to it. A datashape does not change when a list, dict or set that was used to build it, or a list or dict that it returned, is modified afterwards.",
  ["inputs", "histories"], "every public operation on every type, and every later mutation of a constructor argument or of a returned container",
  "tests call an operation once on a fresh object and never look at the arguments afterwards; aliasing shows up only in a later unrelated call",
  [CT, DI, UT, TS, TT], [("constructors copy into tuples", CT), ("accessors build fresh lists and dicts", CT), ("record construction edits its private list of names", CT), ("composition builds new objects", CT)],
  observe=["accessors before and after", "caller's containers before and after"])

p("C05", "The shared type tables keep their meaning whatever else is called",
  "After import, no parsing, printing, construction, discovery, validation, promotion or comparison changes what an existing type name, type-set name or symbol means; only explicitly naming a new type adds an entry. Giving a datashape, sized type or type set a name that its table already has raises TypeError and leaves the table as it was.",
  ["histories"], "every sequence of public calls; every name already present in a table",
  "tests run one call per fresh expectation; a lookup table that is written through by a parse or a comparison corrupts later unrelated calls only",
  [CT, TS, ST], [("registration refuses names that are taken", CT), ("type set registration refuses names that are taken", TS), ("symbol tables are filled once", ST)],
  state=[("type registry", "name to type", CT), ("type set registry", "name to set of types", TS), ("parser symbol table", "name to type or constructor", ST)], observe=["lookup by name", "dshape(name)"])

p("C06", "The parser accepts exactly the documented grammar and builds what it says",
  "A token sequence is accepted exactly when the documented grammar (with boolean arguments and lists, empty tuples and records, and trailing commas in tuples and records as implemented) derives it and its symbols exist, and everything else is rejected with a syntax error. What is built reflects the text completely and in order: every dimension, option mark, field, tuple item, argument, keyword and return type appears once in the result and in its place.",
  ["inputs"], "every sequence of tokens, with every assignment of known and unknown symbols to its names",
  "tests try around a hundred strings; backtracking errors (a token consumed on a failed alternative) show up only for particular continuations",
  [PA, ST], [("recursive descent with saved positions", PA), ("homogeneous list helper with separators", PA), ("argument list with positional then keyword arguments", PA), ("end of input check", PA)],
  observe=["dshape(text)", "DataShapeSyntaxError"])

p("C07", "Malformed datashape text raises only documented errors",
  "Parsing any text (nested no deeper than the interpreter's stack allows) either returns a datashape or raises a syntax error, TypeError, ValueError or NotImplementedError (the last only for dimension constructors), and never an internal error such as AttributeError, IndexError, KeyError, UnboundLocalError or AssertionError. This includes every built-in type constructor given arguments of any kind, number and keyword.",
  ["inputs"], "every text; every constructor with every kind, number and keyword of arguments",
  "tests assert on selected malformed strings; the product of constructors and argument kinds is never enumerated",
  [PA, LX, ST, CT, VA], [("syntax errors raised with position", PA), ("constructors check their arguments", CT), ("invalid token error", LX)], observe=["dshape(text)"])

p("C08", "Text is split into the documented tokens, whatever its content",
  "For every text, the token at each position is the one the documented token definitions give (the longest match, a whole name being a boolean only when it is exactly True or False), white space and comments up to the end of the line are skipped, and anything else is an error at that position. Tokens are delivered in order with their exact extent and value, no character is skipped or read twice, and tokenising always terminates.",
  ["inputs"], "every character string",
  "regular expressions are tested on a few strings per token; the order of alternatives, look-ahead and shadowing between tokens matter only for particular neighbours",
  [LX], [("table of token expressions, tried in order", LX), ("white space and comment expression", LX), ("generator that advances by match end", LX)], observe=["lexer.lex(text)", "dshape(text)"])

p("C09", "Every scalar name denotes the documented type with the right size",
  "Each documented scalar name and alias (such as int, real, float, double, complex, intptr) denotes the same type wherever it is known (in text, in the registry and as a module attribute), and each C-style alias has the platform's size and kind. Item size and alignment of every sized type equal those of the NumPy or C type of that name.",
  ["inputs", "configurations"], "every name in the symbol tables, registry and module; every sized type",
  "tests check a few names; agreement between the three tables and with the platform's sizes is not enumerated",
  [CT, ST], [("sized type instances with item size and alignment", CT), ("aliases", CT), ("parser symbol table", ST)], observe=["dshape(name)", "Type lookup", "itemsize", "alignment", "to_numpy_dtype"])

p("C10", "Conversion to and from NumPy types preserves shape and kind",
  "Converting a datashape made of fixed dimensions over booleans, integers, floats, complex numbers, objects, dates and times, sized strings, or records and tuples of these gives the NumPy shape and type with the same dimensions, kinds, sizes, field names and order; a type variable dimension becomes -1 and any other dimension, or a measure NumPy cannot hold, raises TypeError. Converting a NumPy shape and type back gives the datashape with the same dimensions, kinds, sizes, field names and order, including sub-array fields.",
  ["inputs"], "every NumPy-compatible measure, every string length, every record of such types, every shape",
  "tests convert single examples; per-kind size arithmetic (bytes per character) and field order are not checked over all lengths and nestings",
  [CT], [("per type conversion", CT), ("shape conversion", CT), ("upcast from NumPy by kind", CT), ("missing-value aware option types", CT)], observe=["to_numpy", "to_numpy_dtype", "from_numpy"])

p("C11", "A decimal is converted to a NumPy type that can hold all its digits",
  "For every precision up to 18 and scale 0, the NumPy type of a decimal is the smallest signed integer type that holds every value with that many digits; for larger precision TypeError is raised, and for any other scale the type is a double.",
  ["inputs"], "every precision and scale",
  "tests sample five precisions; the thresholds are only visible at their boundaries",
  [CT], [("threshold ladder on precision", CT)], observe=["Decimal(p, s).to_numpy_dtype()"])

p("C12", "Promotion of numeric types is commutative, wide enough and keeps missing values",
  "For every two numeric, boolean or optional such types, promotion gives the same type in either order, equal to NumPy's result type, and promoting a type with itself returns it. The result is optional exactly when an operand is optional (unless option promotion is switched off for differing operands), also when operands are wrapped as datashapes, and string with string stays string; strings of known lengths promote to one with room for both that is ASCII only when both are.",
  ["inputs"], "every pair of numeric types, each optional or not, wrapped or not, with option promotion on or off",
  "tests sample about ten of several hundred combinations",
  [PM, CT], [("equality shortcut", PM), ("NumPy result type lookup", PM), ("option handling", PM)], observe=["promote", "optionify"])

p("C13", "Unifying discovered types is an order-independent least upper bound",
  "The common type of several scalar types is their unique least upper bound in the documented conversion order, whatever order they are given in or Python's hash seed; missing values only make the result optional, and all-missing input stays null. Unifying never drops a record field or changes the number of elements, and dimensions of different length unify to a variable dimension; uniting records, or merging the dimensions of arrays, gives the same result in whatever order they are given.",
  ["inputs", "schedules"], "every list of scalar types, nulls, records and arrays, in every order; every hash seed",
  "tests unify a few lists in one order under one hash seed; uniqueness of the bound over all pairs is a property of the whole conversion graph",
  [DI, IU], [("conversion graph and its topological order", DI), ("null aware unification", DI), ("dimension merging", DI), ("strategy chain", DI)], observe=["discover(list)", "unify helpers"])

p("C14", "Discovery gives every scalar value the type of its Python or NumPy class",
  "A Python scalar is discovered by its most specific supported class (bool before int, datetime before date, ordered mapping before mapping), a NumPy scalar by its own dtype, None and the null type as null, bytes as an ASCII string, and an unsupported class raises NotImplementedError. The applicable rule is unambiguous for every class.",
  ["inputs"], "every supported Python and NumPy scalar class, including subclasses",
  "tests call discovery once for some classes; ambiguity or a missing class in the dispatch table is not visible from single calls",
  [DI, "datashape/dispatch.py"], [("dispatch table of discovery functions", DI)], observe=["discover(value)"])

p("C15", "Discovery of containers keeps their length, fields and order",
  "The datashape discovered for a non-empty list or tuple describes exactly as many elements as it has: its leading dimension is its length or it is a tuple with one entry per element. A list of mappings that share keys gives a record holding every key seen, optional where a value is missing; a mapping gives a record of all its keys, sorted, or in their own order if it is ordered. A NumPy array gives its shape over the datashape of its element type, where an array or top-level field of objects that begins with texts is of strings.",
  ["inputs"], "every list length, every combination of present, missing and differing element types, every set of keys",
  "tests use short homogeneous examples; mixtures of missing, nested and unlike rows are combinatorial",
  [DI], [("row-wise, mapping-wise and generic strategies", DI), ("mapping discovery", DI)], observe=["discover(container)"])

p("C16", "Predicates answer the same for every spelling of a datashape, and correctly",
  "Each type predicate gives the same answer for a type given as text, as a datashape object or as the bare measure wherever all three are accepted, looks through an option mark where documented, and agrees with its definition on every type. A datashape is reported as fixed only if no variable or wildcard dimension occurs anywhere inside it, and the searches for variable dimensions and wildcards find them at every depth.",
  ["inputs"], "every type, optional or not, with or without dimensions, nested anywhere in records, tuples, options, functions and maps",
  "tests evaluate predicates on one or two positive and negative examples each",
  [PR, UT], [("unwrapping helpers", PR), ("recursive search", UT), ("class tests", PR)], observe=["isscalar", "isrecord", "isfixed", "isnumeric", "isreal", "isboolean", "isdatelike", "istabular", "iscollection", "ishomogeneous", "has_var_dim", "has_ellipsis"])

p("C17", "A datashape with more than one wildcard per shape is rejected at every depth",
  "Building a datashape from text or parts raises TypeError exactly when some shape anywhere inside it (in fields, tuple items, options, map entries, function arguments or results) contains two or more wildcards or ends in one (text that ends in one may also be a syntax error); a single wildcard in each is accepted.",
  ["inputs"], "every nesting position of a shape, every placement of wildcards in it",
  "tests try top-level examples only",
  [VA, UT, CT], [("traversal of nested parameters", VA), ("wildcard count", VA), ("check on construction", UT)], observe=["dshape(text)", "dshape(parts)"])

p("C18", "The datashape assertion passes exactly on equal datashapes",
  "Asserting that two datashapes are equal passes exactly when they are equal, and fails only with AssertionError, for every pair of types. Each option switches off exactly the comparison it names (dimensions, time zone, timedelta unit, string encoding, string length, field order) for the datashape and for the fields, items and options inside it, and nothing else.",
  ["inputs"], "every pair of types differing in any one parameter or dimension at any depth, every option",
  "tests check one mismatch per type; errors in a per-type comparator or in passing options down are per-type and per-depth",
  [TT], [("comparator per type, most specific wins", TT), ("path and options passed down", TT)], observe=["assert_dshape_equal"])

p("C19", "A value validates only if every field, element and dimension does",
  "A sequence validates against a dimension only if its length matches a fixed dimension and every element validates; a mapping or row validates against a record only if every field does and a row has exactly as many items as there are fields. A value of a class that the schema's measure does not admit never validates, and a tuple of schemas accepts what any of its members accepts.",
  ["inputs"], "every schema of dimensions, records and text, date and time measures; every list length; every position of a bad element or field",
  "tests use one or two positive and negative values; a conjunction that skips one position is visible only for that position",
  [US], [("dispatch on schema and value class", US), ("conjunction over fields and elements", US)], observe=["validate", "issubschema"])

p("C20", "Indexing a datashape gives the datashape of the indexed data",
  "Removing n leading dimensions leaves the remaining dimensions and the measure in order and fails with IndexError when there are not enough. Indexing with an integer removes the first dimension, with a list replaces it by the list's length, with a field name, position or list of them selects those fields in the given order, with None inside a tuple adds a dimension of one, and with a tuple applies each index to its own dimension and keeps the others.",
  ["inputs"], "every number of dimensions, every field, every combination of integer, list, name and None indices",
  "tests index a few two- and three-dimensional examples",
  [CT], [("removal of leading dimensions", CT), ("index interpretation", CT)], observe=["subarray", "subshape[...]"])

p("C21", "Records keep their fields, names and order exactly as given",
  "A record built from a list, iterator, ordered mapping or bracket literal has one entry per given field, in the given order, with text names and normalised types, and all its views (fields, names, types, mapping, item access) agree. Duplicate names raise ValueError and malformed bracket literals raise TypeError.",
  ["inputs"], "every list of fields, every input form, every position of a duplicate or malformed entry",
  "tests build records of two or three fields in one form",
  [CT], [("record construction", CT), ("bracket literal unpacking", CT), ("duplicate check", CT)], observe=["Record(...)", "Record[...]", "fields", "names", "types", "dict"])

p("C22", "Results do not depend on hash seed or set iteration order",
  "No observable result of parsing, printing, comparing, discovering, unifying, promoting or asserting (value, text or which error) depends on the iteration order of a set or on Python's hash seed.",
  ["schedules", "inputs"], "every iteration order of every set the code builds, for every input that is not itself a set",
  "the test run fixes one hash seed",
  [DI, IU, CT, TS], [("topological sort over sets", IU), ("minimum by topological rank", DI), ("sorted keys of mappings", DI), ("ordered type sets", TS)], observe=["every public result"])

p("C23", "Type sets contain exactly their members and maxtype is the widest of a kind",
  "The signed, unsigned, integral, floating, complex, boolean, real, numeric and scalar sets contain exactly the types of those kinds, membership agrees with iteration, and union holds the members of both. For every numeric type the super type is the smallest named kind containing it, and the maximum type is the widest member of that kind, is idempotent, keeps the option mark and leaves booleans, decimals and time deltas unchanged; a non-numeric type is rejected.",
  ["inputs"], "every sized type, optional or not, against every named set",
  "tests check some types against some sets",
  [TS], [("named sets", TS), ("super type table", TS), ("widest by item size", TS)], observe=["in", "|", "supertype", "maxtype", "matches_typeset"])

p("C24", "Datashapes are well formed by construction and multiplication composes them",
  "A constructed datashape holds its dimensions in order followed by exactly one measure; a dimension in last place, a measure before it, a negative fixed dimension or a value that is not a type raises TypeError or ValueError. Multiplying an integer, text or dimension with a measure, datashape or text to its right gives the datashape with all dimensions in reading order and the right-most measure, and datashapes nested in a datashape are unwrapped.",
  ["inputs"], "every number and kind of dimensions, every measure, every grouping of a product, integers and text in any place",
  "tests multiply one or two examples; each operand order takes a different reflected method",
  [CT, UT], [("class of each parameter checked on construction", CT), ("normalisation of parameters", CT), ("multiplication and reflected multiplication", CT)], observe=["DataShape(...)", "*", "dshape(...)", "shape", "measure", "len", "indexing"])

p("C25", "Concatenating datashapes adds the first dimension and keeps the rest",
  "Concatenating one or more datashapes with equal trailing dimensions and measure gives a fixed leading dimension that is the sum of theirs followed by the common rest, in any order of the inputs. An empty list or a mismatch in any trailing part raises ValueError, and a leading dimension of several that is not fixed raises TypeError.",
  ["inputs"], "every number of datashapes, every leading size, every position of a mismatch",
  "tests concatenate two or three examples",
  [UT], [("sum of leading dimensions, comparison of the rest", UT)], observe=["cat_dshapes"])

p("C26", "Syntax errors point at the offending token",
  "Every syntax error carries the text it is about, the position, line and column of the offending token in that text, and its message shows that line with a marker under that column. The offending token is the first one at which the text stops being the beginning of a datashape, or belongs to the dimension or keyword directly before it that lacks its asterisk or equals sign; where the text ends too early it is the end of the last token; an unknown character is its own token.",
  ["inputs"], "every malformed text, with any line layout",
  "tests check positions of a few errors",
  ["datashape/error.py", PA], [("position arithmetic", "datashape/error.py")], observe=["DataShapeSyntaxError"])

p("C27", "Equivalent spellings of units and encodings are the same type",
  "Every documented spelling of a string encoding and every documented spelling of a time unit (short, singular and plural) is normalised on construction to one canonical parameter, so that types built from equivalent spellings are equal, and spellings of different units or encodings are never identified. Any other non-empty text raises ValueError.",
  ["inputs"], "every documented spelling; any other text",
  "tests try a few spellings; confusing two units is only visible for that spelling",
  [CT], [("encoding table", CT), ("time unit tables and plural handling", CT)], observe=["String(...)", "TimeDelta(...)", "normalize_time_unit"])

p("C28", "Slicing a fixed dimension gives the number of selected elements",
  "Indexing a fixed dimension with any slice gives a fixed dimension equal to the number of positions that slice selects from a sequence of that length, followed by the other dimensions and the measure as they were, also when the slice stands in a tuple of indices. A step of zero raises ValueError.",
  ["inputs"], "every length, start, stop and step", "tests slice a few examples",
  [CT], [("slice arithmetic", CT)], observe=["subshape[a:b:c]"])

p("C29", "Text that looks like a number, date or time is discovered as one",
  "Discovery of text never fails. It gives null for the empty text; otherwise the type of the first reading that accepts the text among integer, float, one of the words True, true, False and false, a whole number followed by a documented time unit (a time delta of that unit), and a time of day; otherwise string for text that is all letters or all blank; otherwise a date or a datetime when dateutil reads the text (a date when the time it reads is exactly zero), and string when it does not.",
  ["inputs"], "every text", "tests try a few dozen strings",
  [DI], [("coercions tried in order", DI), ("number with a unit", DI), ("date or datetime", DI)], observe=["discover(text)"])

p("C30", "Deeply nested or very long datashapes are handled in bounded resources",
  "Parsing and printing take time and stack proportional to the text, for any nesting depth.",
  ["inputs"], "every size and depth", "tests use small inputs", [PA, CT], [("recursion", PA)], observe=["dshape", "str"])

p("C31", "Slicing a dimension of unknown length",
  "Indexing a dimension of unknown length (variable or type variable) with any slice fails only for a step of zero (ValueError). Where both bounds count from the front and the step is positive, the new dimension is the number of positions the slice selects from every sequence that is long enough; otherwise it is variable, or that number where it is the same for every long enough sequence. The other dimensions and the measure are as they were, also when the slice stands in a tuple of indices.",
  ["inputs"], "every start, stop and step", "tests slice a few examples",
  [CT], [("slice arithmetic", CT)], observe=["subshape[a:b:c]"])

p("C32", "Every datashape can be rebuilt from its parameters",
  "Calling the class of a datashape or type with its parameters gives the same datashape again: of the same class, equal, with the same hash, text, parameters, attributes and answers to every predicate and conversion; also when the parameters were rebuilt in the same way first. (Sized types such as int32, of which there is one per name, are excepted, except as parts.)",
  ["inputs"], "every class, every parameter", "tests try a few types",
  [CT], [("Mono.parameters and __slots__", CT), ("constructors", CT)], observe=["type(x)(*x.parameters)"])

p("C33", "Parsing uses the given symbol table and nothing else",
  "Parsing with a symbol table builds each part with the entry of that table: a name with the entry of the type or dimension table itself, name[...] and every notation (?, integers, type variables, ellipses, records, tuples, functions) by calling the entry of the constructor table with the arguments as written, in order and by keyword. Where the table lacks the entry, a syntax error is raised, even if the default table has it. Symbol tables share nothing: a new one has exactly the default entries (a bare one none), and changing one changes no other; dshape uses the default table, with what was added to it.",
  ["inputs", "histories"], "every text, every content of the tables", "tests use the default table",
  [PA, "datashape/type_symbol_table.py"], [("symbol lookups", PA), ("TypeSymbolTable", "datashape/type_symbol_table.py")], observe=["parse(text, sym)", "TypeSymbolTable"])

p("C34", "A failed datashape assertion names the place that differs",
  "When the assertion that two datashapes are equal fails on a difference inside them, the last line of its message is the path to it: attributes and indices that, applied to both datashapes, lead through the parts around the difference to two parts that differ; where two dimensions at the same position differ, to those dimensions. The path is missing only where the arguments themselves are what differs.",
  ["inputs"], "every difference in every context", "tests check a few messages",
  ["datashape/util/testing.py"], [("path arguments", "datashape/util/testing.py")], observe=["assert_dshape_equal"])

p("C35", "Collecting finds exactly the outermost parts that satisfy a predicate",
  "For every predicate, collect(predicate, x) gives the outermost parts of x for which the predicate answers with a true value, each once for every place where it stands, in reading order: dimensions before the measure, fields, items, arguments and results, keys and values, and what options, units and categories are of, at every depth of a datashape, a bare type, or a list or tuple of types. Searching for a class of parts with `has` agrees.",
  ["inputs"], "every datashape, every predicate", "the tests try a few datashapes",
  [UT], [("recursion over the parameters", UT)], observe=["datashape.util.collect", "datashape.util.has"])

p("C36", "Every form of a datashape gives the same one",
  "dshape gives equal datashapes, with the same text, hash, dimensions and measure, for a datashape, for its parts as a list or a tuple, however the last of them are grouped into datashapes of their own, and for a measure alone (only which may come back as it is, and not as a datashape); what it gave comes back when given again. dshapes gives one result for each of its arguments, in their order, the one that dshape gives, and fails when dshape fails on one of them.",
  ["inputs"], "every datashape, every grouping of its parts, every number of arguments", "tests try a few forms",
  [UT, CT], [("dshape and dshapes", UT), ("normalisation of parameters", CT)], observe=["dshape(...)", "dshapes(...)"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
