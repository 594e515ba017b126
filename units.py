# property -> units (verus/<unit>.vrs), executable oracle (harness/src/bin/<bin>.rs), oracle seconds (quick, thorough)
ARITH = "machine arithmetic is checked as machine arithmetic (no mathematical-integer abstraction of executable code)"
PROPS = {
    "P01": dict(units=["optimizer"], bin="p01", secs=(15, 240), assume=[
        ARITH,
        "count_uses: body not verified (only its termination/absence of effect matters: the rewrite is meaning-preserving whatever it returns)",
        "normal-form soundness: equal normal forms mean equal C behaviour (argued in DESIGN.md, cross-checked by the interpreter oracle)"],
        note="Every function of the optimiser is proved, for all HIR functions, to return a function with the same normal form (a denotation that only quotients by constant evaluation, statically decided branches and single-use forwarding). Assumes the normal form is sound for C behaviour; count_uses is trusted for termination only.",
        theorems=["optimize", "optimize_function", "fold_constants_expr", "fold_constants_stmts", "eliminate_dead_branches", "eliminate_temporaries_returning"]),
    "P02": dict(units=["fold"], bin="p02", secs=(10, 120), assume=[ARITH],
        note="The constant folder is proved to return exactly the C value of the expression it replaces, or to leave it alone when C leaves the result undefined, for all 32-bit operands.",
        theorems=["fold_constants_expr", "fold_binary_int", "fold_unary_int"]),
    "P03": dict(units=["lowering"], bin="p03", secs=(10, 120), assume=[
        ARITH, "derived Clone is the identity", "the parser's AST is the starting point (clang and the AST builder are outside the property)"],
        note="from_ast_type / expression / statement / parameter / function / class / namespace are proved, for all ASTs, to build the IR that corresponds node by node (relation cor_* in lowering_spec.vinc); constructors and accessors of the IR functions are under contract too.",
        theorems=["from_ast_type", "from_ast_expression", "from_ast_statement", "from_ast_function", "from_ast_class", "from_ast_namespace"]),
    "P04": dict(units=["cache"], bin="p04", secs=(10, 120), assume=[
        ARITH, "SHA-256: equal digests mean equal contents (collision freedom)", "files do not change while one insert or get runs", "fewer than 2^64 lookups",
        "std HashMap, std::fs::read and the sha2 crate behave as their assumed contracts in verus/maps.vinc and verus/cache.vrs say",
        "saving and reloading the cache (serde_json round trip) is covered by the oracle only"],
        note="insert, get, compute_hash, clear, statistics are proved for all cache states, files and dependency lists; lemmas never_stale and never_lost lift the contracts to any history of calls. Save/load is only exercised by the oracle.",
        theorems=["insert", "get", "compute_hash", "never_stale", "never_lost"]),
    "P05": dict(units=["deps"], bin="p05", secs=(10, 120), assume=[
        ARITH, "petgraph's DiGraph, is_cyclic_directed, toposort and Topo behave as their assumed contracts in verus/deps.vrs say (Topo visits an acyclic graph's nodes once each, tails of edges first)",
        "paths are compared as Path values; Path::join/parent/exists and file contents are uninterpreted", "str::lines and str::trim are uninterpreted; a string is shorter than 2^63 bytes",
        "an include reaches a listed file only if directory/name is that file's listed path (no resolution of .. or symbolic links)"],
        note="Every method of DependencyGraph and extract_dependencies is proved for all graphs, files and include texts: the graph invariant, the edges from_files creates, the order topological_sort returns and when it refuses.",
        theorems=["topological_sort", "from_files", "parse_include_directives", "extract_dependencies", "has_header_guard", "add_file", "add_dependency"]),
    "P06": dict(units=["dedup"], bin="p06", secs=(20, 180), assume=[
        ARITH, "std HashMap (insert/get/into_values) and slice::sort_by (a permutation) behave as their assumed contracts in verus/maps.vinc say",
        "that the three pipelines call these helpers, the name order and run-to-run determinism are covered by the oracle only"],
        note="deduplicate_functions is proved to return each function name once, from a definition whenever one exists; global_definitions is proved to return each defined global once, the initialised definition whenever one exists, and no extern reference. The pipelines around them are exercised by the oracle.",
        theorems=["deduplicate_functions", "global_definitions"]),
    "P07": dict(units=["locks"], bin="p07", secs=(10, 120), assume=[
        ARITH, "std HashMap, HashSet and format! behave as their assumed contracts in verus/maps.vinc and verus/fmt.vinc say",
        "a mutex is named by the variable in pthread_mutex_lock(&m) / pthread_mutex_unlock(&m); other ways to lock are not recognised (not part of the property)"],
        note="Every function of the lock analysis and the lock discipline checker is proved for all function bodies: the regions found, the data each lock protects (every kind of statement and expression, any nesting), the unprotected accesses reported, the unlock/lock mismatches counted and the pairs of functions whose lock orders conflict.",
        theorems=["find_lock_regions", "analyze_lock_data_mapping", "check_unprotected_access", "check_lock_discipline", "check_deadlock_risk", "check_all"]),
    "P08": dict(units=["exprgen", "literals"], bin="p08", secs=(10, 120), assume=[
        ARITH, "std HashMap and format! behave as their assumed contracts in verus/maps.vinc and verus/fmt.vinc say",
        "how Rust reads and evaluates the texts of the integer fragment is assumed as the grammar axioms of verus/exprgen_spec.vinc (module rg); the bounded oracle p08 tests them against syn",
        "the integer operations / % << >> & | ^ are uninterpreted and assumed to be the same function in C and Rust where both are defined",
        "termination of the mutually recursive generators is not proved (partial correctness)",
        "generators of expressions outside the fragment are external_body: their text is not read by any contract of this unit",
        "the token of an integer constant comes from libclang (extract_int_literal); str::trim_end_matches, strip_prefix, starts_with and i32::from_str_radix as in their assumed contracts in verus/strings.vinc and verus/literals.vrs"],
        note="Every function that writes the text of an integer expression is proved, for every expression tree of the fragment (variables, int literals, the 18 binary operators, - ! ~, ?:, casts to int): the text is an expression of Rust, reads back with the tree's grouping, has the type its place needs and, wherever C defines a value, the same value. The parser reads every decimal, octal and hexadecimal constant of int range as the value C gives it.",
        theorems=["parse_int_literal", "generate_expression_with_target_type", "generate_expression_with_context", "gen_expr_binary_op", "gen_expr_logical_not", "gen_expr_unary_op", "gen_expr_ternary", "gen_expr_cast", "gen_expr_variable"]),
    "P09": dict(units=["stmtgen"], bin="p09", secs=(25, 240), assume=[
        ARITH, "std HashMap and format! behave as their assumed contracts in verus/maps.vinc and verus/fmt.vinc say",
        "how Rust reads statements is assumed as the reader axioms of verus/stmtgen_spec.vinc (module rs) and of verus/exprgen_spec.vinc (module rg); what both languages' statements then do is defined in verus/sem.vinc; the bounded oracle p09 parses the real text with syn and runs it",
        "the contracts of the expression generators are those proved in unit exprgen (P08)",
        "an int variable without initializer is read as 0; no case of a switch falls through; a C identifier contains no # (ax_c_ident)",
        "that a labeled jump is accepted by rustc where it stands (E0695), calls, and the assembly of signature, parameters and body into a function are checked by the bounded oracle p09 only, as is everything before the code generator (the C parser, the HIR converter)",
        "termination of the mutually recursive generators is not proved (partial correctness)",
        "generate_deref_assignment_statement, generate_array_index_assignment_statement, generate_field_assignment_statement, generate_malloc_expr_init and generate_malloc_funcall_init are external_body: their text is not read by any contract of this unit"],
        note="Every function of the statement generator that writes int declarations, assignments, return, if, while, for, switch, break and continue is proved, for every nesting and every scope: the text reads back as Rust statements that, started in a state with the same values of the C variables in scope, do what the C statements do (same values of the variables in scope, same jump, same return value, same divergence), with the declarations of inner blocks out of scope afterwards.",
        theorems=["generate_statement_with_context", "generate_block", "generate_declaration_statement", "generate_assignment_statement", "generate_return_statement", "generate_if_statement", "generate_while_statement", "generate_for_statement", "generate_switch_statement"]),
    "P10": dict(units=["slices"], bin="p10", secs=(40, 300), assume=[
        ARITH, "std HashMap behaves as its assumed contracts in verus/maps.vinc say",
        "a C function has no two parameters of the same name; derived Clone is the identity",
        "str::to_lowercase, String::contains, has_array_indexing, has_pointer_arithmetic, uses_pointer_arithmetic, statement_mutates_variable and classify_initialization are external_body with no contract: which pointer is taken for an array may depend on them, what is done with it then may not",
        "every call passes a length that is at most the number of elements, and that the code generator prints the transformed function and its calls as Rust with the same behaviour, is checked by the bounded oracle p10 only (rustc compiles and runs the result)",
        "DataflowAnalyzer::detect_use_after_free is under a frame contract only"],
        note="Proved for all functions: a parameter is removed only if it is the length of the slice made from the parameter before it and neither is given another value anywhere in the body; every other parameter stays, in order; an array that is written (directly, by ++, by compound assignment, or by a call it is passed to) becomes a mutable slice; the body differs only in that each use of a removed length, anywhere, reads the length of its slice and *(p + i) / *(p - i) are the elements i / -i; and the table the calls are generated from lists exactly the removed parameters.",
        theorems=["transform_function", "transform_parameters_with_array_detection", "transform_expression_with_length_replacement", "transform_statement_with_length_replacement", "is_reassigned", "is_mutable_array", "get_array_parameters", "transform", "build_slice_func_arg_mappings", "lem_missing"]),
    "P11": dict(units=["printf", "literals"], bin="p11", secs=(15, 180), assume=[
        ARITH,
        "generate_expression_with_context, generate_expression_with_target_type, infer_expression_type, wrap_with_cstr and wrap_raw_ptr_with_cstr are external_body: the text of an argument, its text as a given type and its inferred type are uninterpreted functions of the argument and the context",
        "the reader rd/body_ok of printf_spec.vinc is Rust's grammar of string literals and format strings, and same_conv lists pairs of conversions that print the same in both languages (both cross-checked by the oracle, which compiles and runs the result)",
        "escape sequences common to both languages do not denote %, { or }; hexadecimal escapes in string literals are outside the proved domain",
        "str::trim keeps quoted text; a Vec has at most isize::MAX bytes; char::is_ascii_digit, slice::join, {:02x} and str::contains as in their assumed contracts in verus/strings.vinc, fmt.vinc and printf_spec.vinc",
        "the tokens of a literal come from libclang (extract_string_literal, extract_char_literal): that adjacent literals are joined is covered by the oracle p11 only"],
        note="Proved for all format strings and argument lists: a Rust format string read back by Rust's own grammar has the literal text of the C format and, conversion by conversion, the same width, alignment, fill, precision and radix; the arguments are the C arguments in order; the argument of %c is printed as a character, a comparison as 0 or 1, a string as its characters. String literals denote the same characters after their escapes are converted; a character constant is read as the value C gives it (every ASCII character, simple, octal and hexadecimal escapes) and written as a u8 literal of that value.",
        theorems=["convert_format_specifiers", "convert_c_format_to_rust", "find_string_format_positions", "find_format_positions", "is_boolean_expression", "is_string_ternary", "gen_call_printf", "convert_string_escapes", "gen_expr_string_literal", "parse_char_literal", "strip_quotes", "gen_expr_char_literal"]),
}
NOT_APPLICABLE = []
