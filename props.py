#!/usr/bin/env python3
"""writes properties.jsonl (developer convenience; the output is committed)"""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=()):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=text), why_tests_cant=why,
                  anchors=dict(files=list(files), mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe))))

prop("P01", "Optimising a function never changes what it does",
     "For every function in the intermediate representation, the optimiser returns a function with the same name, return type, parameters and CUDA qualifier whose body, run on the same inputs, performs the same calls with the same arguments in the same order and returns the same value as the original body. Variables keep the declared type that converts their value, names keep referring to the same variable, and no statement that could run is dropped or reordered.",
     ["programs", "inputs"], "all IR functions and all run-time inputs on which the original body has defined C behaviour",
     "the unit tests optimise a handful of two- and three-statement bodies and look at the shape of the result; they never run it and cannot enumerate nestings of folding, dead-branch removal and temporary elimination",
     ["crates/decy-core/src/optimize.rs", "crates/decy-hir/src/lib.rs"],
     [("optimize_function", "crates/decy-core/src/optimize.rs"), ("fold_constants_stmt", "crates/decy-core/src/optimize.rs"), ("remove_dead_branches", "crates/decy-core/src/optimize.rs"), ("eliminate_temporaries", "crates/decy-core/src/optimize.rs")],
     ["decy_core::optimize::optimize_function"])
prop("P02", "Constant folding computes C's 32-bit int results or leaves the code alone",
     "Whenever the optimiser replaces an operation on integer constants by a constant, that constant is the value C gives to the operation on 32-bit int operands (truncating division, two's-complement shifts and bit operations, 0/1 comparisons). Where C leaves the result undefined (overflow, division by zero, INT_MIN / -1, shift counts outside 0..31) the expression is left as it is, and folding never panics.",
     ["inputs"], "all pairs of 32-bit operands and all operators, at any nesting depth",
     "2^64 operand pairs per operator; the tests fold about twenty small literals",
     ["crates/decy-core/src/optimize.rs"],
     [("fold_constants_expr", "crates/decy-core/src/optimize.rs"), ("fold_int_binary", "crates/decy-core/src/optimize.rs")],
     ["decy_core::optimize::optimize_function"])
prop("P03", "Lowering keeps every statement, expression, type and operator of the C source",
     "For every parsed C or C++ function, class and namespace, the intermediate representation built from it corresponds to the source node by node: same names, same types (including pointer depth, const, array sizes and signedness), same operators, same operands in the same order, same statements in the same order and nesting, same parameters, and the same literals. Nothing is dropped, duplicated, swapped or replaced by a different operator or type.",
     ["programs"], "all syntax trees the parser can hand over: every node kind, operator and type at any nesting depth",
     "the tests lower one example per node kind; a swapped operand, a dropped else branch or a mapping that collapses two operators only shows for the particular kind and position they do not sample",
     ["crates/decy-hir/src/lib.rs", "crates/decy-parser/src/parser.rs"],
     [("HirType::from_ast_type", "crates/decy-hir/src/lib.rs"), ("HirExpression::from_ast_expression", "crates/decy-hir/src/lib.rs"), ("HirStatement::from_ast_statement", "crates/decy-hir/src/lib.rs"), ("HirFunction::from_ast_function", "crates/decy-hir/src/lib.rs"), ("HirClass::from_ast_class", "crates/decy-hir/src/lib.rs")],
     ["decy_hir::HirFunction::from_ast_function", "decy_hir::HirClass::from_ast_class"])
prop("P04", "The translation cache never answers with a stale translation",
     "At every point of every history of file edits, deletions, cache inserts and lookups, a lookup returns a translation only if the source file and every dependency declared in the cached translation are readable and have exactly the contents they had when that translation was stored; what it returns is that translation, unaltered. A translation whose file and dependencies are all unchanged is always found. Hits and misses count exactly the lookups that found, respectively did not find, an answer, and survive nothing but clear. Saving and reloading the cache changes no answer.",
     ["histories", "inputs"], "all histories of edits, deletions, inserts, lookups, clears, saves and loads over any files",
     "the tests run single insert/edit/get sequences with one dependency; staleness bugs need a particular history (a dependency deleted, restored, edited after another lookup)",
     ["crates/decy-core/src/lib.rs"],
     [("TranspilationCache::insert", "crates/decy-core/src/lib.rs"), ("TranspilationCache::get", "crates/decy-core/src/lib.rs"), ("TranspilationCache::compute_hash", "crates/decy-core/src/lib.rs"), ("TranspilationCache::save/load", "crates/decy-core/src/lib.rs")],
     ["decy_core::TranspilationCache"])
prop("P05", "Build order puts every file after the files it depends on, or reports a cycle",
     "For every set of files and declared dependencies, the build order lists each added file exactly once and each file after all files it depends on; an error is reported exactly when the dependencies are circular (a file including itself counts). Building the graph from C files records a dependency exactly when a listed file has an #include line whose name (the text between the first quote or angle bracket and its closing partner), taken relative to the including file's directory, is a listed file; a file that cannot be read is an error. The dependencies a translated file declares are exactly the existing files named by its quoted include lines, in order. Reading include lines never panics, whatever the text.",
     ["inputs", "histories"], "all dependency graphs, all sequences of add_file and add_dependency, all file contents (including non-ASCII text and malformed directives)",
     "the tests build graphs of two to four files; ordering and cycle bugs need particular shapes (diamonds, duplicates, self loops), include-parsing bugs particular text after the name",
     ["crates/decy-core/src/lib.rs"],
     [("DependencyGraph::topological_sort", "crates/decy-core/src/lib.rs"), ("DependencyGraph::from_files", "crates/decy-core/src/lib.rs"), ("DependencyGraph::parse_include_directives", "crates/decy-core/src/lib.rs"), ("extract_dependencies", "crates/decy-core/src/lib.rs")],
     ["decy_core::DependencyGraph", "decy_core::transpile_file"])
prop("P06", "Each C function, global and typedef is emitted exactly once, from its definition",
     "For every C file, each entry point (transpile, transpile_from_file_path, transpile_with_box_transform) emits every function declared or defined in it exactly once, with the body of its definition whenever there is one, however many prototypes surround it and in whatever order; functions come out in name order and the same input always gives the same text. transpile and transpile_from_file_path emit every global the file defines exactly once with its initial value (the initialised definition wins over tentative ones, whatever their order), no global that is only declared extern, and each typedef once.",
     ["programs"], "all C files: every mixture and order of prototypes, extern declarations, tentative and initialised definitions and repeated typedefs",
     "the tests contain one or two duplicated declarations in one order; which declaration wins depends on the order and, before a fixed order was introduced, on hash seeds",
     ["crates/decy-core/src/lib.rs"],
     [("deduplicate_functions", "crates/decy-core/src/lib.rs"), ("global_definitions", "crates/decy-core/src/lib.rs"), ("transpile_with_includes", "crates/decy-core/src/lib.rs"), ("process_ast_to_rust", "crates/decy-core/src/lib.rs")],
     ["decy_core::transpile", "decy_core::transpile_from_file_path", "decy_core::transpile_with_box_transform"])
prop("P07", "Lock discipline checks report exactly the unprotected uses and lock misuses",
     "For every function body: the locked regions found are exactly the pairs of a pthread_mutex_lock(&m) and the next operation on m when that is its pthread_mutex_unlock(&m); the data reported as protected by m is exactly the variables read or written by statements strictly inside m's regions (in every kind of statement and expression, nested blocks included), mutex operations aside; the accesses reported as unprotected are exactly the uses of protected data by statements outside every region (a nested block's own regions are respected); every unlock of a mutex that is not held and every mutex still held at the end is reported once; and for every list of functions there is one deadlock warning for each pair of functions that acquire two mutexes in opposite orders, whichever function comes first.",
     ["programs"], "all function bodies: every statement and expression kind, nesting depth and interleaving of lock operations; all lists of functions",
     "the tests use straight-line bodies with one or two mutexes and assignments; a missed access needs a particular statement or expression kind, nesting or lock sequence",
     ["crates/decy-analyzer/src/lock_analysis.rs", "crates/decy-verify/src/lock_verify.rs"],
     [("LockAnalyzer::find_lock_regions", "crates/decy-analyzer/src/lock_analysis.rs"), ("LockAnalyzer::analyze_lock_data_mapping", "crates/decy-analyzer/src/lock_analysis.rs"), ("LockAnalyzer::check_lock_discipline", "crates/decy-analyzer/src/lock_analysis.rs"), ("LockDisciplineChecker::check_unprotected_access", "crates/decy-verify/src/lock_verify.rs"), ("LockDisciplineChecker::check_deadlock_risk", "crates/decy-verify/src/lock_verify.rs")],
     ["decy_analyzer::lock_analysis::LockAnalyzer", "decy_verify::lock_verify::LockDisciplineChecker"])
prop("P08", "Integer expressions keep their value and grouping in the generated Rust",
     "For every expression built from int variables, int literals (decimal, octal or hexadecimal), the arithmetic, comparison, logical, bitwise and shift operators, unary - ! ~, the conditional operator and casts to int, nested to any depth, wherever it stands (returned value, initializer, assigned value, condition, operand): the Rust text generated for it is an expression that Rust parses with the same grouping and accepts as having the type its place needs (i32, or bool for a condition), and for all values of the variables for which C defines a result it evaluates to that result; variables whose names are Rust keywords are written as raw identifiers everywhere.",
     ["programs"], "all expression trees of the fragment, all variable values, all places",
     "a lost parenthesis, a wrong conversion between bool and int or a wrong operator shows only for particular nestings of operators; the tests compare fragments of text of a few shapes and never evaluate it",
     ["crates/decy-codegen/src/expr_gen/", "crates/decy-codegen/src/lib.rs", "crates/decy-parser/src/extract/expressions.rs"],
     [("CodeGenerator::generate_expression_with_target_type", "crates/decy-codegen/src/expr_gen/mod.rs"), ("CodeGenerator::gen_expr_binary_op", "crates/decy-codegen/src/expr_gen/binary_ops.rs"), ("CodeGenerator::gen_expr_unary_op", "crates/decy-codegen/src/expr_gen/calls.rs"), ("CodeGenerator::gen_expr_ternary", "crates/decy-codegen/src/expr_gen/misc.rs"), ("CodeGenerator::gen_expr_variable", "crates/decy-codegen/src/expr_gen/literals.rs"), ("parse_int_literal", "crates/decy-parser/src/extract/expressions.rs")],
     ["decy_codegen::CodeGenerator::generate_function", "decy_codegen::CodeGenerator::generate_expression"])
prop("P09", "Statements and control flow keep their meaning in the generated Rust",
     "For every function body built from declarations of int variables, assignments, if/else, while, for (with any number of initializing and incrementing parts, with or without a condition), switch (on integer and character constants), break, continue and return, nested to any depth and with names redeclared in inner scopes: the generated Rust compiles and, for all values of the parameters and of the variables for which C defines the run, does the same steps, ends loops and switches at the same points, runs the increment after continue, leaves every variable of an enclosing scope with the value C leaves it, returns the same value (from main: exits with the same status) and makes the same calls in the same order.",
     ["programs"], "all statement trees of the fragment, all variable values, all numbers of loop turns",
     "a jump to the wrong place, a variable that shadows another, or an increment skipped by continue shows only for particular nestings of loops, switches and scopes; the tests compare fragments of generated text and never run it",
     ["crates/decy-codegen/src/stmt_gen.rs", "crates/decy-codegen/src/lib.rs"],
     [("CodeGenerator::generate_statement_with_context", "crates/decy-codegen/src/stmt_gen.rs"), ("CodeGenerator::generate_for_statement", "crates/decy-codegen/src/stmt_gen.rs"), ("CodeGenerator::generate_switch_statement", "crates/decy-codegen/src/stmt_gen.rs"), ("CodeGenerator::generate_block", "crates/decy-codegen/src/stmt_gen.rs")],
     ["decy_codegen::CodeGenerator::generate_function", "decy_core::transpile"])
prop("P10", "Functions do the same when array and length parameters become slices",
     "For every program of functions that take int arrays as pointer and length parameters (in any number and any order with other parameters), index them, read and write their elements, change or recompute their length parameters, use lengths anywhere in statements and expressions, and call each other with whole arrays or with a length of at most the array's size: whichever pointers are turned into slices and whichever length parameters are dropped, the generated Rust compiles, every function sees the elements and the length its caller passed, writes to elements are visible to the caller as in C, and the program returns the same value.  On the IR: a dropped parameter is the length of the slice before it, it and the array are never given another value in the body, every use of it reads the length of that slice, an array that is written is a mutable slice, and nothing else of the function changes.",
     ["programs"], "all functions on int arrays with lengths, all bodies, all calls that pass no more than the array's size",
     "which parameters are dropped depends on every use anywhere in the body (a for increment, a switch case, the argument of a nested call); the tests look at a few bodies and never run the result",
     ["crates/decy-ownership/src/borrow_gen.rs", "crates/decy-ownership/src/array_slice.rs", "crates/decy-ownership/src/dataflow.rs", "crates/decy-core/src/lib.rs", "crates/decy-codegen/src/expr_gen"],
     [("BorrowGenerator::transform_function", "crates/decy-ownership/src/borrow_gen.rs"), ("DataflowGraph::get_array_parameters", "crates/decy-ownership/src/dataflow.rs"), ("DataflowGraph::is_mutable_array", "crates/decy-ownership/src/dataflow.rs"), ("ArrayParameterTransformer::transform", "crates/decy-ownership/src/array_slice.rs"), ("build_slice_func_arg_mappings", "crates/decy-core/src/lib.rs")],
     ["decy_core::transpile", "decy_ownership::borrow_gen::BorrowGenerator::transform_function", "decy_ownership::array_slice::ArrayParameterTransformer::transform"])
prop("P11", "printf prints the same text",
     "For every printf statement whose format is a string literal (one literal or several adjacent ones, any ASCII text, braces, quotes, backslashes, %% and escape sequences included) with the conversions d, i, u, x, X, o and c (any of the flags - and 0 where C defines them, a width of up to four digits) and s (string literals, a choice between two of them, const char * parameters and char pointer variables that hold a literal; with - and a width, with a precision, or plain), in any number and order, and integer, character, comparison and string arguments to match: the generated Rust compiles and prints exactly the bytes the C program prints, each argument by the conversion at its own position.  Outside: the flags +, space and #, *, the precision of an integer conversion, floating point, right-aligned %s with a width, length modifiers, braces or percent signs written as numeric escapes, NUL, and printf's return value.",
     ["programs"], "all formats over the listed conversions, all argument lists, all values",
     "a format is a small language of its own: a brace in the text, a flag before a width, or one conversion the position counter does not know shifts or changes what every later argument prints; the tests try single conversions one at a time and look for a substring of the output",
     ["crates/decy-codegen/src/expr_gen/misc.rs", "crates/decy-codegen/src/expr_gen/calls.rs", "crates/decy-codegen/src/expr_gen/literals.rs", "crates/decy-codegen/src/expr_gen", "crates/decy-parser/src/extract/expressions.rs"],
     [("CodeGenerator::convert_format_specifiers", "crates/decy-codegen/src/expr_gen/misc.rs"), ("CodeGenerator::find_format_positions", "crates/decy-codegen/src/expr_gen/misc.rs"), ("CodeGenerator::gen_call_printf", "crates/decy-codegen/src/expr_gen/calls.rs"), ("CodeGenerator::convert_string_escapes", "crates/decy-codegen/src/expr_gen/literals.rs"), ("parse_char_literal", "crates/decy-parser/src/extract/expressions.rs")],
     ["decy_core::transpile", "decy_codegen::CodeGenerator::generate_expression"])
if __name__ == "__main__":
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
