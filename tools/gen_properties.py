#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that long statements stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, **kw):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": "no"}
    a.update(kw)
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

D = "crates/dreammaker/src/"
prop("P01", "Interval tree is an ordered multimap with exact overlap queries",
 "After any sequence of insertions, removals and merges, the interval tree holds exactly the values inserted under each interval and not since removed, each interval's values in insertion order. Iteration (borrowing or consuming) yields every interval once in ascending order of start, then end; an overlap query yields exactly the stored intervals that share a point with the queried one, in that same order; lookup, minimum, maximum and emptiness agree with this content. The height stays logarithmic in the number of stored intervals, as for an AVL tree.",
 ["histories", "inputs"], "every finite history of insert/remove/merge over every set of closed intervals, and every query after every prefix",
 "The repository's tests fix a few small trees plus one random insert/remove loop that only checks balance and membership; ordering, overlap queries after rotations and deletions, and duplicates are sampled at a handful of points.",
 ["crates/interval-tree/src/tree.rs", "crates/interval-tree/src/node.rs", "crates/interval-tree/src/iterators.rs"],
 [("AVL insert/delete with subtree-maximum maintenance", "crates/interval-tree/src/node.rs"), ("pruned in-order range iteration", "crates/interval-tree/src/iterators.rs")])

prop("P02", "Conditional compilation keeps exactly the active branches",
 "Of each #if/#ifdef/#ifndef ... #elif ... #else ... #endif chain, at any nesting depth, text, directives and macro changes take effect only in the first branch whose condition holds with the macros in force where that branch is reached, provided every enclosing branch is active too; everything in other branches leaves no trace in the output, the macro table or the diagnostics it would otherwise raise (only a directive of unknown name is reported wherever it stands). A stray #endif, #else or #elif and a chain still open at the end of the input are each diagnosed, and only those are.",
 ["programs"], "every program built from text, macro definitions and conditional directives, at every nesting depth and in every order, including malformed chains",
 "Which branch survives depends on the whole nesting history and on macros changed inside other branches; the tests hold a handful of fixed chains.",
 [D+"preprocessor.rs"], [("conditional stack", D+"preprocessor.rs: struct Ifdef / real_next"), ("condition evaluation", D+"constants.rs: preprocessor_evaluate")])

prop("P03", "Macro definitions, redefinitions and undefinitions are scoped in source order",
 "At each point of the input an identifier is a macro exactly if the last applicable #define or #undef of that name before it in effective source order (including included files) leaves it defined, and it then has the meaning of that definition: each use is replaced according to the definition in force at the use. #undef of a name that is not defined and #define of a name already defined are reported, and #undef after a redefinition restores the definition that the redefinition had hidden.",
 ["programs", "histories"], "every sequence of #define, #undef, conditionals and uses over any set of names",
 "The state is a history-dependent table; unit tests use one or two defines in a row.",
 [D+"preprocessor.rs"], [("define table with shadowing stack", D+"preprocessor.rs: DefineMap"), ("directive handling", D+"preprocessor.rs: real_next")])

prop("P04", "Macro expansion substitutes arguments, pastes and stringifies faithfully",
 "A use of an object-like macro, or of a function-like macro followed by an argument list, is replaced by its body with each parameter replaced by the tokens of the corresponding argument (the last parameter of a variadic macro taking all remaining arguments with their commas), #param replaced by a string and ## joining its two neighbours; macros produced by an expansion are expanded in turn. A function-like macro not followed by an argument list stays as plain text. Self- or mutually-recursive macros never hang or crash the preprocessor: expansion stops with a diagnostic.",
 ["programs"], "every set of macro definitions and every nesting of uses and arguments, including commas, parentheses and strings inside arguments",
 "Expansion is a rewriting system over unbounded token sequences; tests cover a dozen fixed macros.",
 [D+"preprocessor.rs"], [("expansion of identifiers and arguments", D+"preprocessor.rs: prepare_include_file.. real_next / read_arguments"), ("recursion bound", D+"preprocessor.rs: MAX_RECURSION_DEPTH")])

prop("P05", "Macro history answers match what the preprocessor had at that point",
 "After a whole project has been preprocessed, re-preprocessing one of its files from the recorded macro history starts with exactly the macro definitions (names and meanings) that were in force when that file was first included, and branching at the end of the project has exactly the final macro table. Re-processing an unchanged file in this way therefore yields the same tokens as it contributed to the full run.",
 ["programs", "histories"], "every include tree and every interleaving of definitions, redefinitions and undefinitions across files",
 "The language server depends on it for every edited file of a project; the existing tests exercise no multi-file histories.",
 [D+"preprocessor.rs"], [("definition intervals", D+"preprocessor.rs: DefineHistory, move_to_history, finalize"), ("branching", D+"preprocessor.rs: branch_at_file, branch_at_end")])

prop("P06", "Each file is included in order, once, and found by the documented search order",
 "A quoted #include splices the contents of the included file at the point of the directive, and the including file continues afterwards; a file that has already been included is skipped (unless it asked to allow multiple inclusion), however its path is spelled, so inclusion terminates even for cyclic includes. A relative path is looked up beside the including file first and then relative to the environment's directory, a missing file is diagnosed without ending the run, and map, skin and script files are not read as code.",
 ["configurations", "programs"], "every finite include graph over files in several directories, including cycles, diamonds and missing files",
 "Behaviour depends on the shape of an include graph on disk, which no unit test builds.",
 [D+"preprocessor.rs"], [("include stack", D+"preprocessor.rs: IncludeStack, prepare_include_file"), ("include-once set", D+"preprocessor.rs: include_locations")])

prop("P07", "Indentation and explicit braces are equivalent block syntax",
 "For any consistently indented source (tabs or spaces), the token stream handed to the parser is the input's own tokens in order, with an opening brace inserted where a line is indented one level deeper than its predecessor, as many closing braces as levels are left where it is shallower, and a separator between sibling lines; braces are always balanced at the end of the input. Line breaks inside parentheses change nothing, blank and comment-only lines are ignored, and explicit braces combine with indentation. Inconsistent indentation and unmatched closing braces are diagnosed, consistent input is not.",
 ["programs", "inputs"], "every arrangement of lines, indentation depths and widths, parentheses and explicit braces",
 "Nesting and dedent combinations grow exponentially; tests fix a few.",
 [D+"indents.rs"], [("indentation state machine", D+"indents.rs: IndentProcessor::real_next")])

prop("P08", "The lexer accounts for every character and gives every token its true position",
 "For any input text the lexer terminates and yields tokens in source order, each carrying the 1-based line and column of its first character. Tokens are formed by longest match; nested block comments, line comments and escaped line breaks produce nothing; string literals (quoted, block, raw, with nested interpolation) yield their exact text and their embedded expressions; numbers in every notation yield their value. Unterminated comments, strings, resources and raw strings are diagnosed and well-formed input is not. (Lines are shorter than 65535 characters.)",
 ["inputs"], "every character sequence", "Interactions of nested comments, strings, interpolation and line continuation are combinatorial; tests lex a few fixed snippets and seldom check positions.",
 [D+"lexer.rs"], [("scanner", D+"lexer.rs: Lexer::next"), ("positions", D+"lexer.rs: LocationTracker")])

prop("P09", "Expressions parse with the documented precedence and associativity",
 "Every expression built from the language's unary, binary, ternary and assignment operators parses to the tree given by the language reference's precedence table: operators higher in the table bind tighter, equal ones group to the left, assignments and conditionals group to the right, prefix operators apply after suffix operators, and parentheses override all of this. Well-formed expressions parse without diagnostics.",
 ["inputs"], "every operator tree, rendered with any mixture of required and redundant parentheses",
 "The table has some fifty operators; tests check a few pairs, while errors hide in triples and in ternary/assignment/`in` mixtures.",
 [D+"parser.rs", D+"ast.rs"], [("operator table and precedence climbing", D+"parser.rs: BINARY_OPS, expression_ex, expression_part, group")])

prop("P10", "Constant folding agrees with the language's run-time semantics",
 "A constant initializer folds to the value the same expression has at run time: + - * / % %% ** and comparisons work on single-precision numbers (comparisons and ! give 0 or 1), %% takes the sign of its right operand, & | ^ << >> ~ on operands in 0..2^24-1 give the low 24 bits of the result, && and || and ?: return the selected operand by truthiness (null, 0 and the empty string are false), == compares kind and value, + joins strings, sin/cos/arcsin/arccos work in degrees, rgb() of three or four components in 0..255 gives the hex string, nameof() the name, and list() and the constructor calls (matrix, icon, newlist, ...) keep their entries in order, a bare name before = being a string key. Operands of the wrong kind (e.g. arithmetic on a string and a number), shifts by 32 or more, and other calls get a diagnostic and no value. Division or remainder by zero and bitwise operators on negative or larger operands are left open.",
 ["inputs"], "every expression tree over numbers, strings, paths and null with every foldable operator",
 "Each operator has its own operand-kind table; tests evaluate a few dozen literals.",
 [D+"constants.rs"], [("folder", D+"constants.rs: ConstantFolder")])

prop("P11", "Constant references resolve through inheritance, scope and cycles correctly",
 "When a variable's initializer mentions other constants, the folded value uses, for each name, the nearest definition visible from the variable's own type (own type, then ancestors, then globals), no matter in which order types and variables are declared or evaluated. A set of initializers that depend on one another cyclically is diagnosed and terminates, and variables that are not on a cycle and do not depend on one still receive their values with no spurious diagnostic. path::x, type::x and parent_type::x look x up from the named type; y.x, where y is null but declared as a type, is that type's const x and an error when it has none; static (non-constant) variables are not evaluated and using one is an error.",
 ["programs"], "every reference graph between variables of every type hierarchy, in every declaration order",
 "Evaluation is recursive with in-progress marks; only whole graphs, orders and cycles expose wrong marks or wrong scopes.",
 [D+"constants.rs", D+"objtree.rs"], [("on-demand evaluation with in-progress marks", D+"constants.rs: constant_ident_lookup, evaluate_all")])

prop("P12", "The object tree reflects every declaration under its path and parent",
 "However declarations are written (absolute paths, nested blocks, mixed, repeated, in any order), the tree contains exactly the declared types and all their path prefixes; each type's parent is its path parent, or the language's fixed base for top-level and atom-derived types, or the type its parent_type variable names. A variable or proc looked up on a type is the one of the nearest ancestor that defines it, subtype tests agree with that ancestor chain, and the last value given to a variable on a type wins. A declared variable has exactly the type and flags (static, const, tmp, final, private, protected) written on the way to it, brackets behind its name making it a list. A parent_type naming no type, or set on a type that cannot have one, is diagnosed; of every parent_type cycle one type is diagnosed and loses its parent; overriding a variable nothing declares is diagnosed.",
 ["programs"], "every set of declarations over every path hierarchy, in every order and nesting style, including parent_type redirection",
 "The tree is the result of whole-program merging; tests parse single snippets.",
 [D+"objtree.rs", D+"parser.rs"], [("type insertion and parent assignment", D+"objtree.rs: subtype_or_add, assign_parent_types"), ("lookup", D+"objtree.rs: TypeRef::get_value/get_proc")])

prop("P13", "Parent-proc calls follow the override chain exactly",
 "For every proc defined or overridden any number of times on any types of the hierarchy, following parent calls from its topmost definition visits each earlier definition on the same type, latest first, and then continues with the topmost definition on the nearest ancestor type that has one, until none is left; no definition is visited twice or skipped. A proc's declaration (verb or proc, final or not) is found from any override, wherever in the source the declaration appears, and duplicate declarations are diagnosed. A declaration written after an override on the same type counts as the earliest definition and gets the override_precedes_definition hint.",
 ["programs"], "every hierarchy, every multiset of definitions and overrides, every declaration order",
 "Order and redirection of parents interact across files; tests use single overrides.",
 [D+"objtree.rs"], [("proc lists", D+"objtree.rs: register_proc"), ("parent chain", D+"objtree.rs: ProcRef::parent_proc")])

prop("P14", "Diagnostic configuration overrides and filters exactly as configured",
 "For every diagnostic raised, the configured level of its named type replaces its severity (or drops it when disabled; unset leaves it alone), and afterwards exactly the diagnostics at or above the configured display threshold are retained, with everything else about them unchanged and in order. Unnamed diagnostics are never overridden. With no configuration, everything is retained as raised.",
 ["configurations", "inputs"], "every combination of per-type levels, threshold, diagnostic type and severity",
 "The product of settings is large and order-sensitive (override before threshold); tests cover none of it.",
 [D+"config.rs", D+"error.rs"], [("severity override and threshold", D+"config.rs: set_configured_severity, registerable_error"), ("registration", D+"error.rs: Context::register_error")])

prop("P15", "Saving a map and loading it again gives back the same map",
 "For any map in memory whose values a map file can express (text, resources, paths, lists, null, and numbers to the six significant digits the format keeps), writing it out and reading it back succeeds and gives a map with the same dimensions and, at every coordinate, the same ordered list of objects with the same paths, variables and values, under the same keys; writing the reloaded map gives byte-identical text.",
 ["inputs"], "every grid size, key set, tile content and variable value, including strings with quotes, escapes, braces, newlines and commas",
 "Round-trip defects need particular value texts or key counts that the fixture maps do not contain.",
 ["crates/dmm-tools/src/dmm.rs", "crates/dmm-tools/src/dmm/save_tgm.rs", "crates/dmm-tools/src/dmm/read.rs", D+"constants.rs"],
 [("writer", "crates/dmm-tools/src/dmm/save_tgm.rs"), ("reader", "crates/dmm-tools/src/dmm/read.rs"), ("value printing", D+"constants.rs: Display for Constant")])

prop("P16", "Loading a map puts every key on the coordinate its text gives it",
 "Reading a map in either file style (rows of keys per level, or one column per block) puts each key of each coordinate block at the block's starting coordinate plus its row and column offset, with the first row of a block the northernmost and the map's y axis growing upwards; each object keeps the path, variables and values its text gives; dimensions are the extents covered. Key lengths of one to three letters, and the order and splitting of the blocks, make no difference. Malformed files (missing or duplicate tiles, mismatched key lengths, truncated text) are reported as errors and never crash the reader.",
 ["inputs"], "every partition of a 3-D grid into blocks in either style, every key length, and every truncation or corruption of the text",
 "The tests only load well-formed fixture files and check that nothing fails.",
 ["crates/dmm-tools/src/dmm/read.rs", "crates/dmm-tools/src/dmm.rs"],
 [("reader state machine", "crates/dmm-tools/src/dmm/read.rs: parse_map"), ("grid layout and coordinates", "crates/dmm-tools/src/dmm.rs: Coord2/Coord3")])

prop("P17", "Icon metadata maps each state, direction and frame to its own cell",
 "For any icon description, each state's cells follow the previous state's without gap or overlap, and for a given state name (and duplicate number), direction and frame the computed sheet cell is the one that state's frames and directions occupy in file order (south, north, east, west, then the diagonals); a direction a state does not have falls back to its first (south). Frame delays, loop, rewind and movement flags are those of the text, and the pixel rectangle is the cell's position in a sheet of the given width, read row by row; a rendered state is made of exactly these cells. Turning, flipping and stepping in a direction follow the compass. Malformed descriptions are reported as errors and never crash.",
 ["inputs"], "every sequence of states with any direction count, frame count, delays, flags and duplicate names, and every query",
 "Offsets accumulate across states, so errors show only for particular combinations; tests load fixture icons.",
 [D+"dmi.rs"], [("metadata parser", D+"dmi.rs: parse_metadata"), ("cell lookup", D+"dmi.rs: rect_of, index_of_dir, index_of_frame")])

prop("P18", "Rendered maps show objects in plane/layer order at their own pixels",
 "A rendered map image shows, at each pixel, the objects of the tiles covering it composited bottom to top in ascending order of plane, then layer, ties kept in map order; each object is placed by its tile and its pixel offsets (y upwards), in its own icon state, direction and colour, and invisible objects are not drawn. Restricting the render to a sub-rectangle gives exactly that part of the picture for the tiles inside it.",
 ["inputs", "configurations"], "every small map of objects with any plane, layer, offset, direction and colour, and every sub-rectangle",
 "Draw order is global over the picture; tests render fixture maps without examining a pixel.",
 ["crates/dmm-tools/src/minimap.rs", "crates/dmm-tools/src/dmi.rs"],
 [("sprite sort and placement", "crates/dmm-tools/src/minimap.rs: generate"), ("compositing", "crates/dmm-tools/src/dmi.rs: composite")])

C = "crates/dreamchecker/src/lib.rs"
prop("P19", "A no-sleep promise is reported exactly when a blocking call is reachable",
 "A proc marked as not allowed to sleep (or inheriting the mark from the proc it overrides) that calls a blocking built-in is diagnosed; and when a chain of calls from a marked proc, including calls dispatched to overrides on subtypes of the receiver and to the definition the caller's own object inherits, can reach an unmarked proc that calls one, without passing through a spawn, a proc that does not wait for its callees, a proc marked as allowed to sleep, another marked proc or another blocking proc, that blocking proc is diagnosed against a marked proc which reaches it (once; its own overrides need not be reported before it is mended). A proc no marked proc can reach in this way is not diagnosed. The analysis terminates on recursive call graphs.",
 ["programs"], "every call graph over every type hierarchy with overrides, parent calls, spawns and marks",
 "Reachability over a dispatch-resolved call graph depends on the whole program and on traversal order; tests pin a few programs.",
 [C], [("call-tree traversal", C+": check_proc_call_tree"), ("call edges", C+": visit_call, recurse_children_within")])

prop("P20", "A purity promise is reported exactly when a side effect is reachable",
 "A proc marked as pure (or overriding such a proc) is diagnosed when it, a proc reachable from it through calls made on the types the code shows, or an override of such a proc which a call can dispatch to, has one of the recognised side effects: it assigns to, increments or decrements a variable of the object or a global, named plainly or through src, global or another variable, or outputs with << to the world, a mob, a list or a savefile. Changing locals, the result or copies of variables is no side effect. A program in which no such side effect is reachable (through any override of anything called) is not diagnosed for purity. A statement which only calls a pure proc by its plain name, dropping the result, is diagnosed. The analysis terminates on recursive call graphs.",
 ["programs"], "every call graph over every type hierarchy with overrides and marks, and every kind of statement",
 "As for sleeping: whole-program reachability, sampled by the tests at a few programs.",
 [C], [("purity traversal", C+": check_proc_call_tree"), ("impure operations", C+": impure_procs, propagate_violations")])

prop("P21", "Proc contracts bind every override below the proc that declares them",
 "A proc marked must-call-parent, must-not-override (or final) or private constrains every override on descendant types: an override that never calls its parent anywhere in its reachable code, overrides at all, or overrides a private proc is diagnosed, unless a nearer setting turned must-call-parent off; must-not-call-parent binds only the direct overrides, which may turn it off. A definition repeated on the same type is noted unless it is marked redefinable. Calls to a private proc from a type other than the one declaring it, and calls on an object to a protected proc from a type that is not the declaring one or below it, are diagnosed. A setting that is unknown, has no truth value, is given twice, turns off what cannot be turned off, or stands on a global proc or a later definition where it may not, is diagnosed and has no effect. Procs, calls and settings that respect all this are not diagnosed.",
 ["programs"], "every hierarchy of overrides with every combination of contract settings at every level, and every call site type",
 "Inheritance of settings along override chains multiplies combinations; tests check one or two levels.",
 [C], [("directive inheritance", C+": ProcDirective::get_self_or_parent"), ("checks", C+": AnalyzeProc::run, visit_call")])

prop("P22", "Unreachable-code reports are exactly the statements after a sure exit",
 "A statement is called possibly unreachable, or a do-while condition never evaluated, only if no execution from the start of its block gets there, whatever non-constant conditions yield and however often loops run. A statement is so reported when the statements before it surely exit: a return or crash, a conditional or switch with a final alternative all of whose branches surely exit in one way (all returning, all breaking or all continuing), or a do loop whose body surely returns; nothing is promised right after a break or continue, nor once a statement may have left the block by one, and once code is unreachable what follows in the same block need not be looked at. Loops that may run zero times, conditionals without a final alternative, spawned blocks and breaks never make later code outside unreachable. Conditions of if and for that are constantly true or false are reported, as are the alternatives after one that is constantly true, and no others.",
 ["programs"], "every nesting of blocks, conditionals, switches, loops and exits",
 "Control-flow merging is compositional over unbounded nesting; tests use a few fixed shapes.",
 [C], [("control-flow summary", C+": ControlFlow, visit_block, visit_statement")])

prop("P23", "Variable protection rules bind every descendant type",
 "A variable declared final or private on a type is diagnosed in every descendant type that gives it a value, and a variable declared again on a descendant is diagnosed, once per declaring ancestor, however many generations lie between, in whatever order the types are declared and whether descent follows from the path or from parent_type. In the body of a proc, using a private variable through an object (with . or ?.) is diagnosed unless the proc is on the type with the nearest declaration of the variable, and using a protected one unless the proc is on that type or one of its descendants. Programs that respect these rules are not diagnosed. Using a variable by its bare name, or through : or ?:, may go unchecked.",
 ["programs"], "every hierarchy with every combination of declarations, overrides and accesses",
 "Rules quantify over all ancestor/descendant pairs; tests check one generation.",
 [C], [("variable definition check", C+": check_var_defs"), ("access check", C+": visit_follow")])

LSM = "crates/dm-langserver/src/main.rs"
prop("P24", "Edited documents in the language server equal the editor's text",
 "After any sequence of open, change and close notifications, the server's text of a document is the text the editor has: opening takes the text given, also when the document was open already; each ranged edit replaces exactly the addressed span, with columns counted in UTF-16 units and a column past the end of its line meaning the end of that line (before its line terminator); edits in one notification apply in order; a closed document is as it is on disk. A change which addresses a line that is not there or ends before it starts, a stale version and an edit of a document which is not open change nothing more and do not end the server. What the server tells about a document afterwards (its symbols) is told of that text, not of an earlier one. (Texts with carriage returns that no line feed follows are left out.)",
 ["histories", "inputs"], "every sequence of edits over texts with multi-unit characters, empty lines and any line count",
 "Offsets after multi-byte characters and multi-edit batches depend on history; the tests have no such case.",
 ["crates/dm-langserver/src/document.rs", LSM], [("document store", "crates/dm-langserver/src/document.rs: DocumentStore, Document::change"), ("annotations kept per document", LSM+": DidOpenTextDocument, DidChangeTextDocument")])

prop("P25", "Smoothed walls pick corners from their true neighbours",
 "In a map rendered with one of the icon smoothing passes, every smoothing object is drawn from exactly the pieces (four corners, a diagonal pair with what shows behind it, or one junction-numbered state) determined by which of its eight neighbouring tiles hold an object it joins with: one of its own type when it has no list, otherwise one on its list (of types, with their subtypes where a flag says so; or of smoothing groups). Tiles outside the map count only where a flag says so, a corner counts only when both sides next to it join, and an object which can be unanchored and is not anchored joins nothing. Objects that do not smooth, broken or burnt floors and icons smoothed beforehand are drawn as they are. (What a closed turf with the diagonal flag and a single joining side looks like is left open.)",
 ["inputs"], "every arrangement of smoothing and other objects on a grid, including the map's edges",
 "There are 2^8 neighbourhoods times join rules; tests check none.",
 ["crates/dmm-tools/src/render_passes/icon_smoothing.rs", "crates/dmm-tools/src/render_passes/icon_smoothing_2020.rs", "crates/dmm-tools/src/render_passes/icon_smoothing_2025.rs"],
 [("adjacency calculation", "crates/dmm-tools/src/render_passes/icon_smoothing.rs: calculate_adjacencies"), ("neighbour lookup", "crates/dmm-tools/src/minimap.rs: Neighborhood")])

prop("P26", "Documentation comments attach to exactly the item they document",
 "A documentation comment about what follows is attached to the type, variable, proc or macro that comes next with nothing but comments, blank lines and conditional directives in between; one about what encloses it is attached to the item before it on its line, or to the type, proc, var or proc block at whose start it stands (for such blocks, to their type), or, at the start of a line outside all blocks, to the file. Every other comment, also in code left out by conditionals, is attached to nothing. Comments of one item are kept in order; their text is what they say without the decoration shared by all lines at either end and without the empty lines around it, consecutive line comments together making one paragraph and each block comment one. Turning documentation into ordinary comments never changes the declarations, their lines or their diagnostics. (Left open: a comment about what encloses it after one about what follows; more than one line of a /** comment when the first says something.)",
 ["programs", "inputs"], "every placement of documentation and ordinary comments around nested declarations",
 "Attachment depends on neighbouring tokens and newlines on both sides; tests check no placement systematically.",
 [D+"docs.rs", D+"parser.rs", D+"indents.rs", D+"preprocessor.rs"], [("comment text", D+"docs.rs: DocCollection::text, simplify"), ("attachment", D+"parser.rs: tree_entry, next_comment_of_target, block_doc_comments"), ("macros", D+"preprocessor.rs: docs_in")])

prop("P27", "Keyword arguments are checked against every proc that may receive them",
 "A call with a keyword argument that the proc it names does not take is diagnosed, naming the proc and its overrides which do; so is each positional argument after a keyword argument. When a call on an object passes by keyword a parameter that the proc it names takes, every override on a descendant of the object's type (the definition which runs there) that lacks the parameter is diagnosed, whether the object's type defines the proc or inherits it; calls which only one proc can receive (parent calls, new, repeated and global calls) concern no override. Calls whose arguments every possible receiver accepts are not diagnosed.",
 ["programs"], "every hierarchy of overrides with differing parameter lists and every set of call sites",
 "Requires relating all call sites to all overrides; tests check single cases.",
 [C], [("keyword bookkeeping", C+": visit_call, check_kwargs, finish_check_kwargs")])

prop("P28", "Damage in a proc's body stays there, and what comes before nonsense is kept",
 "Whatever a source text contains, preprocessing, parsing and checking it end, with an object tree and diagnostics (texts nested thousands of levels deep aside). Tokens put into, left out of or changed in a proc's body, its parentheses, brackets, braces and quotes still closing what they opened, change nothing outside of it: every type, variable, constant, proc, parameter list and other body is as in the undamaged program, and errors are reported within the damaged bodies only. A damaged body is either understood, or reported and left out (its proc stays); one with a closing bracket too many is never understood. A line of declarations which makes no sense is reported there and ends the reading: every declaration before it is in the tree, none after it, and nothing that no line declares.",
 ["inputs", "programs"], "every program with any number of damaged bodies and at most one nonsensical line of declarations; every text for the first sentence",
 "Recovery has to work from every state of the parser; the tests parse valid code only.",
 [D+"parser.rs", D+"indents.rs", D+"preprocessor.rs"], [("a body is split off as a token tree before it is parsed", D+"parser.rs: proc_params_and_body, read_any_tt"), ("a fatal error ends the reading", D+"parser.rs: run, tree_entries")])

prop("P29", "Names in bodies and accesses to values are judged by scopes and static types",
 "For every proc body: a bare name is the innermost local or parameter of that name in a block still open at that point, else the nearest declared var of the proc's type, else a global; a call is of the nearest definition on the type, else of a global proc. The diagnoses are exactly: each use of a name which stands for nothing (var, proc, global, field or proc of an object's declared type, type path, declared type of a variable, parent proc), each field access or proc call on a value without a static type, each list access, increment, decrement or iteration on an object whose type does not allow it, each new without a type where none is implied - once each, at the place. The static type of a value follows from declarations only: of variables and fields, of lists (one /list less for each index), of operator procs, and of procs by their return type annotation, evaluated on the arguments of the call as documented (type, parameter, parameter's type, its elements' type, and || && ?: of these). Accesses through : are not judged.",
 ["programs"], "every program; every nesting of scopes, accesses and calls", 
 "An analysis is right when it is neither silent nor noisy on any program; tests show it single lines.",
 [C, "crates/dreamchecker/src/type_expr.rs"], [("names and follows", C+": visit_ident, visit_term, visit_follow"), ("static types", C+": static_type, visit_call"), ("return type expressions", "crates/dreamchecker/src/type_expr.rs")])

FR = "crates/dm-langserver/src/find_references.rs"
prop("P30", "Going to definitions and finding references follow scopes and declared types",
 "At a name in a proc's body the language server goes to: the innermost local variable or parameter of that name in scope there, else the nearest declaration of a variable of the proc's type, else a global; for a call, the proc of the nearest type defining it, else a global proc; for a member of a value whose declared type is known, the variable or proc nearest to that type; for ..() the parent proc; for a path, the type. It never goes elsewhere, and where a name stands for nothing it goes nowhere (beyond plain chains of names it may also not answer). Finding references of a declared variable, proc or type, asked at its declaration or at a use, lists its declaration and exactly the uses which mean it, in all files, each on its line, also when the same name means something else in other scopes, types or blocks. Its implementations are, for a variable or proc, the places which declare it or give it another value or body, on its type and below; for a type, where it is first written.",
 ["programs"], "every nesting of scopes with shadowing, every hierarchy with inherited and overridden members, every place asked",
 "The meaning of a name depends on all enclosing scopes and the whole type tree; there are no tests.",
 [LSM, FR, D+"parser.rs"], [("requests", LSM+": GotoDefinition, References, GotoImplementation"), ("reference table", FR), ("scopes of locals for the editor", D+"parser.rs: annotate LocalVarScope")])

prop("P31", "Completion, signatures and descriptions tell what can be meant at a place",
 "Somebody typing a name in a proc's body is offered, filtered by the letters typed (anywhere in the name, disregarding case and underscores): where a plain name stands, every local variable and parameter in scope there, every variable and proc of the proc's type in its nearest definition, and every global; after a value whose declared type is known, the variables and procs of that type in their nearest definition (of global., the globals), and nothing after an untyped one; in a type path, the types directly below it, and after proc/ the declared procs of the type; in a declaration on a type, the types below it, the keywords and the variables and procs it may give another value or body. Each is offered once, with the type it comes from, and nothing else of the program is. In a call's arguments the signature shown is that of the proc a call there means, with the argument one is in. The type of a variable under the cursor is that of the declaration the name stands for, and the description shown is the declaration of that variable, or the nearest definition of that proc.",
 ["programs", "inputs"], "every nesting of scopes and hierarchy of types, every place and every beginning of a name",
 "What can be meant depends on all enclosing scopes and the whole type tree; there are no tests.",
 [LSM, "crates/dm-langserver/src/completion.rs"], [("completion", "crates/dm-langserver/src/completion.rs: unscoped_completions, scoped_completions, tree_completions, path_completions"), ("signatures, types, hover", LSM+": SignatureHelpRequest, GotoTypeDefinition, HoverRequest, find_scoped_type")])

prop("P32", "The problems shown and the names listed follow what the texts say now",
 "After the project is read, or read anew, the editor shows for every file exactly the problems that its texts, as they were on disk when read, give: those of reading (up to the point where the texts stop making sense, after which nothing further is read or checked) and, if the checker is enabled, those of checking the whole, each in the file it is in, with what it refers to elsewhere as related information, or for editors which know no such thing, as a problem of its own there. Problems no longer present are withdrawn, also from files no longer there. Without a project, each opened text is checked by itself with every change, and its problems are withdrawn when it is closed. The names a file is said to declare are those of its text: of the one open in the editor if it is open, else of the one on disk when the project was last read.",
 ["histories", "inputs"], "every history of texts changing on disk and in the editor, and of the project being read anew",
 "What is shown depends on the whole history of what was sent before; there are no tests.",
 [LSM, "crates/dm-langserver/src/document.rs"], [("reading the project and publishing", LSM+": Initialized, Reparse, issue_notification publish"), ("single texts", LSM+": get_annotations, DidCloseTextDocument")])

prop("P33", "Doubtful conditions and operators are reported exactly where they stand",
 "Wherever an expression stands in a proc's body, every `in` with an operator (prefix, suffix, binary, assignment or conditional) standing unbracketed on its left is reported as ambiguous, naming that operator, and every `&`, `|` or `^` with an unbracketed `!` on its left; nothing else is. A condition of an if, or of a counting for loop, that is always true or always false by the literals, `!`, `&&`, `||`, conditionals, assigned literals and newly made objects and lists it consists of is reported as such, and none is whose truth may vary; a while loop is free to run for ever. An if or for condition or a switch which is a literal, or a comparison of two, is reported as constant, and none which contains a variable or a call. Of a switch on rand() over a known range, each case outside the range is reported at the case, and if there is no else, the smallest number which no case covers; a case whose one value is an unbracketed `||` is reported too.",
 ["inputs", "programs"], "every expression, every nesting and every set of cases",
 "Depends on how whole expressions group; the tests hold a handful of expressions.",
 ["crates/dreamchecker/src/lib.rs", "crates/dreamchecker/src/switch_rand_range.rs", D+"ast.rs"], [("lints on operators", "crates/dreamchecker/src/lib.rs: visit_expression In, check_negated_bitwise"), ("conditions", D+"ast.rs: Expression::is_truthy, is_const_eval; crates/dreamchecker/src/lib.rs: visit_control_condition, loop_condition_check"), ("rand switches", "crates/dreamchecker/src/switch_rand_range.rs")])

prop("P34", "The generated documentation holds what is documented, and its links lead there",
 "For every project dmdoc writes an index page, a page for each type with a documented member or more than one paragraph about itself, one for the documented global vars and procs, and one for each file which says something of itself or holds documented macros, types or globals (a Markdown or text file in the searched directories, not hidden, too; a README stands for its directory); nothing else. The index lists each of them, and each type described in one line without a page, once, below the directories or types it is in, under its title, else its name var, else the last part of its path, with its first paragraph. Each page shows the documented members or macros with their whole text, where they are written, how they are declared with what parameters and types, and which ancestor documents what they redefine; a file's text and what it documents in line order. Every link on every page leads to a page and part which is there. A crosslink to something documented leads to exactly that; one to what is not is said to be wrong, with what holds it, and leads if anywhere to the nearest documented thing on its path or, for a built-in, to its reference, which is not wrong. A dry run succeeds only if no crosslink is wrong; the numbers of pages, macros and types said are right.",
 ["programs"], "every project, every set of files, types, members and crosslinks between them",
 "What a page holds and a link leads to depends on the whole project; the generator has no tests.",
 ["crates/dmdoc/src/main.rs", "crates/dmdoc/src/template.rs", "crates/dmdoc/src/markdown.rs", D+"docs.rs"], [("collation", "crates/dmdoc/src/main.rs: main2, module_entry, build_index_tree"), ("crosslinks", "crates/dmdoc/src/main.rs: broken_link_fixer, linkify_type"), ("pages", "crates/dmdoc/src/template.rs"), ("titles and teasers", "crates/dmdoc/src/markdown.rs: DocBlock")])

MP = "crates/dmm-tools/src/render_passes/"
prop("P35", "Rendering passes show, hide, replace, add and reorder exactly what they say",
 "For every map, types and passes: the passes that run are those named to be enabled, and of the others not named to be disabled: all if all are enabled, none if all are disabled, else those which the configuration, or else their default, says. The picture then consists of exactly these sprites, each by its plane and layer, of equals the earlier first: hidden objects are left out (space, areas, invisible and ephemeral objects, those the configuration lists, whatever a network filter does not name); spawners stand for what they spawn and random objects for one of their possibilities, each of which does come up and no other (a hidden type among none of them; drawn loot as often as it may be); every other object looks as its variables and those of its type say, with the overlays and underlays its state calls for (crates, closets, computers, airlocks, power controllers, false glass, boxes, alarms, tanks), the joints of transit tubes by their exits, the parts around gravity generators, cables joined to neighbours of the same layer, and with the layers of its kind (the longest configured path that it is of first). No map, and no lack of a type, makes rendering fail.",
 ["inputs", "configurations"], "every map, hierarchy and set of variables, every choice of passes, every random choice",
 "What is drawn depends on all passes together, on inherited variables and on chance; the tests draw nothing.",
 [MP+"mod.rs", MP+"random.rs", MP+"transit_tube.rs", MP+"structures.rs", MP+"smart_cables.rs", "crates/dmm-tools/src/minimap.rs"], [("selection", MP+"mod.rs: configure"), ("passes", MP+"mod.rs: HideSpace .. FancyLayers; random.rs; transit_tube.rs; structures.rs; smart_cables.rs"), ("order of filters, expansion, overlays and sorting", "crates/dmm-tools/src/minimap.rs: generate, get_atom_list")])

prop("P36", "Outlines, name searches, folds and colours show what the texts hold",
 "For every text open in the editor the outline lists each macro defined, and each type with something in it, variable, proc and local variable declared, once, with its kind (a proc of no type is a function, one named New, init or Initialize a constructor), at its line, under the innermost type or proc whose block it is in (var and proc headings only group), beside it the last name which its path adds to that of the type it is listed under; each is said to end after it starts and after all that is in it, and before what follows. A search for a name finds exactly the macros, types, declared variables and declared procs of the project whose names begin with it, disregarding case and all that is no letter or digit (restricted to macros by #, to variables by var/, to procs by proc/), one with a slash exactly the types whose path holds it, each where it is declared. Each #endregion mark standing in a comment of its own ends a fold begun at the last #region not ended. Each hex colour in quotes and each rgb() call of literal numbers is shown at its place in its colour, and another colour picked for it is written in the same form, with more digits or transparency only where needed.",
 ["inputs"], "every text and nesting of blocks, every name and query, every colour",
 "What is nested in what depends on the whole text; there are no tests of the outline or the search.",
 [LSM, "crates/dm-langserver/src/color.rs", "crates/dm-langserver/src/symbol_search.rs", D+"parser.rs"], [("outline", LSM+": DocumentSymbolRequest; annotations TreeBlock, ProcBody, Variable"), ("searches", LSM+": WorkspaceSymbol; crates/dm-langserver/src/symbol_search.rs"), ("folds, colours", LSM+": FoldingRangeRequest, DocumentColor, ColorPresentationRequest; crates/dm-langserver/src/color.rs")])

prop("P37", "The map tool compares, measures and pictures maps as they are",
 "diff-maps lists exactly the coordinates, within the size common to both maps, at which they hold different things or the same with other variables (whatever their keys, key lengths and file styles), and says whether the sizes differ. map-info tells the size of every file, its key length and the number of its keys. minimap writes, for every file it can read, one picture of each level asked for, named after the file and level, which shows exactly the tiles of the range asked for, cut down to the map (at least one tile), northernmost row on top; a file it cannot read is said so by the exit status and keeps no other from being drawn. render-many draws exactly the chunks asked for, or each level if none are, and names the pictures in the order asked. The number of threads makes no difference.",
 ["inputs", "configurations"], "every map and pair of maps, every range and list of chunks, serial and parallel",
 "Depends on sizes, keys and ranges together; the tool has no tests.",
 ["crates/dmm-tools-cli/src/main.rs", "crates/dmm-tools/src/minimap.rs"], [("commands", "crates/dmm-tools-cli/src/main.rs: run, render_many"), ("restricting a picture", "crates/dmm-tools/src/minimap.rs: generate")])

prop("P38", "Settings, filters, empty searches and spawned returns are judged as written",
 "Of the set statements which open a proc, before anything else, exactly those are reported which set something unknown (to the language, or, being named SpacemanDMM_, to the checker), a switch (background, waitfor, hidden, instant, popup_menu) to anything but 0, 1, TRUE or FALSE, a name, desc or category to a single value which is no text (null is allowed for the category), or the invisibility to anything but a number from 0 to 100; of those further on exactly the ones for the checker. Every call of the global filter(), and of no other, wherever it stands, is reported if its type is not named (unless an arglist is given first) or is no known text, for each named argument a filter of that type does not take, and for each part of its flags (or colour space) which is no flag of that filter, no 0 where that is allowed, an access to something, a computation, or one of several where there can be one only; a call without a name after named arguments is reported. A Find() without arguments is reported exactly on lists, and a value returned in a block that is spawned exactly there, however deeply nested. Parentheses make no difference. Each report stands on its line with its severity and leads to the filter it speaks of.",
 ["inputs", "programs"], "every sequence of settings, every nesting, every filter and expression of flags",
 "Tables, positions and nested expressions combine; the tests hold a handful of filters and no set values.",
 ["crates/dreamchecker/src/lib.rs", "crates/dreammaker/src/ast.rs"], [("settings", "crates/dreamchecker/src/lib.rs: gather_settings, visit_block"), ("filters", "crates/dreamchecker/src/lib.rs: visit_call, check_filter_flag; crates/dreammaker/src/ast.rs: VALID_FILTER_TYPES, VALID_FILTER_FLAGS"), ("spawned returns", "crates/dreamchecker/src/lib.rs: visit_statement Return, Spawn")])

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
