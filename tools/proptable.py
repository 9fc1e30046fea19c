def P(id, title, statement, over, qtext, why, files, mech, technique, note):
    return {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
            "why_tests_cant": why, "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]},
            "technique": technique, "note": note}


ABS = ("Path-sensitive dataflow over the compiler's MIR with joins and loop fixpoints (value-numbered terms, no solver, "
       "nothing executed). Trusts rustc's MIR and the library models in analysis/models.py; obligations it cannot decide are "
       "counted as undecided in the evidence, never as held. ")
SHAPE = ABS + ("Text is abstracted to shapes: literal pieces and chunks standing for all texts of a character class; loops over a "
               "chunk are followed for its first, any middle and its last character to a fixpoint. Span operations are given by the "
               "domain. ")
TECH = "abstract interpretation of MIR (path-sensitive dataflow / typestate), decision table over all paths"

PROPS = [
    P("C04", "Databases are persistent maps: writes are exact and never alter old copies",
      "Reading back a rule, variable or target variable just written to a database gives exactly the value written, and "
      "everything else in the database reads as before. A database value that was handed out never changes afterwards. "
      "Enumerating rules and looking one up agree.",
      ["inputs", "histories"], "every database, key and value, and every sequence of updates",
      "Tests sample a few keys; the guarantee is about all keys, including the untouched ones, after any history.",
      ["src/lib.rs"], [("Database methods", "src/lib.rs"), ("types::Map", "src/types.rs")],
      TECH + "; algebraic read-over-write laws on symbolic maps; type-tree scan for interior mutability",
      ABS + "Decides the read-over-write and frame laws for the public setters and getters for all keys and values, and that the "
      "type tree of the database holds no interior mutability; assumes the map library implements maps."),
    P("C05", "Conditionals nest; a line counts iff every enclosing branch is taken",
      "After any sequence of lines, text is being skipped exactly when some enclosing ifeq/ifneq branch is not the taken one: "
      "ifeq is taken when its two expanded, trimmed arguments are equal (ifneq when they differ), else flips the innermost "
      "conditional once, endif closes exactly the innermost. A second else, a stray else and a stray endif are errors.",
      ["inputs", "histories"], "every makefile, every nesting of conditionals, every value of the arguments",
      "Nesting depth and order of directives are unbounded; tests reach a handful of shapes of depth two.",
      ["src/parsers/mod.rs", "src/parsers/conditional/mod.rs"],
      [("conditional stack and ignoring flag", "ParserState"), ("handle_conditional", "src/parsers/conditional/mod.rs"),
       ("update_ignoring", "src/parsers/mod.rs")],
      TECH + "; inductive invariant on the conditional stack",
      ABS + "Decides the transfer of one arbitrary line from an arbitrary parser state, which is an induction over all makefiles. "
      "ifdef/ifndef and else-if are unimplemented in the code and outside the claim."),
    P("C06", "Lines in an untaken branch have no effect",
      "A line inside an untaken conditional branch, whatever it says, changes no variable, rule, recipe or name and expands "
      "nothing; only its conditional directives are tracked for nesting. A multi-line definition can not be open there.",
      ["inputs", "histories"], "every line in every untaken branch of every makefile",
      "Any kind of line may occur in an untaken branch; tests try one or two kinds.",
      ["src/parsers/mod.rs"], [("ignoring guard", "ParserState::parse_line"), ("handle_conditional guard",
                                "src/parsers/conditional/mod.rs")],
      TECH + "; effect (frame) analysis of the per-line step",
      ABS + "Frame condition on every path of the per-line step with the skipping flag possibly set."),
    P("C07", "Every rule read is recorded exactly once, complete, at the right moment",
      "Each rule line opens a rule with exactly its targets, prerequisites, kind and initial command; each following recipe "
      "line adds one command at its end; the rule enters the database exactly once, when an assignment, directive, other rule line (even one that comes to nothing) "
      "or the end of the input ends it. Comments, blank lines, conditionals and skipped lines neither end nor lose it.",
      ["inputs", "histories"], "every sequence of lines, and every point where the input can end",
      "Which line follows a rule is unbounded; the tests never ended a file inside a conditional with a rule open, for instance.",
      ["src/parsers/mod.rs", "src/parsers/targets/mod.rs", "src/lib.rs"],
      [("close_rule", "src/parsers/mod.rs"), ("handle_target_action", "src/parsers/targets/mod.rs"),
       ("process_block end of input", "src/lib.rs")],
      TECH + "; typestate of the open rule (open/extended/recorded)",
      ABS + "Typestate over every path of the per-line step and of the end of input."),
    P("C08", "Recording a rule: recipe rules replace, bare rules add prerequisites",
      "Recording a rule touches exactly its own targets, all of them: with a recipe it replaces what each target had; without a "
      "recipe it is stored as written for a fresh target and otherwise appends its prerequisites, in order, keeping the "
      "target's recipe and kind. No variable and no other target changes.",
      ["inputs", "histories"], "every rule, every target list, every database it is recorded in",
      "Tests record one or two rules in an almost empty database.",
      ["src/lib.rs"], [("Database::from_protorule", "src/lib.rs")],
      TECH + "; loop summaries (closed forms of element-wise accumulation)",
      ABS + "Per-target effect of the recording loop for all rules and databases."),
    P("C09", "Each assignment operator stores exactly what it should",
      "`name op value`, with or without blanks or a value, writes the variable named by the expanded, trimmed text before the "
      "operator and nothing else: = and != keep the value unexpanded, := and ::= expand it once at that point, ?= stores only if "
      "the variable is unset, += appends one space and the value to the old one, keeping the old flavor and expanding now "
      "exactly if the old one is simple.",
      ["inputs", "histories"], "every name, value and layout of an assignment, in every state of the database",
      "Whether text is expanded now or later, and what an old value does to a new one, depends on histories tests do not try.",
      ["src/parsers/variable/mod.rs", "src/lib.rs"],
      [("parse_variable_assignment", "src/parsers/variable/mod.rs"),
       ("handle_global_variable_action", "src/parsers/variable/mod.rs"), ("append_to_variable", "src/lib.rs")],
      TECH + "; string-shape abstract domain for the parser, composed with the handler's database transfer",
      SHAPE + "Decides the database written by every layout of an assignment from any engine state. Modifiers (export, override, "
      "private, undefine) are unimplemented in the code and outside the claim."),
    P("C17", "A define stores its body, line for line, up to the matching endef",
      "`define NAME [op]` opens a definition of that name with an empty value (+= keeps the old one). Until the matching endef "
      "every line, with its line end and any comment on it, is appended unexpanded to that variable and read as nothing else, "
      "except lines that are only a comment, which are dropped. Nested define/endef count and belong to the body. Only whole "
      "words `define` and `endef` count; words after endef are an error. No rule is open inside a definition.",
      ["inputs", "histories"], "every body, every nesting, every state of the parser",
      "Bodies contain arbitrary text, including directives and nested definitions; tests have two bodies.",
      ["src/parsers/variable/mod.rs", "src/parsers/mod.rs"],
      [("parse_define_line", "src/parsers/variable/mod.rs"), ("handle_define_line", "src/parsers/variable/mod.rs"),
       ("ParserState::parse_line", "src/parsers/mod.rs")],
      TECH + "; string-shape abstract domain for the parser, composed with the handler's transfer; typestate of the definition",
      SHAPE + "Decides 19 kinds of body line and 7 openings for all texts of each shape, and the dispatch for all lines."),
    P("C10", "A rule line names exactly its targets, prerequisites, kind and command",
      "A line `targets : prerequisites ; command` stands for exactly these, in order, after expanding targets and prerequisites "
      "once each and splitting at unescaped blanks: whatever the blanks around the colon, wherever words, colon or semicolon come "
      "from an expansion. `::` makes it double-colon. The command is everything after the semicolon, unexpanded. Words that "
      "expand to nothing vanish. A line with words but no colon is an error; one without words is not a rule.",
      ["inputs"], "every rule line: any number of words, blanks and references, any expansion of them",
      "Rule lines combine spacing, references that expand to several words or to none, escapes and commands; tests have 15 lines.",
      ["src/parsers/targets/mod.rs", "src/parsers/file_sequence.rs", "src/parsers/mod.rs"],
      [("targets::parse_line", "src/parsers/targets/mod.rs"), ("parse_file_seq", "src/parsers/file_sequence.rs"),
       ("makefile_take_until_unquote", "src/parsers/mod.rs")],
      TECH + "; string-shape abstract domain for the parser; expansion replaced by arbitrary text of given shapes",
      SHAPE + "Decides over a thousand compositions of target list, separator, prerequisite list, command and line end (more in the "
      "thorough run). Static patterns and target variables are recognised but unimplemented in the code. Not claimed: halving of "
      "backslashes, semicolons inside references, escaped # and ;."),
    P("C11", "References and function calls are read exactly, to their matching bracket",
      "Text is read into exactly its parts, in order, none lost or repeated: plain text, `$$` as one dollar, `$x`, "
      "`$(name)`/`${name}` named by everything up to the matching bracket, nested to any depth, and calls of eval, strip, words "
      "and word with exactly their arguments. Blanks must follow a function's name. An unterminated reference or a wrong number "
      "of arguments is an error, of the right kind.",
      ["inputs"], "every text, nesting and mixture of brackets",
      "The language is unbounded; brackets, dollars, commas and function names combine in ways a few examples do not reach.",
      ["src/parsers/ast/mod.rs", "src/ast/mod.rs", "src/ast/text_functions.rs"],
      [("parse_ast", "src/parsers/ast/mod.rs"), ("variable_expand", "src/parsers/ast/mod.rs"),
       ("collapsing_concat", "src/ast/mod.rs")],
      TECH + "; string-shape abstract domain for the recursive parser, against a table of shapes and trees",
      SHAPE + "Decides about a hundred shapes of text (each for all texts of its chunks, and across segment seams), and that "
      "joining parts loses none; the thorough run adds their pairwise compositions and nestings."),
    P("C18", "Every line is read as exactly the one thing its text says",
      "A line (with its backslash-continued lines) is a comment or blank, which does nothing; a conditional; an assignment; one "
      "of the eight directives (whole word, any case); a rule; or an error - never two of these and never silently nothing. "
      "After a rule, a line starting with the command character is a command of it with exactly its text, whatever it looks "
      "like. In an untaken branch only conditionals are read and nothing is expanded. Exactly the following lines are left to "
      "read. The line fails exactly if what it asks for fails, with that error.",
      ["inputs", "histories"], "every line of a makefile, every ending and continuation, with a rule open or not, skipping or not",
      "What a line is depends on keywords, operators, blanks, brackets, continuation, the open rule and the branch at once; tests "
      "run each parser alone on a few lines.",
      ["src/parsers/mod.rs", "src/parsers/comment.rs", "src/parsers/recipe_line.rs", "src/parsers/directives/mod.rs",
       "src/parsers/conditional/mod.rs", "src/parsers/variable/mod.rs"],
      [("ParserState::parse_line", "src/parsers/mod.rs"), ("recipe_line", "src/parsers/recipe_line.rs"),
       ("parse_comment", "src/parsers/comment.rs"), ("makefile_line", "src/parsers/mod.rs"),
       ("directives::parse_line", "src/parsers/directives/mod.rs")],
      TECH + "; the whole per-line step over a string-shape domain, against a table of line shapes and what they mean",
      SHAPE + "Decides over a thousand line shapes (content, separator, ending, open rule, skipping), each for all texts of its "
      "chunks; about five thousand in the thorough run. What the handlers then do is C05-C10 and C17. Not claimed: malformed "
      "ifeq lines that also have a colon; undefine."),
    P("C01", "Expanding gives the right text and names every variable it depended on",
      "Expanding a parsed expression gives exactly the make result: constants as they are, parts of a concatenation in order, a "
      "variable's recursively expanded value (nothing if undefined) with substitution references applied, call arguments "
      "expanded by the same rules. The result's sensitivity contains every variable whose value was asked for on the way - "
      "defined or not, in names, arguments, nested values - and everything the texts used already depended on. "
      "Expanding never changes the database, except through eval.",
      ["inputs", "histories"], "every expression, variable database and nesting of references",
      "Tests expand a few expressions over small databases; a forgotten dependency shows only when that variable changes.",
      ["src/ast/mod.rs", "src/ast/text_functions.rs", "src/evaluated/mod.rs", "src/evaluated/variable_sensitivity.rs"],
      [("AstNode::eval", "src/ast/mod.rs"), ("Block::new / push_all_contents", "src/evaluated/mod.rs"),
       ("merge_sensitivity", "src/evaluated/variable_sensitivity.rs")],
      TECH + "; one step per expression kind with the recursive expansion as an opaque function (structural induction)",
      ABS + "Decides the outcome and the recorded sensitivity of each kind of expression, and the sensitivity set operations. "
      "Dependencies through the text given to eval are not claimed. strip, word and words are unimplemented in the code."),
    P("C19", "A substitution reference replaces exactly the words that match",
      "`$(name:key=replacement)` gives the words of the variable's value, in order and separated by single blanks, with every "
      "word that matches the key replaced and the others as they were. A key without `%` matches words that end with it "
      "(or all, if empty) and replaces that end. A key with `%` matches words that start with what is before and end with what "
      "is after its first `%`, without overlap; the text between takes the place of the first `%` of the replacement, "
      "which otherwise replaces the whole word.",
      ["inputs"], "every value, key and replacement, after expansion",
      "Matching depends on both ends, overlap, empties and blanks at once; tests have five substitutions.",
      ["src/ast/text_functions.rs", "src/parsers/mod.rs"],
      [("do_subref / do_replacement", "src/ast/text_functions.rs"), ("makefile_take_until_unquote", "src/parsers/mod.rs"),
       ("makefile_token", "src/parsers/mod.rs")],
      TECH + "; string-shape abstract domain for value, key and replacement",
      SHAPE + "Decides about two thousand combinations of value, key and replacement shapes (ten times more in the thorough run), "
      "each for all texts of its chunks. That a word replaced by nothing leaves no blank is not claimed, nor escaped %."),
    P("C15", "Every view of a text, and of any part of it, agrees with the text itself",
      "Length, string, characters, numbered characters, segments, searches, splits, comparisons and copies of a block of text, "
      "or of any part taken out of it, give exactly the characters there, whatever the pieces the text is made of (literal text, "
      "values of variables, results of calls, nested to any depth). A copy depends on exactly what the original depended on.",
      ["inputs"], "every text, every division of it into nested pieces, every start and end",
      "Tests look at few divisions, with few positions; a slip shows where a part starts or ends inside one particular piece.",
      ["src/evaluated/block.rs", "src/evaluated/block_span.rs", "src/evaluated/content_reference.rs", "src/evaluated/mod.rs"],
      [("BlockSpan", "src/evaluated/block_span.rs"), ("Block", "src/evaluated/block.rs"), ("ContentReference", "src/evaluated/content_reference.rs")],
      "abstract interpretation of MIR over texts of symbolic characters (every path of the real functions), compared with the text",
      ABS + "Texts are built by the crate's own constructors from symbolic characters of unknown byte widths, in a catalogue of "
      "divisions (pieces first, middle, last, empty, nested, partial), and every operation is taken at every position. The byte "
      "widths and the characters are arbitrary; the divisions are those of the catalogue, larger at thorough."),
    P("C02", "Every piece of text knows where it stands in its makefile",
      "Text read from a makefile starts at line 1, column 1 of that file. Each piece of a text, of any part of a text, and each "
      "node parsed from it carries the line and column at which its first character stands: columns count characters from 1, lines "
      "go up at each newline, and taking parts, copying or parsing never shifts them.",
      ["inputs"], "every text, every division of it into pieces, every part taken of it",
      "Tests pin a handful of positions in single-piece texts.",
      ["src/source_location.rs", "src/evaluated/block.rs", "src/evaluated/block_span.rs", "src/evaluated/content_reference.rs", "src/parsers/ast/mod.rs", "src/lib.rs"],
      [("Location::advance", "src/source_location.rs"), ("segments", "src/evaluated/block_span.rs"), ("parse_ast", "src/parsers/ast/mod.rs")],
      "abstract interpretation of MIR over texts of symbolic characters, tracking symbolic lines and columns",
      ABS + "Texts as for C15, at symbolic lines and columns; the parser is run on a catalogue of texts of symbolic characters "
      "with every construct, cut in two pieces at one place (every place at thorough)."),
    P("C03", "Places compare as positions in one file, and not at all across files",
      "Two places are equal exactly if they are the same kind of place, in the same file, line and column. Places in one file are "
      "ordered by line, then column; places in different files or of different kinds have no order. Located things order as their "
      "places do.",
      ["inputs"], "every pair of places",
      "The laws must hold for every pair; tests compare a few.",
      ["src/source_location.rs"], [("Location", "src/source_location.rs"), ("Located", "src/source_location.rs")],
      "abstract interpretation of MIR, case analysis over kind and the order of every field",
      ABS + "Every pair of kinds, with every combination of equal/before/after for the fields they have."),
    P("C12", "A makefile is read up to its end or its first error, which is reported",
      "A makefile is read line by line, each from where the last ended, after a byte order mark if there is one. Reading succeeds "
      "exactly if every line could be read; otherwise it stops at the first that could not, reads nothing more and returns that "
      "line's own error. Text that cannot be read at all is an I/O error. What a line or expression asks for is done or refused, not "
      "answered with a panic.",
      ["inputs"], "every text, every line of it that fails and every way a line can fail",
      "Tests feed a few bad lines; that no later line has an effect and no error is lost or replaced holds for all.",
      ["src/lib.rs", "src/parsers/mod.rs"], [("Engine::process_block", "src/lib.rs"), ("Engine::read_makefile", "src/lib.rs")],
      "abstract interpretation of MIR over symbolic texts with the per-line step replaced by all its possible outcomes; reachability of "
      "panics from every action and expression kind",
      ABS + "Texts of up to 3 (thorough: 4) characters, split into lines in every way, each line succeeding or failing in each way; "
      "what a line does is C18. Panics: every action kind and expression kind from any state; 19 that the crate leaves unimplemented "
      "are known findings."),
    P("C13", "Includes read each named file once, in order, and no failure goes unnoticed",
      "`include` expands its names once and opens, in order, exactly the words of that (split at unescaped blanks) below the working "
      "directory, and reads each in full, under its given name, before the next. A file that cannot be opened is skipped by -include "
      "and sinclude; otherwise the first failure to open or read, or error in a file, ends the directive with that error.",
      ["inputs", "fault_sequences"], "every list of names, every subset of files that cannot be opened or read, every error in them",
      "Tests have no failing files; the behaviour under each combination of missing and broken files is not sampled.",
      ["src/parsers/directives/mod.rs", "src/parsers/file_sequence.rs"],
      [("handle_include", "src/parsers/directives/mod.rs"), ("parse_file_seq", "src/parsers/file_sequence.rs")],
      "abstract interpretation of MIR over symbolic texts with all outcomes of opening and reading, traces of effects judged",
      ABS + "A catalogue of lists of 0 to 3 names (thorough: 4) of symbolic characters with blanks, newlines and escapes between "
      "them; every combination of open and read failures along each."),
    P("C14", "Walking a syntax tree visits every node once, in order, by its kind",
      "A Visitor (or MutVisitor) walks a tree from the top: each node once, before its parts, parts from left to right, by the method "
      "for its kind and with its own parts; a method that does not recurse leaves out just what is below its node; changes a "
      "MutVisitor makes land in the tree at that node. The functions that build nodes give the kind, parts and place asked for, and "
      "reading a node gives these back.",
      ["inputs"], "every tree, every method overridden",
      "No test walks a tree at all.",
      ["src/ast/visit.rs", "src/ast/mod.rs"], [("Visitor, MutVisitor", "src/ast/visit.rs"), ("constructors", "src/ast/mod.rs")],
      "abstract interpretation of MIR of the trait's default methods over symbolic trees, traces of visits judged",
      ABS + "A catalogue of trees with every kind, nested up to four deep (thorough: every kind below every kind), with each method "
      "in turn not recursing."),
    P("C20", "A line and the lines its backslashes continue it with are read as one line",
      "For every text: a logical line ends at its first line end (\\n or \\r\\n) that no odd number of backslashes precedes, or at a "
      "comment or the end of the input. Each backslash and line end that continue it, with the blanks on both sides, read as one "
      "blank; further backslashes before it stand in pairs for one each; all else of the line is kept as it is, and what follows it "
      "is left to read.",
      ["inputs"], "every text",
      "The interplay of runs of backslashes, blanks, empty lines and ends of input is combinatorial; tests sample a few.",
      ["src/parsers/mod.rs", "src/evaluated"],
      [("makefile_line", "src/parsers/mod.rs")],
      "abstract interpretation of MIR over symbolic texts, exhaustively to a length, against the line-joining rule of GNU make",
      ABS + "Every text over {any ordinary character, blank, backslash, line end} up to length 5 (thorough: 7), and a catalogue of longer "
      "ones with tabs, comments and \\r; letters are symbolic characters of any width. Text ending in a lone backslash and \\# are left out."),
    P("C22", "A backslash quotes what would end a name or split a pattern, and nothing else",
      "In the target and prerequisite lists of rule lines, in include lists and in the key and replacement of substitution references: "
      "a backslash before a blank or colon (in the lists) or a % (in patterns) makes that character part of the name; each pair of "
      "backslashes directly before one stands for one backslash, and an even number of them leaves it its meaning; all other backslashes "
      "stand for themselves. Backslashes at the very end of a list are left out.",
      ["inputs"], "every list and pattern",
      "Runs of backslashes of either parity before, between and after the special characters combine freely; tests sample a few.",
      ["src/parsers/mod.rs", "src/parsers/targets/mod.rs", "src/parsers/file_sequence.rs", "src/ast/text_functions.rs"],
      [("makefile_take_until_unquote", "src/parsers/mod.rs"), ("find_non_drivespec_colon", "src/parsers/targets/mod.rs")],
      "abstract interpretation of MIR over symbolic texts, exhaustively to a length, against GNU make's rule for quoting",
      ABS + "Every list over {any name, backslash, colon, blank} to length 4 (thorough: 5) on either side of a rule's colon, every include list "
      "over {character, backslash, blank} to length 5 (6), every key and replacement over {text, backslash, %} to length 4 (5), each "
      "with values that do and do not match. Drive specifications are left out."),
    P("C23", "Rules, variables, engines and pieces of text read back what they were made from",
      "A rule gives back the target, target name, prerequisites and recipe it was made of, and a recipe its commands. A variable has the "
      "value it was made with, and expanding it gives exactly the text of its expression, expanded once. The ready-made blank, line end "
      "and semicolon are those characters, of no source place; a constant has the text and place given; the node made of a name, key, "
      "replacement and value reads as its value and gives the others back. A text has the dependencies and parts it was made with. "
      "A new engine knows nothing, uses tab and the current directory.",
      ["inputs"], "every rule, variable, text and engine",
      "Everything else is read through these; tests look at few of them, and equal names or empty parts hide a mix-up.",
      ["src/lib.rs", "src/eval/mod.rs", "src/evaluated/mod.rs", "src/evaluated/nodes.rs", "src/evaluated/content_reference.rs"],
      [("Variable", "src/eval/mod.rs"), ("Rule", "src/lib.rs"), ("EvaluatedNode", "src/evaluated/nodes.rs")],
      "abstract interpretation of MIR on symbolic values: which of the given parts reaches which result",
      ABS + "Symbolic values, so every value is covered; texts have three characters and a line end. Expansion in a target's context, "
      "path search and pattern engines are not implemented in the code and are left out."),
    P("C21", "What a makefile means depends on nothing but what is read and given",
      "The result of reading, expanding or looking something up depends only on the texts read (the makefile and the files its include "
      "directives name), the names and the database it is given: not on the environment, the clock, threads, random numbers, the order "
      "in which hash tables list their elements, global state left by earlier calls, or whether logging is enabled; and nothing "
      "outside is changed.",
      ["inputs", "histories", "configurations"], "every call of the crate, in every environment",
      "Tests run in one environment, with logging off, and a wrong dependence shows only when something unrelated differs.",
      ["src"],
      [("read_makefile", "src/lib.rs"), ("handle_include", "src/parsers/directives/mod.rs"), ("push_all_contents", "src/evaluated/mod.rs")],
      "effect analysis over the call graph and MIR: classification of every external call, taint of hash-table iteration, region of log-only blocks",
      "Every call site of every function of the crate (about 3000) is classified; iteration over hash tables is followed to where its "
      "elements go; blocks run only to log are checked to change nothing. Trusts that library functions not classified as ambient are pure."),
    P("C16", "Interned names are stable, exact and kept apart by kind",
      "Interning a name gives the identifier of exactly that text, looking the text up afterwards finds it, and resolving a "
      "file name gives back the text interned for it. File names and variable names never mix.",
      ["inputs", "histories"], "every text and every history of interning",
      "Tests intern a few distinct names.",
      ["src/lib.rs"], [("NameCache", "src/lib.rs")],
      TECH, ABS + "Decides which table and which text each operation uses; assumes the string interner is a bijection."),
]

NA = [
    dict(P("N01", "Reading and expanding always come to an end, within the stack",
           "For every makefile, reading it and expanding any of its variables ends after finitely many steps without exhausting the stack.",
           ["inputs"], "every makefile, of any size and nesting", "No number of samples shows the absence of one that runs on.",
           ["src/ast", "src/parsers"], [("eval", "src/ast/mod.rs")], "", ""),
         reason="The depth of expansion and of nested parsing depends on the values variables have at run time and on the length of the input; "
                "nothing in the source bounds it (a variable that refers to itself recurses until the stack is gone). A static argument would "
                "have to bound those values."),
    dict(P("N02", "No input makes the reader panic",
           "For every byte sequence, reading it as a makefile returns, with success or an error, and does not panic.",
           ["inputs"], "every byte sequence", "Every panic needs an input of its own.",
           ["src"], [("process_block", "src/lib.rs")], "", ""),
         reason="Over all inputs this rests on arithmetic relations between byte offsets carried through unbounded recursion and arbitrary divisions of "
                "the text, which the domains here track exactly only within their catalogues of texts and shapes. Every check reports a panic "
                "reachable within its domain (C12, C15, C18, C20 over all texts of theirs); beyond these nothing is claimed."),
    dict(P("N03", "Skipped work is safe: unchanged dependencies mean an unchanged result",
           "If no variable in the sensitivity of an expanded text has changed, expanding it again gives the same text.",
           ["histories"], "every pair of databases that agree on the sensitivity", "Quantifies over pairs of databases.",
           ["src/ast/mod.rs", "src/evaluated"], [("eval_internal", "src/ast/mod.rs")], "", ""),
         reason="Through $(eval) the text of an expansion is itself read as a makefile, whose effect depends on conditionals and includes that leave "
                "no trace in the sensitivity; what they do is decided by run-time text. For expressions without eval this is C01 with C21."),
]
