#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script because the statements are long)."""
import json
P=[]
def prop(id,title,statement,over,text,why,files,mech,observe):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None)))
LX="lexer/lexer.go"; PS="parser/parser.go"; TK="token/token.go"
prop("L01","Lexing always terminates, progresses and never crashes",
 "For every byte sequence, including invalid UTF-8 and truncated tokens, repeatedly asking the lexer for the next token never panics or hangs and reaches the end-of-file token after at most one token per input byte. Every token before end-of-file starts strictly after the previous one and inside the source. Once end-of-file has been returned, every further request returns end-of-file at the end of the source again.",
 ["inputs"],"all byte strings given as source",
 "TestLexerFuzz only builds single-line sources out of well-formed, blank-separated tokens; nothing exercises malformed UTF-8, unterminated texts or truncated tokens.",
 [LX],[("cursor advance",LX+":next"),("token scan loop",LX+":Scan")],["lexer.NewLexer","(*lexer.Lexer).Scan"])
prop("L02","The token stream loses and invents nothing",
 "The tokens tile the source: between the end of one token and the start of the next there is nothing but blanks, tabs, carriage returns and newlines. Each token's literal is exactly the source text at its offset, except that a text literal omits its quotes and a comment omits its leading semicolon; the end-of-file token has an empty literal.",
 ["inputs"],"all valid UTF-8 byte strings given as source",
 "Tests compare a handful of identifiers and numbers; no test relates literals to the text between tokens for arbitrary input.",
 [LX],[("literal slicing",LX+":scanIdentifier, scanNumber, scanString, scanComment, scanControlOp"),("operators",LX+":Scan")],["(*lexer.Lexer).Scan"])
prop("L03","Token positions are exact",
 "The position reported with every token is true to the source: the offset is the token's first byte, the line is one plus the number of newline bytes before it, and the column is one plus the number of bytes since the last of them. This holds for every token on every line, including end-of-file, whatever blank lines, comments or multi-byte characters precede it.",
 ["inputs"],"all valid UTF-8 sources with any layout of lines, blanks and comments",
 "Position assertions exist only for single-line sources; line counting across newlines, comments and texts is untested.",
 [LX,"token/position.go"],[("line offsets",LX+":addLineOffset, skipWhitespace"),("position computation",LX+":Scan")],["token.Position returned by Scan"])
prop("L04","Every lexeme gets the right token kind by longest match",
 "Punctuation is recognised by longest match (`//=` over `//` over `/`, `...` over `..` over `.`, `=>` over `=`, `/=` over `/`). A word that is exactly a predefined type or value name of the token set, or a dot followed by exactly a control operator name, gets that name's token, and every other word is an identifier. A digit sequence is an integer token, it is a float token exactly when it contains a fraction of at least one digit after a period, and 0x, 0b and 0o prefixes make an integer of the digits of that base; a byte that starts no CDDL token yields an illegal token.",
 ["inputs"],"all ASCII sources",
 "Tests sample some identifiers and numbers and random blank-separated tokens; maximal munch between adjacent tokens and near-miss keywords are not covered.",
 [LX,TK],[("token switch",LX+":Scan"),("keyword table",TK+":init, Lookup"),("numbers",LX+":scanNumber")],["(*lexer.Lexer).Scan","token.Lookup"])
prop("L05","Lexing depends only on the text and never touches the caller's memory",
 "Building a lexer and scanning with it never changes any byte of the caller's source buffer, including bytes between the slice's length and its capacity. What is scanned after a token depends only on the remaining text: it is the token sequence that the remaining text alone would give, shifted by the consumed text. Two lexers never influence each other, in whatever order they are advanced.",
 ["inputs","histories"],"all sources, all sub-slices of larger buffers, all interleavings of scans on several lexers",
 "No test passes a sub-slice of a larger buffer, uses two lexers on one buffer or compares a suffix with the whole.",
 [LX],[("source copy",LX+":NewLexer"),("lexer state",LX+":Lexer")],["lexer.NewLexer","caller's []byte"])
prop("L06","A text literal that is not closed on its line is always reported",
 "A text literal must be closed by a quote before the end of its line or of the source; when one is not, parsing the source reports at least one error and never accepts the text silently, wherever in the source it occurs. A source whose text literals are all closed is never reported for that reason, and the value of a closed literal is exactly the characters between its quotes.",
 ["inputs"],"all sources with closed or unclosed text literals at any place",
 "Only closed literals are tested.",
 [LX,PS],[("string scanning",LX+":scanString"),("lexer errors in the parser",PS+":ParseFile")],["parser.ErrorList returned by ParseFile"])
prop("P01","Parsing any source returns: no crash, no hang",
 "For every source, well-formed or not, parsing returns a result and a list of errors after finitely many steps; it never panics and never loops, even for misplaced operators, unclosed brackets, missing operands, out-of-range numbers or duplicate names.",
 ["inputs"],"all token sequences",
 "Parser tests feed a few dozen well-formed rules; error recovery paths are not exercised at all.",
 [PS,"ast/"],[("Pratt loop",PS+":parseEntry"),("rule loop",PS+":ParseFile"),("error spans","ast/*.go Start/End")],["(*parser.Parser).ParseFile"])
prop("P02","An accepted source is fully represented by its tree",
 "If parsing reports no errors, the tree accounts for every token of the source in order: writing the tree back out as tokens gives the source's token sequence, apart from commas, comments and which of the assignment operators and key separators was written. No rule, entry, operand, occurrence bound, tag or nesting level is dropped, duplicated, reordered or replaced, and so a source with an unclosed bracket or a missing operand is never accepted.",
 ["inputs","programs"],"all token sequences that parse without errors",
 "Tree comparisons in the tests skip fields and unequal lengths, so lost entries go unnoticed; only a few shapes are compared.",
 [PS],[("group, array and map entries",PS+":parseGroup, parseArray, parseMap"),("operators",PS+":parseEntry and its handlers")],["ast.CDDL returned by ParseFile"])
prop("P03","Every well-formed schema is accepted and parsed to the intended tree",
 "Every schema built from the supported constructs (predefined types, literals, identifiers, groups, arrays, maps, optional and counted entries, choices, ranges, control operators, tags, enumerations and unwrapping; keys are names or integers, group choices stand between single entries, commas between entries, and a tag's number and parenthesis are attached to it) in which every name used is defined and none twice parses without errors. The tree has the intended nesting: ranges and control operators bind tighter than type choices, type choices tighter than entry keys, those tighter than occurrence markers and group choices, prefix operators apply to the operand that follows, and brackets group explicitly.",
 ["programs"],"all schemas derivable from the grammar of the supported constructs",
 "The tests contain one or two hand-written examples per construct and hardly any combination.",
 [PS,TK],[("precedence table",TK+":Precedence"),("handlers",PS+":registerNud, leds")],["ast.CDDL returned by ParseFile"])
prop("P04","Names resolve: every use is defined or reported",
 "A source parses without unresolved-name errors exactly if every name used as a type, operand, key before an arrow or range bound is defined by some rule of the source, before or after its use, or in the environment supplied; names starting with a dollar sign need no definition unless they are range bounds, and names before a colon and texts are not uses. Every undefined use is reported with an error that names it and points at it.",
 ["programs"],"all schemas with any assignment of names to definitions and uses",
 "No test has an undefined, forward or shared-environment reference.",
 [PS,"environment/environment.go"],[("deferred checks",PS+":parseNamedIdentifier tasks"),("symbol table","environment/environment.go")],["parser.ErrorList"])
prop("P05","Redefining a name is reported and never overwrites",
 "When a name is defined by a plain assignment and already has a definition, in the same source or in the supplied environment, exactly one error is reported for each extra definition, at that definition, and the environment keeps the first one. Extending a name with a choice assignment is not a redefinition.",
 ["programs","histories"],"all sequences of definitions, in one source or several sources sharing an environment",
 "Duplicate definitions are tested only directly on the symbol table.",
 [PS,"environment/environment.go"],[("definition registration",PS+":parseRule"),("Add","environment/environment.go:Add")],["parser.ErrorList","environment.Environment"])
prop("P06","Literal values survive parsing exactly",
 "Every integer literal in decimal (without leading zeros), hexadecimal, octal or binary notation that fits in a signed 64-bit integer has exactly that value in the tree, and one that does not fit is reported as an error, never wrapped or truncated. Tag numbers and occurrence bounds keep their exact unsigned 64-bit values likewise, decimal fractions become the nearest double, true and false become those values, and text literals keep their exact characters.",
 ["inputs"],"all literals of all lengths and bases",
 "Four literals are tested.",
 [PS,LX],[("numbers",PS+":parseIntegerLiteral, parseUintLiteral, parseFloatLiteral, parseFloatTag"),("booleans, text",PS+":parseBooleanLiteral, parseTextLiteral")],["ast literal nodes"])
prop("P07","Occurrence markers carry exactly the bounds written",
 "An entry marked `?` is optional; one marked `n*m`, `n*`, `*m`, `*` or `+` carries lower bound n (0 for a missing one, 1 for `+`) and upper bound m (unlimited if missing), and applies to exactly the entry that follows. A number that is not attached to the asterisk is an entry of its own and never taken for a bound.",
 ["inputs","programs"],"all markers, bounds and following entries",
 "Occurrence tests only check that parsing reports no error.",
 [PS],[("occurrences",PS+":parseOccurrence, parseZMOccurrence, parseOMOccurrence, parseOptional")],["ast.NMOccurrence","ast.Optional"])
prop("P08","Operand types of operators are checked",
 "`.size` is accepted only directly after a text, byte-string or unsigned-integer type, `.regexp` only after a text type, the comparison operators only after a numeric type and never before a text, and a range only between bounds of the same numeric kind, given as literals or as names that resolve to them. Everything else is reported as an error, and permitted combinations (`.size` with an integer, `.regexp` with a text, comparisons with a number or a name of one) are not reported.",
 ["programs"],"all pairs of operands of these operators, literal or by name",
 "Two mismatched ranges are written down in a test, but their errors are never compared.",
 [PS],[("control operators",PS+":parseSizeOperator, parseRegexp, parseComparatorOp"),("ranges",PS+":parseIntBound, parseFloatBound, parseIdentBound")],["parser.ErrorList"])
prop("P09","Comments never change what is parsed",
 "Adding comments on lines of their own between rules, after an opening bracket, after an entry and its comma or before a closing bracket, or at the end of a rule's line changes neither the errors reported nor the rules parsed. Comments between rules appear in the tree in order with their exact text, and one that ends a rule's line is attached to that rule or to its last entry.",
 ["inputs","programs"],"all placements and numbers of comments among the tokens of all schemas",
 "One test parses two comments without any rule.",
 [PS],[("comments",PS+":parseComment, parseInnerComment, parseRule, parseEntry")],["ast.CDDL","parser.ErrorList"])
prop("P10","Every diagnostic points into the source",
 "Every error reported by parsing has a start position that is the position of a token of the source (end-of-file included), so its line exists in the source and its column is at least one. The errors found while reading the rules come before those found when resolving names, each group in source order, and a list of errors starts where its first error starts and ends where its last error ends.",
 ["inputs"],"all token sequences with at least one error",
 "Diagnostics are never compared with positions in any effective test.",
 [PS,"parser/diagnostic.go"],[("error construction",PS+":error, errorTokenExpected, errorUnsupportedTypes"),("ErrorList","parser/diagnostic.go")],["parser.ErrorList"])
prop("P11","One bad rule does not hide the others",
 "Whether a source is accepted is the conjunction over its rules. An accepted source followed, on a new line, by one that starts with a rule gives the rules of the first followed by those of the second and exactly the errors of the second, each seeing the other's definitions; and if the first is not accepted, neither is the whole. A parser built with an environment sees the definitions earlier parsers left in it and adds its own; parsers without a common environment share nothing.",
 ["programs","histories"],"all pairs of sources and all sequences of parsers over one or several environments",
 "Tests parse one rule at a time with fresh parsers.",
 [PS,"environment/environment.go"],[("rule loop",PS+":ParseFile"),("environment option",PS+":WithEnv, NewParser")],["ParseFile","parser.WithEnv"])
prop("A01","Every node of an accepted tree has a sensible source span",
 "For every node of a tree parsed without errors, asking for its start and end never panics; the start is the position where the node's text begins in the source, the end is not before the start, and the span of a child lies within the lines and offsets of the source. A node's span covers the starts and ends of its children, and the span of a name, a text or a comment has as many bytes as its name, the content of the text or the comment's text, of whatever script.",
 ["programs"],"all nodes of all trees parsed without errors",
 "No test calls Start or End on parsed nodes beyond fields of leaf types.",
 ["ast/"],[("spans","ast/*.go Start, End")],["ast.Node.Start","ast.Node.End"])
prop("A02","Walking a tree visits every node exactly once, parents first",
 "For every tree that parsing returns without errors, or that is built by hand of the nodes a schema can have, wherever they are placed, walking it with a visitor never panics and visits the root, every child reachable from it, and nothing else, each exactly once, parents before children and children in source order; after the children of a node the visitor is called with nil. If the visitor declines a node, nothing below that node is visited.",
 ["programs"],"all trees parsed without errors or built of nodes that are not missing children, and all visitors that decline any subset of nodes",
 "The walker has no tests at all.",
 ["ast/astutils/walk.go"],[("Walk","ast/astutils/walk.go:Walk")],["astutils.Walk"])
prop("A03","Printing a tree never fails and shows what it prints",
 "Formatting any node of a tree parsed without errors never panics; the text for identifiers, integer literals, choices and groups contains the node's name, value, both alternatives or number of entries, and its line and column. The same holds for such nodes built by hand, with any name, any number and any place.",
 ["programs"],"all nodes of all trees parsed without errors, and identifiers, integer literals, choices and groups of any content",
 "The printer has no tests.",
 ["ast/astutils/print.go"],[("format","ast/astutils/print.go")],["astutils.Format"])
prop("A04","Sockets and plugs are told apart by their prefix",
 "An identifier is a plug exactly if its name starts with two dollar signs and a socket exactly if it starts with one dollar sign that is not followed by another; it is never both, and the empty name is neither.",
 ["inputs"],"all names",
 "No test covers these predicates.",
 ["ast/identifier.go"],[("IsSocket, IsPlug","ast/identifier.go")],["ast.Identifier.IsSocket","ast.Identifier.IsPlug"])
prop("T01","Token names, lookup and classes are consistent",
 "Looking up a word returns a predefined type, value or control operator token exactly if the word is that token's printed name, and the identifier token for every other word; distinct predefined names have distinct tokens. A token is a control operator exactly if its name is looked up with a leading dot, numeric exactly if it denotes an integer or float type, and printing any token value, valid or not, gives a non-empty name without failing.",
 ["inputs"],"all words and all token values",
 "Tokens are only exercised through the lexer tests.",
 [TK],[("tables",TK+":tokens, init"),("predicates",TK+":IsControlOp, IsNumeric, IsLiteral, String")],["token.Lookup","token.Token.String"])
prop("T02","Position arithmetic and printing are exact",
 "Moving a position by n columns advances offset and column by exactly n and keeps file and line; moving by a then b equals moving by a+b. A position prints as file, line and column with the parts that are unset left out, and a range prints its start and, on the same line, its end column or otherwise its end line and column.",
 ["inputs"],"all positions and lengths",
 "No test covers positions as such.",
 ["token/position.go"],[("To, String","token/position.go")],["token.Position","token.PositionRange"])
prop("E01","The symbol table is a write-once map",
 "After any sequence of additions, a name exists exactly if it was added, looking it up returns the node of its first addition, adding it again fails with the symbol-exists error and changes nothing, and looking up any other name returns nil. Separate environments share nothing.",
 ["histories"],"all sequences of additions and lookups over all names and environments",
 "Two additions and one missing lookup are tested.",
 ["environment/environment.go"],[("symbols map","environment/environment.go")],["environment.Environment"])
prop("R01","Runtime validators decide exactly the documented comparisons",
 "For all values of every integer and floating-point type, the exclusive range check holds exactly if lower < value < upper, the inclusive one exactly if lower <= value <= upper, and the less-than and greater-than checks exactly for strict comparison with the limit. NaN satisfies none of them, and the must-checks panic exactly if given false or a non-nil error.",
 ["inputs"],"all operand values of all ten integer and two float types",
 "The validators have no tests.",
 ["runtime/validators/validators.go"],[("comparisons","runtime/validators/validators.go")],["validators package API"])
prop("R02","The size validator compares the value's byte width with the limit",
 "For every value of a fixed-width type and every limit, the size check holds exactly if the number of bytes the type occupies is less than the limit, whatever the value is.",
 ["inputs"],"all limits and values of the fixed-width types",
 "The validators have no tests.",
 ["runtime/validators/validators.go"],[("CheckSize","runtime/validators/validators.go:CheckSize")],["validators.CheckSize"])
prop("G01","Generation emits well-formed Go or refuses the schema",
 "For every schema that parses without errors, generation either fails or writes syntactically valid Go in the requested package: every declared, field, type and receiver name is a Go identifier and not a keyword, only named types are embedded, every literal is a Go literal, and packages are imported, once, exactly if the code calls them. Each rule yields exactly one declaration, in source order, and each declared type one Valid method. Schemas made of predefined types, literals as rules, names of letters, digits and separators, groups and arrays of entries with keys or names, optional and repeated entries with keys, repeated types and integer sizes are never refused.",
 ["programs"],"all schemas over the generator's supported constructs and all CDDL identifiers made of letters, digits and separators",
 "The only generator test prints one array and checks nothing.",
 ["transforms/codegen/golang/"],[("rules","transforms/codegen/golang/gen_grouped.go:Visit, bundleValidators"),("identifiers","transforms/codegen/golang/gen_identifiers.go")],["gogen.Generator.String output"])
prop("G02","Generated types and values mean what the schema says",
 "Each predefined type maps to its Go counterpart (text to string, bytes and bstr to byte slices, int and nint to int, uint to uint, floats to floats, bool to bool, null to a type and not to nil), repeated entries and types map to slices of their item, and each literal rule becomes a variable whose Go literal has exactly the schema's value and kind. A group or array becomes a struct with exactly one field per entry, in order, whose name and type correspond to the entry; arrays are marked as arrays and exactly the optional entries are marked to be omitted when empty.",
 ["programs"],"all schemas over the generator's supported constructs",
 "The only generator test checks nothing about its output.",
 ["transforms/codegen/golang/"],[("types","transforms/codegen/golang/gen_base_types.go"),("literals","transforms/codegen/golang/gen_literals.go"),("structs","transforms/codegen/golang/gen_grouped.go")],["gogen.Generator.String output"])
prop("C01","Case-conversion options are validated against the supported set",
 "Generator options are valid exactly if their case conversion is one of the supported names, and the error for any other name mentions it.",
 ["configurations"],"all option values",
 "No test covers options.",
 ["transforms/codegen/golang/options.go","transforms/codegen/golang/gen_identifiers.go"],[("Valid","transforms/codegen/golang/options.go")],["gogen.Options.Valid"])
prop("C02","Generation reports every failure and writes only its own outputs",
 "Running generate succeeds only if every .cddl file of every configured source directory was read, parsed without errors, generated and written completely to the output directory under the same base name with extension .go, preceded by nothing but a comment; any failing step makes the command return an error instead of crashing. Other files are never read as schemas nor written, and a schema that fails to parse or to be generated leaves a previously generated output as it was.",
 ["fault_sequences","configurations"],"all directory contents and all combinations of failing file operations",
 "The commands have no tests.",
 ["cmd/cddlc/commands/generate.go"],[("GenerateCmd","cmd/cddlc/commands/generate.go"),("generateFile","cmd/cddlc/commands/generate.go")],["commands.GenerateCmd result","file system"])
prop("C03","Init never overwrites an existing configuration",
 "Initialising a project creates cddlc.json with the default configuration only if the current directory has no such file, and reports an error, leaving the file untouched, if one exists, its state cannot be determined, or another process creates it meanwhile. Failures to create, write or close it are reported.",
 ["fault_sequences","schedules"],"all outcomes of the file operations involved and all moments at which another process creates the file",
 "The commands have no tests.",
 ["cmd/cddlc/commands/init.go"],[("getFileHandle","cmd/cddlc/commands/init.go")],["commands.InitCmd result","file system"])
prop("C04","Configuration discovery uses exactly cddlc.json or cddlc.yaml",
 "Generate uses cddlc.json of the current directory if present, otherwise cddlc.yaml, otherwise the defaults; other files, whatever their names, have no influence, and a configuration file that cannot be read or decoded is an error rather than silently replaced by defaults.",
 ["configurations"],"all sets of file names in the project directory",
 "The commands and the configuration loader have no tests.",
 ["cmd/cddlc/commands/generate.go","config/config.go"],[("loadConfigFromDir","cmd/cddlc/commands/generate.go"),("LoadConfig","config/config.go")],["commands.GenerateCmd","config.LoadConfig"])
prop("C05","Error reports show every error with its source line",
 "Rendering the errors of a source never fails and yields one report per error, in order, that contains the error's message, the text of the line it points at with its line number, and a marker under the column it points at.",
 ["inputs"],"all sources and all errors that parsing them produces",
 "The rendering has no tests.",
 ["cmd/cddlc/commands/generate.go","cmd/cddlc/commands.go"],[("errorStringer","cmd/cddlc/commands/generate.go")],["stderr of parse and generate"])
prop("C06","Configuration files decode to what they say",
 "Loading a file named cddlc.json or cddlc.yaml, in whatever directory, gives exactly what is written in it under the keys version, builds (package, src, output), plugins (name, local.path, remote.url) and options, in the order of the file and whatever the values are; what the file leaves out is left empty; and the two formats with the same content give the same configuration. A file that cannot be read, is empty or cut short, or has another name is an error, and the configuration written by init is loaded as the default configuration.",
 ["inputs","configurations"],"all configuration files and all values in them",
 "The loader has no tests.",
 ["config/config.go","cmd/cddlc/commands/init.go"],[("LoadConfig","config/config.go:LoadConfig"),("structure tags","config/config.go"),("InitCmd","cmd/cddlc/commands/init.go")],["config.LoadConfig"])
prop("C07","Plugin paths of a configuration are validated",
 "Validating a configuration succeeds exactly if the local path of each of its plugins is an existing directory whose state can be determined, whichever plugin is the bad one.",
 ["configurations","fault_sequences"],"all lists of plugins, states of their paths and failures to look at them",
 "The configuration has no tests.",
 ["config/config.go"],[("Valid","config/config.go")],["config.Config.Valid"])
prop("C08","The token listing is complete and fails on illegal tokens",
 "Listing the tokens of a file prints every token of the file in order with its position, kind and text and nothing else, and fails exactly if the file cannot be read or contains an illegal token. Commands that take a file refuse any other number of arguments and files that cannot be read.",
 ["inputs","fault_sequences"],"all contents of the file and failures to read it",
 "The commands have no tests.",
 ["cmd/cddlc/commands.go"],[("LexerCmd","cmd/cddlc/commands.go"),("ParseCmd","cmd/cddlc/commands.go")],["output and result of the lex command"])
prop("C09","An interactive session survives every line",
 "An interactive session takes any sequence of lines without crashing, shows every error of every line given the definitions of the lines before it, and ends when it is told to or with its input.",
 ["inputs","histories"],"all sequences of lines",
 "The session has no tests.",
 ["cmd/cddlc/commands/repl.go"],[("Repl","cmd/cddlc/commands/repl.go")],["output and result of the session"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(p,ensure_ascii=False)+"\n" for p in P))
print(len(P),"properties")
