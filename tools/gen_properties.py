#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the file stays well-formed)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe, "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

VOC="src/runtime/vocabulary.rs"; GR="src/tool/grammar/mod.rs"; LL="src/tool/parser/ll1_parser.rs"
V1P="src/tool/v1/syntaxis_parser.rs"; V1L="src/tool/v1/syntaxis_lexer.rs"; HL="src/tool/syntaxis/syntaxis_lexer.rs"
GV="src/tool/visitor/grammar_visitor.rs"; LV="src/tool/visitor/lexer_rule_visitor.rs"; TERA="src/tool/templates/target/rust/lexer.tera"
RC="src/runtime/ast/rule_context.rs"; SJ="src/tool/syntaxis/syntaxis2.json"; SER="src/tool/serde_ast/mod.rs"
DR="src/tool/gui/ast_drawer.rs"; HTML="src/tool/templates/gui/ast.html"
CTX="src/tool/syntaxis/syntaxis_context.rs"; V1C="src/tool/v1/syntaxis_context.rs"
VIS="src/tool/syntaxis/syntaxis_visitor.rs"; V1V="src/tool/v1/syntaxis_visitor.rs"
LIS="src/tool/syntaxis/syntaxis_listener.rs"; WLK="src/tool/syntaxis/syntaxis_walker.rs"

p("C01","The symbol table is a consistent bijection after every history",
  "After any sequence of registrations of terminals, named rules and anonymous rules (including repeated names and repeated numbers), every registration that reported success is found again by number and, if named, by name, with name and number mapping to each other one-to-one inside each of the two kinds; a registration whose name or number is already taken in its kind reports failure and changes nothing. The two reserved terminals (0 = _START, 1 = _STOP) are always present, terminals and rules never interfere with each other, and lookups of unknown symbols say so (or, for rules, fall back to the number as text).",
  ["histories"],"all sequences of add-terminal / add-named-rule / add-anonymous-rule operations over colliding names and numbers",
  "No test registers a colliding symbol; the tests build one fixed vocabulary from one grammar file.",
  [VOC],[("uniqueness checks before insert into four maps and two sets",VOC+": add_terminal, add_named_nonterminal, add_unnamed_nonterminal")],
  ["get_*_name_by_id","get_*_id_by_name","is_*_id","is_*_name_defined","get_all_*"],
  [("name/id maps","two maps per kind that must stay inverse",VOC)])

p("C02","Nullability and FIRST sets are exact for every grammar",
  "For every context-free grammar, the computed first set of each rule and of each production contains exactly the terminals that can begin a string derived from it, and the epsilon flag is set exactly when it can derive the empty string. This holds whatever order the productions happen to be iterated in, and the computation terminates for every grammar, including recursive, unproductive and unreachable rules.",
  ["inputs","configurations"],"all grammars; all iteration orders of the (hash-ordered) production set",
  "The two tests that call it assert nothing, on a single grammar and whatever hash order that process happened to draw.",
  [GR],[("fixpoint over productions until nothing is modified",GR+": first_set, get_first_set_for_non_epsilon_rule")],["Grammar::first_set"])

p("C03","FOLLOW sets are exact for every grammar",
  "For every grammar whose start rule is rule 0, the computed follow set of each rule is exactly the least solution of the standard equations over all productions: the end marker follows the start rule, the beginnings of whatever can come next inside a right-hand side follow a rule occurrence, and whatever follows the left-hand side follows a rule occurrence whose remainder can vanish; epsilon is never a member. This holds for every iteration order of the productions and the computation terminates.",
  ["inputs","configurations"],"all grammars with a start rule; all iteration orders of the production set",
  "The test asserts nothing and sees one grammar; the expected sets only exist as a comment.",
  [GR],[("fixpoint, string-FIRST of the remainder",GR+": follow_set, get_first_for_string")],["Grammar::follow_set"])

p("C04","The prediction table is exact and conflicts are never silent",
  "For every grammar, the table has an entry for (rule, lookahead) exactly when some production of that rule starts with that lookahead or can vanish with that lookahead following the rule, and the entry is one of those productions. A diagnostic is printed exactly when some entry has more than one claim on it (equivalently: when the grammar is not LL(1)); for an LL(1) grammar nothing is printed and the table is the same for every iteration order of the productions.",
  ["inputs","configurations"],"all grammars; all iteration orders of the production set",
  "ll1_table_test prints the table of one grammar and asserts nothing; no grammar with a conflict is ever built.",
  [GR],[("insert per FIRST terminal, per FOLLOW terminal when nullable, print on overwrite",GR+": ll1_table")],["Grammar::ll1_table","stdout"])

p("C05","Every sentence of an LL(1) grammar parses to its derivation tree",
  "For every LL(1) grammar and every sentence of it followed by the end marker, both table-driven parsers (the generic one and the one shipped for the grammar notation) return, without any diagnostic, the sentence's unique derivation tree, in which anonymous rules are spliced into their parent, named rules appear with their own number and name even when empty, and the leaves are exactly the input tokens, in order and unaltered.",
  ["inputs","programs"],"all LL(1) grammars, all choices of which rules are anonymous, all sentences",
  "One sentence of one grammar is parsed and drawn; the tree is not inspected.",
  [LL,V1P],[("recursive descent over the table, splicing unnamed children",LL+": parse_ast"),("the same, copied",V1P+": parse_ast")],["LL1Parser::parse","v1 SyntaxisParser::parse"])

p("C06","A token sequence that is not a sentence is never accepted silently",
  "For every LL(1) grammar and every token sequence, with or without an end marker, both parsers terminate, and if they return a tree without having printed a diagnostic then the leaves of that tree are a prefix of the given tokens, that prefix is a sentence, and the tree is its derivation tree. Anything else ends in a printed mismatch or a panic.",
  ["inputs","programs"],"all LL(1) grammars and all token sequences",
  "No test parses an invalid input.",
  [LL,V1P],[("table lookup must succeed; terminal mismatch is printed",LL+": parse_ast"),("the same, copied",V1P+": parse_ast")],["LL1Parser::parse","v1 SyntaxisParser::parse","stdout"])

p("C07","Turning EBNF rules into productions preserves each rule's language",
  "For every grammar description built from token references, rule references, parenthesised blocks, alternatives, epsilon and the suffixes * + ? (greedy or with a trailing ?), the productions produced from it derive, from each described rule, exactly the strings the description denotes. Helper rules introduced on the way are always anonymous, have fresh numbers, and never change the meaning of another occurrence; repeated definitions of a rule contribute the union of their alternatives.",
  ["inputs","programs"],"all grammar descriptions",
  "grammar_test prints the productions of one description; no test compares languages, and that description has few suffixes.",
  [GV],[("per-suffix expansion with caches, block expansion with a cache",GV+": ProductionVisitor")],["Grammar.productions","Grammar.vocabulary"],
  [("star/plus/question/block caches","reuse of helper rules for identical operands",GV)])

p("C08","Symbols are numbered in definition order and token patterns carry over",
  "For every grammar description, token rules get consecutive numbers from 2 and parser rules consecutive numbers from 0 in order of first definition, a repeated definition of a name is reported on standard output and gets no number of its own (the first pattern of a token stays in force), and the list of token rules gives, in numbering order, each token's number, name and a pattern that matches exactly what was written between the slashes (an escaped slash meaning a slash), and only at the current position, for every alternative. A reference to an undefined symbol is never silently accepted.",
  ["inputs","histories"],"all sequences of token and parser rule definitions, including repeats and dangling references, and all patterns",
  "The only description used has no repeats and no dangling references; nothing asserts on the numbers or patterns.",
  [GV,LV],[("numbering visitors",GV+": SymbolVisitor; "+LV+": LexerRuleVisitor"),("lookups by name",GV+": ProductionVisitor::visit_element")],["vocabulary","LexerRuleData list","stdout"])

p("C09","Grammar text is split into the right tokens: longest match, first rule wins",
  "For every input text, both lexers for the grammar notation (the hand-written one and the shipped generated one) produce, from the start of the text, the sequence of tokens in which each token is the longest match any token kind has at that point, ties going to the kind listed first, each with the kind number and symbolic name of that kind. The kinds are those of the notation: identifiers by case with at least two characters, the six rule arrows, punctuation, epsilon, quoted string literals with their escapes, slash-delimited patterns with escaped slashes, white space (and, in the hand-written lexer, comments, the keyword fragment and a few extra signs).",
  ["inputs"],"all input texts",
  "One text is lexed and printed; nothing is asserted about kinds or boundaries.",
  [V1L,HL],[("ordered regex list, strictly-longer replaces",V1L+": scan"),("the same with its own list",HL+": scan")],["Lexer::scan"])

p("C10","Token text, offsets, lines, columns and sequence numbers are exact",
  "For every input text, the tokens returned one by one tile the consumed part of the text without gap or overlap: each token's half-open offsets slice the input to exactly its text, its start position is the previous token's stop position, lines count the newlines before it (from 0), columns count from the last newline in the same unit as the offsets (bytes), and sequence numbers count every token including skipped ones. The end token has the empty range at the end of the input.",
  ["inputs"],"all input texts, all three lexers (hand-written, shipped generated, freshly generated)",
  "No test looks at a position; multi-line tokens, multi-byte text and the end token are never checked.",
  [V1L,HL,TERA],[("position arithmetic after each match",V1L+": scan; "+HL+": scan; "+TERA)],["Token fields"])

p("C11","A generated lexer compiles and tokenises by its own rule list",
  "For every list of token rules with valid patterns and distinct names usable as Rust constants, the Rust lexer rendered from the template compiles and, on every input, yields at each point the rule with the longest match (ties to the rule listed first) with the number and name the rule list gives, exposes one constant per token with that number, skips exactly the tokens named WHITE_SPACE (if there are any) when collecting, ends with one end token when everything matched, and stops where nothing matches.",
  ["programs","inputs"],"all token rule lists and all inputs",
  "The tests generate one lexer from one rule list, and the run that generates it does not compile it.",
  [TERA],[("code template",TERA)],["rendered source compiled and run"])

p("C12","Grammar text round-trips through the shipped front end",
  "For every grammar description, writing it as text (with any white space between tokens) and running it through the shipped lexer, the prediction table built from the shipped description of the notation, and the shipped parser gives back exactly that description's tree: same rules, same order, same nesting, same suffixes, same token texts. The same holds when parsing starts at any of the parser's typed entry points (on the tokens of such a part and whatever may follow it), and the typed accessors of what they return give back the parts of the description.",
  ["inputs","programs"],"all grammar descriptions, all layouts, all entry points",
  "One grammar text is parsed and drawn; the tree is never compared with anything.",
  [V1L,V1P,V1C,SJ,GR,GV],[("lexer + table + parser bootstrapped from the JSON description",V1L+", "+V1P+", "+SJ)],["SyntaxisParser::parse and typed entry points"])

p("C13","The JSON tree loader is exact, total and independent of how bytes arrive",
  "For every input, loading a syntax tree either returns exactly the tree the document describes (same nesting and order, rule numbers and names, token numbers, names and texts, a placeholder when a token has no text) or an error; it errors exactly when the document is not valid JSON (or nested deeper than the JSON reader allows) or some node lacks what its kind requires, and never panics. Loading from a string and from a reader agree for every way the reader may chunk its bytes or be interrupted, and a failing reader yields an error.",
  ["inputs","fault_sequences"],"all JSON documents; all chunkings, interruptions and failures of the reader",
  "The tests load one well-formed file.",
  [SER],[("recursive descent over the JSON value",SER+": parse_rule, parse_terminal")],["from_str","from_reader"])

p("C14","Tree queries return exactly the matching nodes and the covered source text",
  "For every syntax tree, asking a node for its terminals, error leaves or sub-rules of a given number returns exactly its direct children of that kind and number in order, indexed access agrees with that list and is empty out of range, the start and stop tokens are the first and last leaves below the node however deep and however many empty rules come before or after them (none if it has no leaves), first and last terminal likewise in trees without error leaves, and the covered text is the source from the first leaf's start to the last leaf's stop (empty if there are none).",
  ["inputs"],"all trees over terminals, error leaves and (possibly empty) rules",
  "Only a three-level tree without empty rules is ever built by hand, and no query result is asserted.",
  [RC],[("child filters and recursive descent to the edge leaves",RC)],["RuleContext query methods"])

p("C15","Walkers and visitors cover every node exactly once, in order, by kind",
  "For every tree, walking it fires, in document order and properly nested, for each rule node the generic enter, the enter of exactly its own kind, its children's events, the exit of its own kind and the generic exit, and for each leaf one enter and one exit of its leaf kind. Visiting it with the default visitor calls, for each node, the method of exactly its own kind once and in document order, stops visiting further children of a node when told to, and folds child results in order with the last result by default; overriding one kind's method affects only nodes of that kind.",
  ["inputs"],"all trees over all nine rule kinds, unknown kinds, terminals and error leaves; all stop points",
  "The library's own walker is never run by a test, and the visitor only through one fixed tree.",
  [VIS,V1V,LIS,WLK,CTX,V1C],[("dispatch by rule number",VIS+": visit; "+LIS+": enter/exit"),("double dispatch",CTX+": accept/enter/exit")],["listener and visitor callbacks"])

p("C16","A drawn tree evaluates to exactly the given tree, whatever its texts",
  "For every tree and every rule name, token name and token text, the HTML document written for it contains a script whose data, as a browser evaluates it, is exactly that tree: same nesting and order, same names, rule numbers and texts character for character; no text can end the script, alter its structure or run as code. The document is written completely even when the operating system accepts only part of each write, and a failing write is never reported as success.",
  ["inputs","fault_sequences"],"all trees and texts; all patterns of partial, interrupted and failing writes",
  "The drawing tests write a file and look at nothing; texts contain neither dollar signs nor tags, and no write is ever short.",
  [DR,HTML],[("escaping into JavaScript template literals, template rendering",DR+": escape, dump"),("file write",DR+": draw")],["written file"])

p("C17","A printed grammar shows exactly its productions",
  "For every grammar, its printed form has exactly one line per production, from which the left side and every symbol of the right side can be read back in order: named rules and terminals by name, anonymous rules by number, adjacent symbols always separated.",
  ["inputs"],"all grammars with named and anonymous rules",
  "Tests print one grammar to the console and compare nothing.",
  [GR],[("Display implementation",GR+": impl Display for Grammar")],["Display"])

p("C18","Results do not depend on hash seeds or on earlier work",
  "For every grammar description, repeating the whole way from description to numbers, productions, sets, prediction table and parse trees gives the same result every time, whatever the process's hash seeds and whatever other grammars were processed before; for descriptions that are not LL(1) this holds for everything except which competing production a conflicting table entry holds.",
  ["configurations","histories"],"all descriptions, all hash-seed-induced iteration orders, all preceding work in the process",
  "Each test runs once, with whatever seeds the process drew, and compares nothing.",
  [GV,GR,VOC],[("numbering from ordered lists; sets computed to a fixpoint",GV+"; "+GR)],["whole pipeline"])

p("C19","A string literal's token matches exactly the literal",
  "For every string literal the notation allows (without the digit escape, and with code point escapes that name characters), the literal-collecting visitor registers one token per distinct spelling, in order of appearance, numbered from 2, whose pattern is valid and matches at the current position exactly the text the literal denotes and nothing else: regex metacharacters stand for themselves and escape sequences denote the characters they name.",
  ["inputs"],"all string literals and all sequences of literals",
  "No test has a string literal in a grammar.",
  [LV,GV],[("literal to regex",LV+": StringLiteralVisitor")],["LexerRuleData list"])

p("C20","Typed accessors return exactly the parts of the node they name",
  "For every node of a grammar-notation tree, in both accessor families (the one for loaded descriptions and the one for the shipped generated front end), each typed accessor returns exactly the direct children with the number the respective family's lexer or parser constants give to the part it is named after, in order, the single-valued ones the first such child or nothing.",
  ["inputs"],"all nodes over all token and rule numbers",
  "Tests use a handful of accessors on one tree and never the shipped family.",
  [CTX,V1C],[("number-based child lookup",CTX+"; "+V1C)],["context traits"])

p("C21","A lexer signals end and failure exactly once and never loses its place",
  "For every input and every sequence of single-token and collect-all requests, a lexer behaves as one cursor over its token sequence: collecting returns exactly the not-yet-delivered tokens on the requested channel except skipped kinds, the shipped generated lexer delivers one end token after the last token if and only if the whole input was matched, every request after the end or at an unmatchable character fails without advancing and without panicking, and collecting up to an unmatchable character prints the unread rest.",
  ["histories","inputs"],"all inputs and all request sequences",
  "Tests collect once from one fully matchable input.",
  [V1L,HL],[("cursor and end sentinel",V1L+": scan, scan_all_on_channel_tokens; "+HL)],["scan","scan_all_on_channel_tokens","stdout"])

p("C22","The textual dump of a tree shows its exact shape",
  "For every tree, its printed form shows each rule as its name followed by its children in order in parentheses and each leaf by its token name, so that for names without spaces and parentheses the shape, order and names can be read back exactly.",
  ["inputs"],"all trees",
  "One three-level tree is printed and not compared.",
  [RC,"src/runtime/ast/ast_context.rs","src/runtime/ast/terminal_context.rs","src/runtime/ast/error_context.rs"],[("Display implementations",RC+": impl Display")],["Display"])

p("C23","From description to parse tree: parsing follows the described rules",
  "For every grammar description that is LL(1) after translation and every token string, loading the description, translating it, building the table and parsing the string gives, without a diagnostic, exactly the tree obtained by matching the string against the described rules directly (one node per matched named rule, its tokens and sub-rules in order, nothing for blocks and repetitions) when the start rule matches the string, and never a silent complete parse when it does not.",
  ["programs","inputs"],"all LL(1) grammar descriptions and all token strings",
  "The tests run this chain for one description and one string without checking the tree.",
  [SER,GV,GR,LL],[("loader, visitors, analysis, parser in sequence",SER+", "+GV+", "+GR+", "+LL)],["LL1Parser::parse after the full pipeline"])

p("C24","The shipped front end agrees with the shipped description of the notation",
  "The shipped lexer's and parser's token and rule numbers and names are the ones the shipped description of the notation yields, the shipped lexer splits every text exactly as a lexer generated afresh from that description would, the description is LL(1), and the language it describes is the documented grammar notation. The command-line program, for every hash seed, parses its built-in grammar text and writes the document of exactly that text's tree.",
  ["inputs","configurations"],"all texts, all token sequences of the notation, all hash seeds",
  "gen_lexer overwrites a file without comparing it with the shipped lexer; no test relates the numbers to the description.",
  [SJ,V1L,V1P,TERA,"src/main.rs"],[("bootstrapping",SJ+" -> "+V1L+", "+V1P)],["constants","token sequences","parse trees","written document"])

p("C25","A printed token shows every field and a new token carries what was given",
  "For every token, its printed form is [@sequence number, start:stop='text', <name>, <kind number>, start: <position>, stop: <position>] with the half-open character offsets, the text verbatim and each position as 'line: l, position: c', every field showing its own full value. A token made from a kind number, name and text carries exactly these, with all other fields zero, and a terminal or error leaf made of a token gives that token's text and prints as its name.",
  ["inputs"],"all tokens",
  "Tests print tokens without comparing anything.",
  ["src/runtime/token.rs","src/runtime/ast/terminal_context.rs","src/runtime/ast/error_context.rs"],[("Display implementations and constructor","src/runtime/token.rs: impl Display, Token::new")],["Display","Token::new","get_text"])

p("C26","Trees and grammars may change at any time and descriptions may come in pieces",
  "After any sequence of changes to a syntax tree (children added, removed, nested or renumbered, leaves changed) every query on it and its printed form answer for the tree as it then is, and a copy and its original never affect each other. After any sequence of productions added to or removed from a grammar and rules registered in it, with analyses made in between, its FIRST and FOLLOW sets, prediction table, conflict report and printed form are those of the grammar as it then is, whatever happened to other grammars. A description given piece by piece, to the same visitors or to new ones that continue with the numbers reached, yields the same token and rule numbers, token patterns and rule languages as given whole.",
  ["histories"],"all sequences of changes, copies and queries, all ways of cutting a description into pieces",
  "Tests build every object once and never change it after the first query.",
  [RC,GR,VOC,GV,LV],[("public children, productions and vocabulary; queries that compute from them",RC+", "+GR),("visitors that carry their next numbers",GV+", "+LV)],["RuleContext query methods","first_set, follow_set, ll1_table, Display","vocabulary, LexerRuleData list, productions"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
