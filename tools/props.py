import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or [],hook_needed=None)))
G="src/tool/grammar/mod.rs"
p("C01","FIRST sets are exact",
 "For every grammar, the FIRST set computed for a nonterminal or for a production contains exactly the terminals that can begin a string derived from it. It is marked as allowing epsilon exactly when the empty string can be derived from it. Every nonterminal and every production of the grammar has an entry, and the result does not depend on the order in which symbols or productions are visited.",
 ["programs","schedules"],"every grammar (any number of rules, productions, symbols; recursive, nullable, unreachable, unproductive rules included) and every iteration order of the hash containers",
 "The tests print the FIRST sets of one fixed grammar and assert nothing; the fixpoint's correctness is a statement over all grammars and all hash iteration orders.",
 [G],[("Grammar::first_set",G),("Grammar::get_first_set_for_non_epsilon_rule",G),("Production::is_epsilon",G)],["return value of Grammar::first_set"])
p("C02","FOLLOW sets are exact",
 "For every grammar, the FOLLOW sets are the least sets such that the start rule (number 0) has the end mark _STOP, every terminal that can begin what stands behind an occurrence of a nonterminal in a production is in that nonterminal's set, and the set of a production's left side is contained in that of every nonterminal behind which nothing or only something that can vanish stands. Every nonterminal has an entry, and the result does not depend on visiting order.",
 ["programs","schedules"],"every grammar and every iteration order of the hash containers",
 "The only test prints FOLLOW sets of one grammar without asserting; the closure property must hold for all grammars.",
 [G],[("Grammar::follow_set",G),("Grammar::get_first_for_string",G)],["return value of Grammar::follow_set"])
p("C03","The LL(1) table predicts exactly the right productions",
 "For every grammar, the table has a cell for a rule and a terminal exactly when one of the rule's productions is predicted by that terminal: it is in the production's FIRST set, or the production can derive the empty string and it is in the rule's FOLLOW set. The production in the cell is one of those; for an LL(1) grammar it is the only one.",
 ["programs","schedules"],"every grammar, LL(1) or not, and every iteration order of the hash containers",
 "The test prints the table of one grammar; which cells exist and what they hold is a statement over all grammars.",
 [G],[("Grammar::ll1_table",G)],["return value of Grammar::ll1_table"])
LP="src/tool/parser/ll1_parser.rs"; VP="src/tool/v1/syntaxis_parser.rs"
p("C04","Parsing a sentence yields its derivation tree",
 "For every LL(1) grammar and every sentence of its language, parsing the sentence's tokens with the grammar's table yields the sentence's derivation tree: each named rule is a node with its number and name, each token is an ordinary leaf that carries the very token read, in order and each once, and no error node appears. Anonymous rules have no node of their own; their children stand in their place. Each entry point of the shipped notation parser starts at its own rule.",
 ["programs","inputs"],"every LL(1) grammar and every sentence in its language, for the generic and for the notation's own parser",
 "The tests parse one fixed text and draw the result without looking at it; the statement is over all grammars and all sentences.",
 [LP,VP],[("LL1Parser::parse_ast",LP),("SyntaxisParser::parse_ast",VP),("SyntaxisParser::rule_list and the other entry points",VP)],["tree returned by parse"])
GV="src/tool/visitor/grammar_visitor.rs"
p("C05","Productions denote exactly the language the EBNF rules denote",
 "For every set of parser rules written with alternatives, epsilon, parenthesised blocks and the suffixes * + ? (lazy or not), the productions built from its syntax tree derive for each rule exactly the token strings the rule denotes. This holds however blocks and repeated items recur, nest or share anonymous rules, and for every numbering of tokens and rules.",
 ["programs"],"every syntax tree of parser rules, every assignment of symbol numbers",
 "The tests lower one grammar file and print it; equality of languages is a statement over all rule sets, in particular those whose parts look alike.",
 [GV],[("ProductionVisitor::visit_parser_rule",GV),("ProductionVisitor::visit_element",GV),("ProductionVisitor::visit_block",GV),("block, star, plus and question caches",GV)],["Grammar::productions"])
VO="src/runtime/vocabulary.rs"
p("C06","The vocabulary stays a consistent two-way mapping",
 "After any sequence of additions, looking a terminal or nonterminal up by name and by number agree: a name added maps to the number it was added with and back, the first addition of a name or number wins, and a refused addition changes nothing and returns false. Terminals and nonterminals do not affect each other, anonymous nonterminals have a number but no name and print as their number, and _START and _STOP are terminals 0 and 1 from the start.",
 ["histories","inputs"],"every sequence of additions of terminals, named and anonymous nonterminals with any names and numbers",
 "No test exercises the vocabulary's queries; consistency is a statement over all histories of additions, collisions included.",
 [VO],[("Vocabulary::add_terminal, add_named_nonterminal, add_unnamed_nonterminal",VO),("lookups by name and by id",VO)],["the vocabulary's query methods"])
LV="src/tool/visitor/lexer_rule_visitor.rs"
p("C07","Symbols are numbered once and keep their regular expressions",
 "From any grammar's syntax tree, lexer rules get consecutive token numbers and parser rules consecutive rule numbers in order of their first definition, after those already handed out; a rule defined again is ignored and uses up no number. The lexer rule data lists each token once, with its number, name and a regular expression that is the text between the slashes with \\/ read as /, anchored at the start; what earlier passes collected is kept in front.",
 ["programs","inputs"],"every sequence of rules with any names (repeated ones included) and any regular expression text",
 "The tests number one grammar without duplicates; duplicates, escapes and first numbers vary over all inputs.",
 [GV,LV],[("SymbolVisitor::visit_lexer_rule",GV),("SymbolVisitor::visit_parser_rule",GV),("LexerRuleVisitor::visit_lexer_rule",LV)],["visitor data and next numbers","Grammar::vocabulary"])
LX=["src/tool/v1/syntaxis_lexer.rs","src/tool/syntaxis/syntaxis_lexer.rs","src/tool/templates/target/rust/lexer.tera"]
p("C08","Lexers take the longest match and place every token",
 "For every input and list of token rules, each scan returns the token of the longest match at the cursor, the earliest rule winning ties, or an error where no rule matches a non-empty text. Each token carries the text of its extent, its byte offsets, start and stop positions (line and byte column, from 0) that agree with the input, and consecutive indexes; the v1 and the generated lexers end with one _STOP token placed at the end of the input. Scanning everything yields the same tokens in order, only white space and comments left out.",
 ["inputs"],"every input text, for the two shipped lexers and for lexers generated from the template",
 "The tests scan one text and print the tokens; longest match, ties and positions depend on the input.",
 LX,[("SyntaxisLexer::scan",LX[0]),("SyntaxisLexer::scan",LX[1]),("generated scan",LX[2]),("scan_all_on_channel_tokens",LX[0])],["tokens returned by scan"])
p("C09","The shipped lexers accept exactly the documented tokens",
 "For every input, the shipped lexers of the grammar notation split the text into the notation's tokens: names, keywords, the operators and the spellings of the colon, string and regular literals with their escapes, white space and comments, each with its number and name. Nothing else is accepted, and the token numbers and names of both lexers agree with the notation.",
 ["inputs"],"every input text, for the bootstrap lexer and the v1 lexer",
 "The tests scan one grammar text; which texts are tokens is a statement over all inputs.",
 LX[:2],[("regular expressions of the lexers",LX[0]),("regular expressions of the lexers",LX[1]),("token number and name tables",LX[1])],["tokens returned by scan"])
RC="src/runtime/ast/rule_context.rs"
p("C10","Tree queries return the right leaves, children and text",
 "For every syntax tree, the first and last terminal, the start and stop token and the covered text of a node are those of its outermost leaves in source order, however deep they are and however many empty subtrees surround them; nothing is returned for a node without such leaves. Looking up children by kind and number returns exactly the matching direct children in order, and the i-th of them for an index. Leaves report their own text.",
 ["programs","inputs"],"every tree shape, every mix of rule, terminal and error children, every queried number and index",
 "No test calls these queries on trees with empty or nested subtrees; the statement is over all trees.",
 [RC,"src/runtime/ast/terminal_context.rs","src/runtime/ast/error_context.rs"],[("get_first_terminal, get_last_terminal",RC),("get_start_token, get_stop_token",RC),("get_terminals, get_errornodes, get_rule_contexts",RC),("get_text",RC)],["return values"])
CX=["src/tool/syntaxis/syntaxis_context.rs","src/tool/v1/syntaxis_context.rs","src/tool/v1/syntaxis_parser.rs"]
p("C11","Typed views show exactly the children they name",
 "For every tree node, each accessor of a typed view of the grammar notation (rule list, parser rule, block, alternative, epsilon, element, suffix, lexer rule, regular) returns exactly the direct children of the kind it names, in order, the first for a single one, or none. The views the notation's parser hands out read the token numbers its lexer produces.",
 ["programs"],"every node with any children of any kinds and numbers, for the bootstrap and the v1 views",
 "The tests use few accessors on one tree; a wrong kind or number shows only on other children.",
 CX,[("view traits implemented for RuleContext",CX[0]),("view traits implemented for RuleContext",CX[1]),("entry points",CX[2])],["accessor return values"])
VI=["src/tool/syntaxis/syntaxis_visitor.rs","src/tool/v1/syntaxis_visitor.rs","src/tool/syntaxis/syntaxis_walker.rs","src/tool/syntaxis/syntaxis_context.rs","src/tool/v1/syntaxis_context.rs"]
p("C12","Visitors and listeners meet every node once, in order",
 "For every tree, visiting calls the method of each node's kind once, in depth-first source order, children of nodes of unknown kind included; results are aggregated in that order, and a visitor that asks to stop is not shown further children of that node. A listener walk enters each rule, meets its children in order and exits it, exactly once each. Accepting a visitor, entering and exiting on a typed view call the method of that view.",
 ["programs","schedules"],"every tree, every overriding of visitor methods, every point at which the visitor stops",
 "The tests run visitors on one tree; order, dispatch and early stop must hold on all trees.",
 VI,[("SyntaxisVisitor::visit, visit_children",VI[0]),("SyntaxisVisitor::visit, visit_children",VI[1]),("walk",VI[2]),("accept, enter, exit",VI[3])],["calls received by a recording visitor or listener"])
SJ="src/tool/serde_ast/mod.rs"
p("C13","Reading a stored tree restores it or fails cleanly",
 "Every JSON document that spells a syntax tree of at most 63 nested rules is read back as that tree: same shape, order, rule numbers and names, token numbers and names, and the texts it gives, whatever the key order, unknown keys, escapes or chunking of the reader. Every other document, a cut or damaged one or one with something behind it, and every read error yields an error, never a panic and never a tree.",
 ["inputs","fault_sequences"],"every JSON text, every chunking and failure of the reader",
 "The test loads one file; rejection and restoration are statements over all documents and all read faults.",
 [SJ],[("from_str",SJ),("from_reader",SJ),("parse_rule, parse_terminal",SJ)],["returned tree or error"])
AD=["src/tool/gui/ast_drawer.rs","src/tool/templates/gui/ast.html"]
p("C14","A drawn page shows exactly the tree it was given",
 "For every tree and title, the page written contains, as data its script can read, exactly the given tree: nodes in order with their names, numbers and texts, and the title, whatever characters they contain. No name or text can end the script, break the data or be substituted by the template, and the page is written completely or the failure is reported.",
 ["inputs","programs","fault_sequences"],"every tree, every name and text, every short write of the file",
 "The tests draw one tree and do not read the page; quoting and completeness depend on the input and on the file system.",
 AD,[("ASTDrawer::draw, dump, escape",AD[0]),("page template",AD[1])],["the file written"])
p("C15","A string literal's token matches exactly the string it denotes",
 "For every string literal in a grammar, the regular expression collected for it matches, at the start of an input, exactly the string the literal denotes, regular expression characters, escapes, code points and multi-byte characters included. Every literal, wherever in the rules it stands, gets one token, equal literals the same, numbered consecutively in order of appearance, and the productions refer to that token.",
 ["programs","inputs"],"every literal text, every place of literals in a grammar, every input matched against",
 "The shipped grammar contains no string literal, so no test reaches this code; escaping must hold for every literal.",
 [GV,LV],[("StringLiteralVisitor::visit_terminal",LV),("StringLiteralVisitor::regular_escape",LV),("StringLiteralToTokenVisitor::visit_element",GV)],["LexerRuleData collected","Grammar::productions"])
p("C16","The shipped notation reads every grammar written in it",
 "The stored tree of the notation's own grammar, run through the whole pipeline (loading, numbering, productions, FIRST, FOLLOW, table), gives with the v1 lexer a parser that reads every text written in the notation into the tree its rules spell, with every token's text and number. In particular the notation's grammar, written out with any white space between its tokens, reads back as its own tree, and its token and rule numbers are those the v1 lexer and views use.",
 ["programs","inputs"],"every grammar text of the notation: any rules, nesting, names, literals, spelling of the colon and white space",
 "The tests run the pipeline on one text and look at nothing; that all stages fit together is a statement over all texts.",
 ["src/main.rs","src/tool/syntaxis/syntaxis2.json",GV,G,VP,LX[0],SJ],[("load_ast and main",'src/main.rs'),("Grammar::ll1_table",G),("SyntaxisParser::parse_ast",VP),("SyntaxisLexer::scan",LX[0])],["tree returned by the v1 parser"])
p("C17","What grammars, tokens and trees print as can be read back",
 "A grammar prints one line per production: the left side's name, ->, the names of the right side's symbols in order set apart by spaces, and a semicolon; anonymous rules print as their number. A token prints as [@index, start:stop='text', <name>, <number>, start: <line: l, position: c>, stop: <line: l, position: c>]. A tree prints as its rule's name and, in parentheses, its children in order, each followed by a space, leaves as their token's name.",
 ["programs","inputs"],"every grammar, token, position and tree, with any names, texts and numbers",
 "The tests print without comparing; the statement is over all names, numbers and shapes.",
 [G,"src/runtime/token.rs",RC,"src/runtime/ast/ast_context.rs"],[("Display for Grammar",G),("Display for Token, Position",'src/runtime/token.rs'),("Display for RuleContext, ASTContext, leaves",RC)],["to_string()"])
p("C18","A grammar as written yields a parser that mirrors its rules",
 "For every set of parser and lexer rules that one token of lookahead decides, the lexer rules, productions and table made from its syntax tree turn every sentence into the tree of its rules: one node per use of a rule, with the rule's name, and one leaf per token with the text and number of the lexer rule or literal that matched it. Blocks, alternatives and the suffixes * and ? leave no node, however they nest or recur.",
 ["programs","inputs"],"every LL(1) set of rules with alternatives, blocks, literals and the suffixes * and ?, and every sentence of its language",
 "The tests run one grammar through the passes and look at nothing; that the passes fit together is a statement over all grammars and sentences.",
 [GV,G,LP,VP,LX[0]],[("StringLiteralToTokenVisitor, SymbolVisitor, ProductionVisitor",GV),("Grammar::first_set, follow_set, ll1_table",G),("LL1Parser::parse",LP),("SyntaxisParser::parse",VP),("scan",LX[0])],["tree returned by parse"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
import jsonschema
S=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P:
    jsonschema.validate(x,S); assert x['statement'].count('. ')<=2,x['id']
M=dict(version=1,setup_cmd="bash setup.sh",
 checks=[dict(property=x['id'],quick_cmd="python3 run.py %s --tier quick"%x['id'],thorough_cmd="python3 run.py %s --tier thorough"%x['id'],
   technique="symbolic execution of the crate's LLVM IR, assertions decided by SMT (z3)",level="model_checking",
   level_note="Within the stated bounds every path of the real code is explored and every assertion on it is decided by z3 for all values of the symbolic inputs; counterexamples and sampled paths are replayed on the real crate. Trusted: rustc's IR, the executor in /verif/engine, z3, and the stand-ins for std's hash containers"+NOTE.get(x['id'],"")+". Nothing is claimed beyond the bounds listed in lib/spec.py and the evidence.") for x in P] if False else None,not_applicable=[])
NOTE={"C07":"","C08":", and the regex crate","C09":", and the regex crate","C13":"","C14":", the tera crate and the file system","C15":", and the regex crate","C16":", and the regex crate","C18":", and the regex crate"}
M['checks']=[dict(property=x['id'],quick_cmd="python3 run.py %s --tier quick"%x['id'],thorough_cmd="python3 run.py %s --tier thorough"%x['id'],
   technique="symbolic execution of the crate's LLVM IR, assertions decided by SMT (z3)",level="model_checking",
   level_note="Within the stated bounds every path of the real code is explored and every assertion on it is decided by z3 for all values of the symbolic inputs; counterexamples and sampled paths are replayed on the real crate. Trusted: rustc's IR, the executor in /verif/engine, z3, and the stand-ins for std's hash containers"+NOTE.get(x['id'],"")+". Nothing is claimed beyond the bounds listed in lib/spec.py and in the evidence.") for x in P]
json.dump(M,open('/verif/MANIFEST.json','w'),indent=1)
jsonschema.validate(M,json.load(open('/root/.vp/MANIFEST.schema.json')))
