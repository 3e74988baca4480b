"""What each property's check explores: harness binary, entries, bounds and time budgets."""
def e(bounds, **k): return dict(bounds=bounds, **k)
PROPS = {}
PROPS["C01"] = dict(bin="c01", entries={
    "c01_a": e("every grammar with 2 nonterminals, 2 terminals and 2 productions of right-hand length <= 2", tags=["first-nonterminal", "first-epsilon", "first-production", "first-production-epsilon"]),
    "c01_r": e("as c01_a, hash containers iterated in reverse"),
    "c01_b": e("every grammar with 2 nonterminals, 2 terminals and 3 productions of right-hand length <= 2"),
    "c01_d": e("every grammar with 2 nonterminals, 1 terminal and productions of right-hand length <= 3, 1"),
    "c01_e": e("chains of 5 rules, the last a terminal or nothing, added in any order"),
    "c01_f": e("chains of 5 rules with symbols behind each, the last a terminal or nothing, added in any order"),
    "c01_g": e("as c01_e, 6 rules, hash containers iterated in reverse"),
    "c01_j": e("every grammar with 2 nonterminals, 2 terminals and 2 productions of right-hand length <= 2, the symbol numbers 1, 64, 256, 2^16 or 2^32 apart"),
    "c01_k": e("a production of any 5 symbols over two rules that may each vanish or not"),
    "c01_l": e("a rule of at most 5 alternatives and one of 6, over 10 terminals"),
    "c01_m": e("as c01_l, 4 and 5 alternatives, hash containers iterated in reverse"),
    "c01_n": e("large grammars of 12 to 14 rules: chains with nothing or terminals of their own before or behind, a cycle with a way out, a right-hand side of that many rules that may vanish or of that many symbols; productions in order or reversed"),
    "c01_o": e("as c01_n, 24 to 26 rules"),
    "c01_c": e("every grammar with 3 nonterminals, 2 terminals and 3 productions of right-hand length <= 2"),
    "c01_u": e("as c01_j, 3 productions, the last of length <= 1", tier="thorough", time=3000),
    "c01_v": e("as c01_k, 7 symbols", tier="thorough", time=3000),
    "c01_w": e("as c01_l, 9 and 10 alternatives", tier="thorough", time=3000),
    "c01_h": e("as c01_f, 6 rules", tier="thorough", time=3000),
    "c01_t": e("every grammar with 3 nonterminals, 2 terminals and 4 productions of right-hand lengths <= 2, 2, 1, 1", tier="thorough", time=3000),
})

PROPS["C02"] = dict(bin="c02", entries={
    "c02_a": e("every grammar with 2 nonterminals, 2 terminals and 2 productions of right-hand length <= 2", tags=["follow-exact", "follow-members"]),
    "c02_r": e("as c02_a, hash containers iterated in reverse"),
    "c02_b": e("every grammar with 2 nonterminals, 2 terminals and 3 productions of right-hand length <= 2"),
    "c02_e": e("chains of 5 rules, the last a terminal or nothing, added in any order"),
    "c02_f": e("chains of 5 rules with symbols behind each, the last a terminal or nothing, added in any order"),
    "c02_g": e("as c02_e, 6 rules, hash containers iterated in reverse"),
    "c02_j": e("every grammar with 2 nonterminals, 2 terminals and 2 productions of right-hand length <= 2, the symbol numbers 1, 64, 256, 2^16 or 2^32 apart"),
    "c02_k": e("a production of any 5 symbols over two rules that may each vanish or not"),
    "c02_l": e("a rule of at most 5 alternatives and one of 6, over 10 terminals"),
    "c02_m": e("as c02_l, 4 and 5 alternatives, hash containers iterated in reverse"),
    "c02_n": e("large grammars of 12 to 14 rules: chains with nothing or terminals of their own before or behind, a cycle with a way out, a right-hand side of that many rules that may vanish or of that many symbols; productions in order or reversed"),
    "c02_o": e("as c02_n, 24 to 26 rules"),
    "c02_c": e("every grammar with 3 nonterminals, 2 terminals and 3 productions of right-hand lengths <= 3, 1, 1"),
    "c02_d": e("every grammar with 3 nonterminals, 1 terminal and 3 productions of right-hand length <= 2"),
    "c02_u": e("as c02_j, 3 productions, the last of length <= 1", tier="thorough", time=3000),
    "c02_v": e("as c02_k, 7 symbols", tier="thorough", time=3000),
    "c02_w": e("as c02_l, 9 and 10 alternatives", tier="thorough", time=3000),
    "c02_h": e("as c02_f, 6 rules", tier="thorough", time=3000),
    "c02_t": e("every grammar with 3 nonterminals, 2 terminals and 4 productions of right-hand lengths <= 2, 2, 1, 1", tier="thorough", time=3000),
})
PROPS["C03"] = dict(bin="c03", entries={
    "c03_a": e("every grammar with 2 nonterminals, 2 terminals and 2 productions of right-hand length <= 2", tags=["table-key", "table-wrong-side", "table-entry", "table-cells"]),
    "c03_r": e("as c03_a, hash containers iterated in reverse"),
    "c03_b": e("every grammar with 2 nonterminals, 2 terminals and 3 productions of right-hand lengths <= 2, 2, 1"),
    "c03_e": e("chains of 5 rules, the last a terminal or nothing, added in any order"),
    "c03_f": e("chains of 5 rules with symbols behind each, the last a terminal or nothing, added in any order"),
    "c03_g": e("as c03_e, 6 rules, hash containers iterated in reverse"),
    "c03_j": e("every grammar with 2 nonterminals, 2 terminals and 2 productions of right-hand length <= 2, the symbol numbers 1, 64, 256, 2^16 or 2^32 apart"),
    "c03_k": e("a production of any 5 symbols over two rules that may each vanish or not"),
    "c03_l": e("a rule of at most 5 alternatives and one of 6, over 10 terminals"),
    "c03_m": e("as c03_l, 4 and 5 alternatives, hash containers iterated in reverse"),
    "c03_n": e("large grammars of 12 to 14 rules: chains with nothing or terminals of their own before or behind, a cycle with a way out, a right-hand side of that many rules that may vanish or of that many symbols; productions in order or reversed"),
    "c03_o": e("as c03_n, 24 to 26 rules"),
    "c03_c": e("every grammar with 3 nonterminals, 2 terminals and 3 productions of right-hand lengths <= 2, 1, 1"),
    "c03_d": e("every grammar with 2 nonterminals, 2 terminals and 3 productions of right-hand length <= 2"),
    "c03_u": e("as c03_j, 3 productions, the last of length <= 1", tier="thorough", time=3000),
    "c03_v": e("as c03_k, 7 symbols", tier="thorough", time=3000),
    "c03_w": e("as c03_l, 9 and 10 alternatives", tier="thorough", time=3000),
    "c03_h": e("as c03_f, 6 rules", tier="thorough", time=3000),
    "c03_t": e("every grammar with 3 nonterminals, 2 terminals and 3 productions of right-hand length <= 2", tier="thorough", time=3000),
})

LL = "every LL(1) grammar with %s and every sentence with a derivation of at most %d steps and %d tokens"
PROPS["C04"] = dict(bin="c04", entries={
    "c04_a": e(LL % ("2 named nonterminals, 2 terminals, 2 productions of length <= 2", 4, 3), tags=["parse-tree", "parse-token", "parse-rule-name"]),
    "c04_u": e(LL % ("a named and an anonymous nonterminal, 2 terminals, productions of length <= 2, 2, 1", 5, 3)),
    "c04_v": e(LL % ("a named and an anonymous nonterminal, 2 terminals, productions of length <= 2, 2, 1", 5, 3) + " (self-hosted v1 parser)"),
    "c04_w": e(LL % ("2 named nonterminals, 2 terminals, productions of length <= 2, 2, 1", 5, 3) + " (self-hosted v1 parser)"),
    "c04_b": e(LL % ("2 named nonterminals, 2 terminals, productions of length <= 3, 2, 0", 6, 4)),
    "c04_e": e("each of the v1 parser's nine typed entry points", tags=["parse-entry"]),
    "c04_c": e(LL % ("2 nonterminals, 2 terminals, 2 productions of length <= 2, the symbol numbers 1, 64, 256, 2^16 or 2^32 apart", 4, 3)),
    "c04_d": e("the expression grammar (two operators, parentheses, anonymous tails), every sentence of at most 7 tokens, both parsers"),
    "c04_f": e("a list grammar with an anonymous rule in an anonymous rule, every sentence of at most 9 tokens, both parsers"),
    "c04_g": e("named rules 8 deep, both parsers"),
    "c04_h": e("grammars with rules of at most 5 and 6 alternatives, every sentence of at most 6 tokens, both parsers"),
    "c04_i": e("rules that call themselves: lists, anonymous tails, nested parentheses, every sentence of at most 40 tokens, both parsers"),
    "c04_j": e("named rules 26 deep, both parsers"),
    "c04_k": e("right-hand sides of 12 tokens or rules, rules of 12 alternatives; the rules named, anonymous or mixed; both parsers"),
    "c04_l": e("as c04_k, 28", steps=100000000),
    "c04_m": e("rules that call themselves, 300 deep, both parsers", steps=400000000),
    "c04_x": e("as c04_d, 11 tokens, generic parser", tier="thorough", time=3000),
    "c04_y": e("as c04_f, 14 tokens, generic parser", tier="thorough", time=3000),
    "c04_z": e("as c04_c, 3 productions, the last of length <= 1, v1 parser", tier="thorough", time=3000),
    "c04_t": e(LL % ("2 named and an anonymous nonterminal, 2 terminals, 3 productions of length <= 2", 6, 4), tier="thorough", time=3000),
})
PROPS["C05"] = dict(bin="c05", entries={
    "c05_a": e("every rule of 2 elements: token, rule or parenthesised block (5 shapes), each bare or with * + ?; words of length <= 3", tags=["lower-language", "lower-symbols", "lower-anonymous", "lower-named-rules"]),
    "c05_b": e("every rule with alternatives of 2 and 1 elements over 2 tokens and 2 rules (recursion included), each bare or with * + ?"),
    "c05_c": e("3 rules, two of them one element each over 2 tokens and 3 rules with every suffix, lazy forms included"),
    "c05_d": e("as c05_b with string literals for tokens, alternatives of 1 element"),
    "c05_e": e("2 parenthesised blocks of up to 2 alternatives each, with every suffix"),
    "c05_s": e("2 elements over 2 tokens and 2 rules with every suffix, every numbering of the symbols (16-bit, terminal and nonterminal numbers may coincide)"),
    "c05_n": e("an element and a parenthesised block, as c05_s"),
    "c05_f": e("an alternative of 4 tokens, each bare or with * + ?"),
    "c05_g": e("a block of two alternatives around another block, suffixes at every level"),
    "c05_h": e("a token in at most 4 nested blocks, suffixes at every level"),
    "c05_i": e("4 alternatives of a rule or a block, and 3 of another rule"),
    "c05_k": e("2 tokens and 2 literals in 2 rules, lexer rules at any places among the parser rules"),
    "c05_l": e("large grammars over 6 tokens: 6 elements, alternatives, nested blocks, blocks side by side, rules in a chain, or rules that repeat the same items, suffixes by any step; words of length <= 3 of any two of the tokens, the others read as nothing"),
    "c05_m": e("as c05_l, 12"),
    "c05_o": e("as c05_l, 30, every token with 2 of the others", steps=400000000),
    "c05_j": e("one block and 2 tokens in 2 rules with any suffixes, a third rule that repeats those rules"),
    "c05_u": e("as c05_f, 5 tokens", tier="thorough", time=4000),
    "c05_v": e("a block of at most 3 alternatives around two blocks, suffixes at every level", tier="thorough", time=4000),
    "c05_t": e("2 rules, alternatives of 2 nested and 1 plain elements", tier="thorough", time=4000),
})
PROPS["C06"] = dict(bin="c06", entries={
    "c06_a": e("every history of 2 additions (terminal, named or anonymous nonterminal), ids any 64-bit number, names any printable ASCII character", tags=["vocab-terminal-id", "vocab-nonterminal-id", "vocab-anonymous", "vocab-unknown", "vocab-add-terminal", "vocab-add-nonterminal", "vocab-add-anonymous"]),
    "c06_r": e("as c06_a, hash containers iterated in reverse"),
    "c06_b": e("every history of 3 additions, names of lengths 1, 1, 2"),
    "c06_t": e("every history of 3 terminal additions, names of lengths 1, 2, 1"),
    "c06_n": e("every history of 3 named-nonterminal additions, names of lengths 1, 2, 1"),
    "c06_d": e("default names of anonymous nonterminals with any number below 1200", tags=["vocab-default-name"]),
    "c06_x": e("every history of 4 additions, names of length 1"),
    "c06_e": e("every history of 2 additions of 8 names (empty, reserved, prefixes, multi-byte, numerals), ids any 64-bit number"),
    "c06_m": e("12 terminals, 12 named and 12 anonymous nonterminals with consecutive numbers from any 64-bit number on, then all again"),
    "c06_o": e("as c06_m, 70 of each", steps=400000000),
    "c06_l": e("3 terminals or named nonterminals with names of 20, 70 or 300 characters, alike but for any character at one of 3 places, ids any 64-bit number", steps=100000000),
    "c06_z": e("as c06_e, 3 additions", tier="thorough", time=3000),
    "c06_y": e("every history of 5 additions, names of length 1", tier="thorough", time=3000),
})
PROPS["C07"] = dict(bin="c07", entries={
    "c07_a": e("every sequence of 3 parser or lexer rules with any two-letter names (duplicates included), regex bodies of 1 printable character", tags=["symbols-terminal", "symbols-nonterminal", "symbols-next", "rules-regex", "rules-token-type", "rules-token-name", "rules-extra"]),
    "c07_b": e("1 lexer rule, every regex body of 4 printable ASCII characters"),
    "c07_c": e("lexer, parser, lexer rule after a string-literal token, bodies of 2 characters", tags=["rules-kept"]),
    "c07_d": e("every sequence of 4 rules, bodies of 1 character"),
    "c07_l": e("LexerRuleVisitor: 3 rules, the last a lexer rule, either first number 2 or 3"),
    "c07_m": e("LexerRuleVisitor: 1 lexer rule, every regex body of 4 printable ASCII characters"),
    "c07_e": e("1 lexer rule, every regex body of 6 printable ASCII characters"),
    "c07_i": e("1 lexer rule, every body of 5 items: escaped slash, escaped backslash, two-byte letter, printable character"),
    "c07_j": e("LexerRuleVisitor, as c07_i"),
    "c07_n": e("LexerRuleVisitor: 1 lexer rule, every regex body of 6 printable ASCII characters"),
    "c07_f": e("3 rules of either kind, every name of a letter and 1 or 2 letters, digits or underscores"),
    "c07_g": e("LexerRuleVisitor, as c07_f"),
    "c07_h": e("12 rules of both kinds, any of them with the name of any other of its kind"),
    "c07_k": e("LexerRuleVisitor, as c07_h"),
    "c07_o": e("3 rules with names of 6, 18, 45 or 300 characters, alike but for any character at one of 3 places, bodies of that many pieces"),
    "c07_p": e("LexerRuleVisitor, as c07_o"),
    "c07_w": e("as c07_f, 4 rules", tier="thorough", time=3000),
    "c07_t": e("1 lexer rule, every regex body of 8 printable ASCII characters", tier="thorough", time=2000),
    "c07_u": e("as c07_i, 7 items", tier="thorough", time=2000),
    "c07_v": e("as c07_j, 7 items", tier="thorough", time=2000),
})
PROPS["C08"] = dict(bin="c08", lexgen=True, entries={
    "c08_z": e("the empty input, every lexer"),
    "c08_a": e("v1 lexer with 5 rule lists (ties, a rule that can match nothing, multi-byte, all white space, tokens over several lines), every ASCII input of 3 bytes", tags=["scan-longest", "scan-type", "scan-text", "scan-stop", "scan-error", "scan-start-position", "scan-stop-position", "scan-after-stop"]),
    "c08_b": e("bootstrap lexer, as c08_a"),
    "c08_c": e("v1 lexer, every input of 3 ASCII bytes and one two-byte character at any place"),
    "c08_d": e("bootstrap lexer, as c08_c"),
    "c08_e": e("v1 lexer, every ASCII input of 5 bytes"),
    "c08_g": e("lexer generated from the template for 5 rules, every ASCII input of 4 bytes, scan and scan_all_on_channel_tokens", tags=["all-token", "all-stop", "all-extra"]),
    "c08_h": e("generated lexer, every input of 3 ASCII bytes and one two-byte character at any place"),
    "c08_i": e("v1 lexer, white-space and multi-line rule lists, every input of 4 of 9 characters: quote, semicolon, letter, all white space, a two-byte letter"),
    "c08_j": e("bootstrap lexer, as c08_i"),
    "c08_k": e("bootstrap lexer, every ASCII input of 5 bytes"),
    "c08_l": e("generated lexer, the 5 rule lists of c08_a, every ASCII input of 3 bytes"),
    "c08_m": e("as c08_l, 3 ASCII bytes and one two-byte character at any place"),
    "c08_n": e("generated lexer, as c08_i, 3 characters"),
    "c08_o": e("second generated lexer (14 rules: blanks in the middle, quotes, hashes, same matches, one that can match nothing), every ASCII input of 2 bytes", tags=["all-token", "all-stop", "all-extra"]),
    "c08_p": e("second generated lexer, any 3 of 16 pieces"),
    "c08_aa": e("v1 lexer, the 5 rule lists of c08_a, inputs of 20 to 560 bytes: any of 8 pieces 3, 18, 40 or 140 times, any other 34, 1, 2 or 1 times, the first again; scan and scan_all_on_channel_tokens", steps=200000000),
    "c08_ab": e("bootstrap lexer, as c08_aa", steps=200000000),
    "c08_ac": e("generated lexer, as c08_aa", steps=200000000),
    "c08_ad": e("generated lexer with its own rules and scan_all_on_channel_tokens, inputs as c08_aa", steps=200000000),
    "c08_q": e("second generated lexer, every ASCII input of 3 bytes", tier="thorough", time=3000),
    "c08_r": e("second generated lexer, any 4 of 16 pieces", tier="thorough", time=3000),
    "c08_w": e("as c08_i, 6 characters", tier="thorough", time=3000),
    "c08_x": e("as c08_j, 6 characters", tier="thorough", time=3000),
    "c08_t": e("v1 lexer, every ASCII input of 7 bytes"),
    "c08_v": e("v1 lexer, every ASCII input of 9 bytes", tier="thorough", time=3000),
    "c08_u": e("generated lexer, every ASCII input of 7 bytes", tier="thorough", time=3000),
})
PROPS["C09"] = dict(bin="c09", entries={
    "c09_k": e("the token type constants of both lexers", tags=["lexer-constants"]),
    "c09_a": e("v1 lexer, every ASCII input of 2 bytes, scan and scan_all_on_channel_tokens", tags=["scan-type", "scan-longest", "all-tokens", "all-channel"]),
    "c09_b": e("bootstrap lexer, every ASCII input of 2 bytes, scan and scan_all_on_channel_tokens"),
    "c09_c": e("v1 lexer, every ASCII input of 3 bytes"),
    "c09_d": e("bootstrap lexer, every ASCII input of 3 bytes"),
    "c09_s": e("v1 lexer, ' + any 3 ASCII bytes + '"),
    "c09_u": e("v1 lexer, '\\u{ + any 4 ASCII bytes + '"),
    "c09_r": e("v1 lexer, / + any 3 ASCII bytes + /"),
    "c09_e": e("v1 lexer, the word epsilon with any one byte replaced or appended"),
    "c09_m": e("v1 lexer, a two-byte character outside, in a string and in a regular literal, with 2 ASCII bytes"),
    "c09_f": e("bootstrap lexer, comments and the word fragment with any 3 ASCII bytes"),
    "c09_g": e("bootstrap lexer, string and regular literals around any 3 ASCII bytes"),
    "c09_w": e("v1 lexer, A + any 4 ASCII bytes"),
    "c09_h": e("v1 lexer, '\\u{, perhaps 0x, up to 7 characters of 0 9 a f g A x }, }'"),
    "c09_i": e("bootstrap lexer, as c09_h"),
    "c09_j": e("bootstrap lexer, as c09_u"),
    "c09_l": e("bootstrap lexer, as c09_e"),
    "c09_n": e("bootstrap lexer, as c09_m"),
    "c09_o": e("bootstrap lexer, as c09_w"),
    "c09_p": e("v1 lexer, ' + any 8 of \\ ' n / + '"),
    "c09_q": e("bootstrap lexer, as c09_p"),
    "c09_aa": e("v1 lexer, / + any 8 of \\ ' / and line feed + /"),
    "c09_ab": e("bootstrap lexer, as c09_aa"),
    "c09_ac": e("bootstrap lexer, /* + any 7 of * / a and line feed + */"),
    "c09_ad": e("bootstrap lexer, // + any 7 of * / carriage return and line feed + line feed"),
    "c09_ae": e("v1 lexer, a or A + any 10 of a _ 9 Z :"),
    "c09_af": e("bootstrap lexer, as c09_ae"),
    "c09_ag": e("v1 lexer, any 8 of blank, line feed, carriage return, tab"),
    "c09_ah": e("bootstrap lexer, as c09_ag"),
    "c09_ai": e("v1 lexer, any 6 of : = - > | ."),
    "c09_aj": e("bootstrap lexer, as c09_ai"),
    "c09_ak": e("v1 lexer, long tokens: any of 8 openings, any of 8 pieces 10, 31, 70 or 140 times, any ASCII byte, the closing; scan and scan_all_on_channel_tokens", steps=200000000),
    "c09_al": e("bootstrap lexer, as c09_ak", steps=200000000),
    "c09_x": e("v1 lexer, every ASCII input of 4 bytes", tier="thorough", time=4000),
    "c09_y": e("bootstrap lexer, every ASCII input of 4 bytes", tier="thorough", time=4000),
    "c09_z": e("v1 lexer, ' + any 6 ASCII bytes + '", tier="thorough", time=3000),
})
PROPS["C10"] = dict(bin="c10", entries={
    "c10_a": e("every tree of depth 2 with at most 2 children per node, leaves ordinary or error, any spans", tags=["tree-start-token", "tree-stop-token", "tree-first-terminal", "tree-last-terminal", "tree-text", "tree-text-empty"]),
    "c10_b": e("every tree of depth 3 with at most 2, 2, 1 children per node"),
    "c10_c": e("every tree of depth 2 with at most 3, 2 children per node, no error leaves"),
    "c10_d": e("every tree of depth 4 with at most 1, 1, 2, 2 children per node"),
    "c10_e": e("every tree of depth 4 with at most 2, 1, 1, 1 children per node"),
    "c10_l": e("lookup in 2 children of any kind, all numbers, the queried number and the position any 64-bit value", tags=["tree-shape", "tree-as-rule", "tree-terminals", "tree-errors", "tree-rules", "tree-terminal-at", "tree-error-at", "tree-rule-at"]),
    "c10_m": e("lookup in 4 children, as c10_l"),
    "c10_u": e("leaves with multi-byte text", tags=["leaf-text"]),
    "c10_t": e("every tree of depth 3 with at most 2 children per node", tier="thorough", time=3000),
    "c10_n": e("lookup in 6 children, as c10_l", tier="thorough", time=3000),
    "c10_f": e("large trees: a node of at most 12 children of each kind in turn, by any step, or a chain at most 12 deep with leaves before, behind, both or none"),
    "c10_g": e("as c10_f, no error leaves"),
    "c10_h": e("huge trees: a node of 40 or 270 children of each kind in turn, by any step, or a chain 40 or 270 deep with leaves before, behind, both or none; with and without error leaves", steps=400000000),
    "c10_v": e("as c10_f, 16", tier="thorough", time=3000),
})
PROPS["C11"] = dict(bin="c11", entries={
    "c11_k": e("the rule number constants of both parsers", tags=["rule-constants"]),
    "c11_a": e("bootstrap views: every view over 2 children of any kind and any 64-bit number", tags=["view-list", "view-terminal", "view-child", "view-terminals", "view-rule"]),
    "c11_b": e("v1 views: every view over 2 children of any kind and any 64-bit number"),
    "c11_e": e("the view each v1 parser entry point hands out, 2 tokens of any v1 types", tags=["entry-view"]),
    "c11_c": e("bootstrap views over 3 children"),
    "c11_d": e("v1 views over 3 children"),
    "c11_s": e("bootstrap views over 4 children", tier="thorough", time=2000),
    "c11_t": e("v1 views over 4 children", tier="thorough", time=2000),
    "c11_u": e("v1 entry points, 3 tokens", tier="thorough", time=2000),
    "c11_f": e("bootstrap views over at most 10 children of one number or the next, every number below 23"),
    "c11_g": e("v1 views, as c11_f"),
    "c11_h": e("bootstrap views, as c11_f, 40 or 270 children", steps=400000000),
    "c11_i": e("v1 views, as c11_h", steps=400000000),
})
PROPS["C12"] = dict(bin="c12", entries={
    "c12_a": e("bootstrap visitor, every method overridden: every tree with at most 2, 1 children, rule numbers any 64-bit value, the traversal stopped at any child or never", tags=["visit-order", "visit-result"]),
    "c12_b": e("v1 visitor, as c12_a"),
    "c12_c": e("bootstrap visitor, default methods: every tree with at most 2, 2 children, rule numbers any 64-bit value", tags=["visit-default-order", "visit-default-result", "visit-leaf-default"]),
    "c12_d": e("v1 visitor, as c12_c"),
    "c12_e": e("accept of every bootstrap view", tags=["view-accept"]),
    "c12_f": e("accept of every v1 view", tags=["view-accept"]),
    "c12_g": e("listener walk: every tree with at most 2, 1 children, rule numbers any 64-bit value", tags=["walk-order"]),
    "c12_h": e("enter and exit of every bootstrap view", tags=["view-enter-exit"]),
    "c12_i": e("bootstrap visitor: every tree with at most 3, 3 children, stopped at any child or never"),
    "c12_j": e("v1 visitor, as c12_i"),
    "c12_k": e("listener walk: every tree with at most 2, 2, 1 children"),
    "c12_l": e("bootstrap visitor: every tree with at most 1, 1, 1, 3 children, 2 rule numbers"),
    "c12_m": e("v1 visitor, as c12_l"),
    "c12_s": e("bootstrap visitor, default methods: every tree with at most 2 children, depth 3", tier="thorough", time=2000),
    "c12_t": e("v1 visitor, as c12_s", tier="thorough", time=2000),
    "c12_n": e("bootstrap visitor, large trees: a node of at most 12 children of each kind in turn, by any step, or a chain at most 12 deep with leaves before, behind, both or none; stopped at any of the first 12 steps or never"),
    "c12_o": e("v1 visitor, as c12_n"),
    "c12_p": e("bootstrap visitor, default methods, trees as c12_n"),
    "c12_q": e("v1 visitor, as c12_p"),
    "c12_u": e("bootstrap visitor, huge trees: a node of 40 or 270 children of each kind in turn, by any step, or a chain 40 or 270 deep; stopped at one of 7 places or never", steps=400000000),
    "c12_v": e("v1 visitor, as c12_u", steps=400000000),
    "c12_w": e("bootstrap visitor, default methods, trees as c12_u", steps=400000000),
    "c12_x": e("v1 visitor, as c12_w", steps=400000000),
    "c12_y": e("listener walk, trees as c12_u", steps=400000000),
    "c12_r": e("listener walk, trees as c12_n"),
})
PROPS["C13"] = dict(bin="c13", entries={
    "c13_h": e("roots and children that are no objects"),
    "c13_a": e("a rule with at most 1 terminal, any two-digit numbers, any two-character printable names", tags=["json-tree"]),
    "c13_f": e("a rule whose three fields are each missing or one of 8 JSON values", tags=["json-rejects"]),
    "c13_g": e("a terminal whose four fields are each missing or one of 8 JSON values"),
    "c13_c": e("as c13_a with every JSON escape, \\u00xx, a two-byte character, both key orders, unknown keys and null children"),
    "c13_d": e("every document of depth 2 with at most 1 child per rule, both key orders"),
    "c13_b": e("every document of depth 2 with at most 2 children per rule, any digit and any printable character"),
    "c13_e": e("from_reader: chunks of 1, 3, 64, 4096 bytes, an interruption, a read error at any offset", tags=["json-reader-tree", "json-reader-error"]),
    "c13_n": e("a rule number of 5 digits, any"),
    "c13_j": e("any 3 ASCII bytes"),
    "c13_k": e("a document cut anywhere, and with any ASCII byte behind it", tags=["json-trailing"]),
    "c13_l": e("a document with any ASCII byte inserted anywhere"),
    "c13_i": e("rule and token numbers at the edges of 8, 16, 32 and 64 bits", tags=["json-number"]),
    "c13_m": e("names and texts with surrogate pairs, lone surrogates, control characters, bad escapes, from_str and from_reader", tags=["json-string"]),
    "c13_p": e("as c13_c without children through from_reader"),
    "c13_s": e("every document of depth 3 with at most 2, 1, 1 children", tier="thorough", time=3000),
    "c13_t": e("two children, escapes, key orders", tier="thorough", time=3000),
    "c13_q": e("large trees: a node of at most 12 children of each kind in turn, by any step, or a chain at most 12 deep with leaves before, behind, both or none"),
    "c13_r": e("as c13_q, 5, through from_reader"),
    "c13_z": e("huge trees: a node of 40 or 270 children, or a chain 40 deep, as text or through from_reader", steps=400000000),
    "c13_v": e("as c13_k through from_reader"),
    "c13_w": e("as c13_l through from_reader"),
    "c13_x": e("text, documents, white space behind a document or in front of it; any byte that is no UTF-8 in it", tags=["json-behind", "json-utf8"]),
    "c13_y": e("repeated, odd and needless keys"),
    "c13_o": e("rules 1, 20, 62, 63 and 90 deep, tokens before, behind or none", tags=["json-depth"], steps=100000000),
})
PROPS["C14"] = dict(bin="c14", entries={
    "c14_a": e("a rule name, token name or text of any 1 ASCII character but NUL", tags=["page-title", "page-data-well-formed", "page-data-tree", "page-complete"]),
    "c14_b": e("as c14_a, any 2 characters"),
    "c14_c": e("script-ending, comment-opening, substitution, escape, line-terminator and multi-byte texts with any 1 or 2 characters in them", tags=["page-data-in-script"]),
    "c14_d": e("every tree of depth 2 with at most 2 children per rule"),
    "c14_e": e("every tree of depth 3 with at most 2, 1, 1 children"),
    "c14_i": e("every rule number below 256"),
    "c14_f": e("files that take only the first 1 or 0, 2048, 4096, ..., 28672 bytes", tags=["page-complete"]),
    "c14_t": e("as c14_a, any 3 characters", tier="thorough", time=3000),
    "c14_u": e("a text of any 4 characters", tier="thorough", time=3000),
    "c14_g": e("large trees: a node of at most 7 children of each kind in turn, by any step, or a chain at most 7 deep with leaves before, behind, both or none"),
    "c14_k": e("huge trees: a node of 40 or 270 children of each kind in turn, by any step, or a chain 40 or 270 deep", steps=400000000),
    "c14_h": e("titles of any 1 ASCII character, alone and in end tags, comments, character references, template marks, behind multi-byte characters"),
    "c14_j": e("a file that already holds 5, 12000 or 40000 bytes; a drawer used twice on it"),
    "c14_v": e("as c14_h, 2 characters", tier="thorough", time=3000),
})
PROPS["C15"] = dict(bin="c15", entries={
    "c15_a": e("every literal of 1 printable character or escape, matched against itself and any ASCII character", tags=["literal-rule", "literal-match"]),
    "c15_b": e("every literal of 1 printable character or escape, against any 2 ASCII characters", tags=["literal-match", "literal-no-match"]),
    "c15_e": e("trees of 2 terminals of any type, literals of any printable character, at three places", tags=["literals-count", "literals-number", "literals-name"]),
    "c15_c": e("every literal of 2 printable characters or escapes, matched against itself and any ASCII character"),
    "c15_d": e("every literal of 2 printable characters, against any 2 ASCII characters"),
    "c15_f": e("every literal of 3 printable characters, matched against itself"),
    "c15_g": e("trees of 3 terminals, as c15_e, literals of a A b 1 +"),
    "c15_k": e("trees of 3 terminals, as c15_e", tier="thorough", time=3000),
    "c15_h": e("2 literals of any 2 of a A b 1 + each"),
    "c15_j": e("2 literals of any 2 printable characters each", tier="thorough", time=3000),
    "c15_i": e("3 literals of any printable character each"),
    "c15_u": e("2 literals of any 3 of a A b 1 + each", tier="thorough", time=3000),
    "c15_v": e("3 literals of any 2 of a A b 1 + each", tier="thorough", time=3000),
    "c15_p": e("grammars of 2 elements, each a literal, a token, or a block of two of them, repeated or not", tags=["grammar-literals", "grammar-literals-productions"]),
    "c15_q": e("as c15_p, blocks in blocks"),
    "c15_l": e("any 2 of 32 literals that are alike: blanks, case, escapes, order, multi-byte, regular expression characters"),
    "c15_m": e("any 2 of 6 of those literals at any 2 of 8 places of a grammar of 2 rules, repeated or not, numbered from 2 or 5"),
    "c15_aa": e("long literals: any of 12 pieces 4, 12 or 40 times, any printable character or escape, the piece again; against itself, one character less, one more"),
    "c15_ab": e("the grammar's token for the literals of c15_aa"),
    "c15_ac": e("grammars of 14 rules with a literal each, any of them like any other"),
    "c15_w": e("as c15_m, any of the 32 literals", tier="thorough", time=3000),
    "c15_n": e("the grammar's token for every literal of 1 printable character or escape, matched against itself and any ASCII character"),
    "c15_o": e("as c15_n, 2 characters, against itself"),
    "c15_r": e("as c15_p, 3 elements", tier="thorough", time=3000),
    "c15_s": e("every literal of 3 printable characters or escapes, matched against itself", tier="thorough", time=3000),
    "c15_t": e("every literal of 3 printable characters, against any 3 ASCII characters", tier="thorough", time=3000),
})
PROPS["C17"] = dict(bin="c17", entries={
    "c17_a": e("grammars of one production of 2 symbols, names with any printable character", tags=["grammar-lines"]),
    "c17_b": e("grammars of two productions of 1 symbol"),
    "c17_c": e("grammars of two productions of 3 and 0 symbols"),
    "c17_d": e("tokens: any index below 128, any 2 ASCII characters as text, any 2 printable ones as name", tags=["token-format", "token-number"]),
    "c17_e": e("tokens: every number below 8 but the last"),
    "c17_f": e("tokens: both character indices below 32"),
    "c17_g": e("tokens: type and line below 32, texts and names of 4"),
    "c17_h": e("tokens: column of the start and line of the stop below 32"),
    "c17_i": e("every tree of at most 2, 1 children, any ASCII names", tags=["tree-print", "child-print"]),
    "c17_j": e("every tree of at most 3, 2 children"),
    "c17_k": e("every tree of at most 1, 1, 2 children"),
    "c17_m": e("trees of 4 nodes whose names are empty, white space of several kinds, parentheses or long"),
    "c17_n": e("grammars of at most 12 productions of at most 9 symbols, taken in turn by any of 3 steps from any of 11"),
    "c17_s": e("every tree of at most 2, 2, 2 children", tier="thorough", time=3000),
    "c17_t": e("grammars of productions of 2, 2, 1 symbols", tier="thorough", time=3000),
    "c17_u": e("tokens: index and extent below 1024", tier="thorough", time=3000),
    "c17_v": e("tokens: any type of 20 bits", tier="thorough", time=3000),
    "c17_w": e("tokens: index and column below 16384", tier="thorough", time=3000),
    "c17_o": e("huge trees: a node of 40 or 270 children of each kind in turn, by any step, or a chain 40 or 270 deep"),
    "c17_p": e("as c17_n, 40 productions of at most 41 symbols"),
    "c17_l": e("large trees: a node of at most 7 children of each kind in turn, by any step, or a chain at most 7 deep with leaves before, behind, both or none, every part printed"),
})
PROPS["C16"] = dict(bin="c16", entries={
    "c16_f": e("the notation's own grammar, a line break, tab, carriage return or nothing at one of 4 places", tags=["notation-token-number", "notation-rule-number"], time=400, steps=100000000),
    "c16_a": e("token sequences of a file of at most 1 rule, 2 alternatives of 1 element", tags=["notation-tree", "notation-tokens", "notation-token-type", "notation-token-text"]),
    "c16_b": e("token sequences of a file of at most 3 rules, 1 element"),
    "c16_c": e("blocks of at most 7 tokens, 2 alternatives, 2 elements, nested twice"),
    "c16_d": e("texts of at most 7 tokens: a rule, any names and literals, any spelling of the colon", tags=["notation-scan"]),
    "c16_e": e("texts of at most 7 tokens with a block, a line break, tab, form feed or nothing at one place"),
    "c16_g": e("texts of two rules, a line break, tab, form feed or nothing between them"),
    "c16_h": e("large texts: 9 rules, alternatives or elements, blocks 9 deep, or names and literals of up to 36 pieces; any of 3 steps through the kinds of elements and suffixes; either parser", steps=200000000),
    "c16_i": e("as c16_h, 24 and 96", steps=400000000),
    "c16_s": e("token sequences of at most 13 tokens", tier="thorough", time=4000),
    "c16_t": e("texts of at most 9 tokens", tier="thorough", time=4000),
})
PROPS["C18"] = dict(bin="c18", entries={
    "c18_a": e("a rule of at most 2 alternatives of at most 2 elements, 3 in all: any of 3 tokens or the rule itself, any suffix; sentences of at most 4 tokens", tags=["end-tree", "end-token-type", "end-token-text"]),
    "c18_b": e("two rules, 4 elements in all"),
    "c18_c": e("a rule with blocks of at most 2 alternatives of 2 elements, 4 elements in all"),
    "c18_d": e("a rule over 2 tokens and 2 literals"),
    "c18_e": e("sums, products and calls: sentences of at most 6 tokens, each kind of token in turn"),
    "c18_f": e("statements with optional parts: sentences of at most 8 tokens"),
    "c18_g": e("lists and members: sentences of at most 8 tokens"),
    "c18_h": e("the same blocks and repeated items in several places: sentences of at most 8 tokens"),
    "c18_i": e("rules that can vanish: sentences of at most 8 tokens"),
    "c18_j": e("the grammars of c18_e to c18_i, long sentences: 40 choices taken in turn by any of 7 steps, up to 3 repetitions, then the shortest way out", steps=200000000),
    "c18_k": e("as c18_j, 70 choices, up to 5 repetitions", steps=400000000),
    "c18_s": e("two rules of at most 2 alternatives of 2 elements, 5 elements in all, over 3 tokens and a literal", tier="thorough", time=3000),
    "c18_t": e("a rule of at most 2 alternatives of 3 elements with blocks nested twice, 6 elements in all", tier="thorough", time=3000),
    "c18_u": e("as c18_e, sentences of at most 8 tokens", tier="thorough", time=3000),
    "c18_v": e("as c18_f, sentences of at most 11 tokens", tier="thorough", time=3000),
})
