"""Statements of the parser's properties (see meta.py)."""
RULES, SELM, DERIVE, DTREE = "src/parse/cst/rules/mod.rs", "src/parse/cst/rules/selmaho.rs", "macros/src/derive_parse.rs", "macros/src/derive_tree_node.rs"
CONN, MEKSO, HELP, TREE, ERR, CST, TRAIT = ("src/parse/cst/rules/connectives.rs", "src/parse/cst/rules/mekso.rs", "src/parse/cst/rules/helpers.rs", "src/parse/tree_node.rs",
                                              "src/parse/cst/error.rs", "src/parse/cst/mod.rs", "src/parse/cst/parse_trait.rs")
GRAMMAR = [RULES, SELM, CONN, MEKSO, HELP, DERIVE, TRAIT]
GM = [("grammar rules", RULES), ("words with emphasis and indicators", SELM), ("derived parsers", DERIVE)]
TM = [("derived tree nodes", DTREE), ("tree nodes of containers", TREE), ("separated lists", HELP)]
TESTS = "The suite parses about 1200 sample sentences and looks at whether they are accepted; combinations of constructs beyond those samples are not reached."
NOTREE = "The suite looks at whether sentences are accepted; it does not look at the trees."
Q = "every sequence of tokens (categories; spans and marks where they matter)"
AT = ["Cst::parse", "Cst::root and TreeNode"]


def add(p, na):
    p("T05", "From any text to its tree: no panic, every word in place",
      "Lexing any text and parsing its tokens ends without a panic. If it parses, the leaves of the tree are the tokens of the text in their order, only pauses and commas lie between consecutive leaves, and every node with a location spans from its first to its last word, inside the text and in order, so that slicing the text by it works.",
      "every text", "Samples of whole texts are parsed; the tree's spans are not looked at.", ["src/lex/mod.rs", CST, TREE, DTREE], [("lexing", "src/lex/mod.rs"), ("parsing", CST)] + TM, observe=["lex", "Cst::parse", "TreeNode"])
    p("P30", "The leaves of a tree are exactly the tokens of the sentence, in order",
      "Whenever a sentence is accepted, traversing its tree visits every token exactly once, in the order of the sentence, as a leaf that carries the token's span; no token is lost, repeated or moved, whatever rules matched.",
      Q, NOTREE, GRAMMAR + [DTREE, TREE], TM + GM, observe=AT)
    p("P31", "A node spans its words and is experimental exactly when one of them is",
      "For every node of every tree, the start is that of its first word and the end that of its last, a node without words has neither, and the experimental mark is set exactly when a word inside has it (quoted text and its delimiters have none).",
      Q + ", and every choice of marks", NOTREE, [DTREE, TREE, HELP, SELM, RULES], TM, observe=AT)
    p("P32", "Parsing always ends, and an error tells truthfully what was found where",
      "Parsing any sequence of tokens ends with a tree or an error, without a panic. The error's location is a suffix of the input; when it names the token found, that is the token at its location (none at the end), and the expected categories are not empty and do not include it. Of the errors of two alternatives the one that got further is reported, and for two as far, with the same token found, what both expected.",
      Q, "Errors are looked at by no test.", [ERR, SELM, RULES, DERIVE, CST], [("merging errors", ERR), ("matching one word", SELM), ("post-conditions and empty matches", DERIVE)], observe=["Cst::parse, error::WithLocation"])
    p("P34", "A sentence is accepted exactly when the grammar derives it",
      "Whether a sequence of tokens is accepted depends on their categories only, not on spans or experimental marks, and is as the grammar's rules say: ordered choice, optional and repeated parts, the elidable terminators, the words that may not follow, and what has to consume input. The reference is a table of the grammar, interpreted independently of the parser.",
      Q, TESTS, GRAMMAR, GM + [("connectives", CONN), ("mathematical expressions", MEKSO)], observe=["Cst::parse"])
    p("P35", "The tree has the nodes of the derivation, with their names and extents",
      "For every accepted sentence, every node of the tree is a node of the derivation by the grammar's rules at that place: it has the name of the rule (or of the category, for a word) and covers the words that the rule matched there.",
      Q, NOTREE, GRAMMAR + [DTREE, TREE], TM + GM, observe=AT)
    p("P36", "An indicator may follow any word that is not quoted or joined to the next",
      "Inserting an indicator (UI, CAI, DAhO, FUhO or Y) after any word of an accepted sentence, or before its first, leaves it accepted, unless the word before it is quoted, emphasised or compounded by its neighbour (zo, zei, ba'e, fu'e, fa'o; bu or zei following; sentences with lo'u or zoi quotes aside).",
      Q + " and every place", TESTS, [SELM, RULES], [("words with emphasis and indicators", SELM)], observe=["Cst::parse"])
    p("P37", "Any quote may stand wherever a pro-sumti can",
      "Replacing a KOhA of an accepted sentence by a quotation (zo with any word but bu, zei or le'u, lo'u .. le'u with any word or none inside, a delimited quote with or without text) leaves it accepted.",
      Q + ", every pro-sumti in it and every quoted word", TESTS, [RULES, SELM], [("quotes", RULES)], observe=["Cst::parse"])
    p("P38", "Compounds with zei stand for a gismu, letters with bu for a letter",
      "Replacing a gismu of an accepted sentence by a zei compound of any words (also one that begins with a letter made by bu, or of three parts), or a letter by any word with bu, leaves it accepted.",
      Q + ", every gismu or letter in it and every pair of words", TESTS, [RULES, SELM], [("zei compounds and letters made with bu", RULES)], observe=["Cst::parse"])
    p("P39", "Any word that is not quoted may be emphasised with ba'e",
      "Inserting BAhE before any word of an accepted sentence leaves it accepted, unless that word is quoted, joined to the one before it (bu, zei, or after zo, zei) or follows fu'e or fa'o (sentences with lo'u or zoi quotes aside).",
      Q + " and every place", TESTS, [SELM, RULES], [("words with emphasis and indicators", SELM)], observe=["Cst::parse"])
    p("P40", "An accepted text may be quoted, parenthesised, continued and ended",
      "If a text is accepted (and has no fa'o), so is it between lu and li'u as a sumti, between to and toi as a parenthesis before or after a sumti, followed by .i or ni'o and another sentence, preceded by a sentence and .i or ni'o (for .i, unless it has JOI or BIhI, which would connect), and followed by fa'o.",
      Q, TESTS, GRAMMAR, GM, observe=["Cst::parse"])
    p("P41", "A closed sumti phrase may stand wherever a pro-sumti can",
      "Replacing a KOhA of an accepted sentence by a complete, terminated sumti (a description, one with an inner quantifier, possessor or abstraction, a name description, a number, a quotation, a qualified sumti, one with a relative phrase or clause) leaves it accepted, where it is not preceded by a number, a letter, zo or zei or followed by a relative phrase or clause, bu or zei, or anywhere later by be.",
      Q + " and every pro-sumti in it", TESTS, GRAMMAR, GM, observe=["Cst::parse"])
    p("P42", "A closed selbri phrase may stand wherever a gismu can",
      "Replacing a gismu of an accepted sentence by another complete tanru unit (lujvo, fu'ivla, GOhA, an abstraction, a sumti made selbri, one with linked sumti, converted, modal-converted, negated or grouped units, a mathematical operator made selbri) leaves it accepted, where it is not preceded by zo or zei, a number or a letter, or followed by a relative phrase, bu or zei, or anywhere later by be.",
      Q + " and every gismu in it", TESTS, GRAMMAR, GM, observe=["Cst::parse"])
    p("P43", "A terminator at the end of a text may be left out",
      "If a text that ends in an elidable terminator (ku, kei, vau, ku'o, ge'u, be'o, ke'e, lu'u, tu'u, te'u, ve'o, me'u, fe'u, se'u, li'u, toi, do'u, boi, lo'o, ku'e, nu'u) is accepted, it is also without it (unless the terminator is quoted or compounded, or is a ku that does not end a description).",
      Q, TESTS, GRAMMAR, GM, observe=["Cst::parse"])
    p("P44", "A free modifier may follow any word that ends a part of a sentence",
      "Inserting a complete free modifier (to .. toi, sei .. se'u, xi with a number, a vocative with do'u, soi .. se'u, a number or letter with mai) before the first word of an accepted sentence or after any other leaves it accepted, unless the word before it is one that cannot be followed there "
      "(one of la, la'e, na'e, bo, ba'e, se, na, nai, a letter or number, name, quoted text, an indicator, a connective, coi, doi, zo, zei, bu, tei, foi, lau, ga'o, fu'e, fa'o, mo'i, fe'e, go'a), or bu or zei follows (sentences with lo'u or zoi quotes aside).",
      Q + " and every place", TESTS, GRAMMAR, [("free modifiers after the words of a rule", RULES)] + GM, observe=["Cst::parse"])
    p("P45", "Numbers, strings of letters and names may be longer",
      "Replacing a digit of an accepted sentence by several digits or by digits and letters (also with lau or tei .. foi), a letter by several letters, letters and digits, lau or tei .. foi (the last two not after another lau), or a name word by several, leaves it accepted.",
      Q + " and every number, letter and name in it", TESTS, [RULES, MEKSO, SELM], [("numbers and strings of letters", MEKSO)] + GM, observe=["Cst::parse"])
    p("P46", "Any tense or modal may stand for another",
      "Replacing PU in an accepted sentence by another tense or modal (with offsets, direction, intervals, contours, actuality, nai, ki, joined by JA or JOI, several in a row, BAI with se or nai, fi'o with a selbri, cu'e; with ROI or TAhE at the start or after a pro-sumti, gismu, ku or cu) leaves it accepted (those with ki, cu'e, fi'o and na'e unless na'e is earlier).",
      Q + " and every PU in it", TESTS, [RULES, SELM, CONN], [("tenses and modals", RULES)] + GM, observe=["Cst::parse"])
    p("P47", "A sumti may be joined to another, a tanru unit to another",
      "Replacing a KOhA of an accepted sentence by two joined with A (also with nai or bo), JOI, BIhI or vu'o goi, unless it is the possessor in a description, or a gismu by several in a row or joined with JA (also with nai or bo), JOI, bo or cei, by ke .. ke'e (in sentences without gi'a, joi, ja, a) or with co (without ke, be), leaves it accepted.",
      Q + ", every pro-sumti and every gismu in it", TESTS, GRAMMAR, [("connectives", CONN)] + GM, observe=["Cst::parse"])
    p("P48", "Terminators may be left out before the end of a phrase",
      "Replacing a KOhA of an accepted sentence that is last or followed by cu, .i, ni'o or vau (and not preceded by a number, a letter or foi) by a sumti without its terminators (descriptions with quantifiers, possessors, abstractions, relative phrases and clauses, quotations, numbers, letters, connected ones) leaves it accepted; so does replacing any by one qualified by la'e or na'e bo, one with a relative phrase, la with a name or zo with a word.",
      Q + " and every pro-sumti in it", TESTS, GRAMMAR, GM + [("elidable terminators", DERIVE)], observe=["Cst::parse"])
    p("P49", "A sentence may begin and end with more terms",
      "Putting one or two terms (a sumti, also with fa, pu or a modal ku, na ku), a prenex, .i or ni'o before a sentence that is accepted and begins with none of gi'a, joi, a, ja, bi'i, pa, na, vei, ba'e, tu'e, se, bai, ga'o, sei, an indicator before any, or terms, .i, ni'o, an indicator or .i and a sentence after one that ends in a selbri word, pro-sumti, name or terminator other than vau, leaves it accepted.",
      Q, TESTS, GRAMMAR, GM, observe=["Cst::parse"])
    p("P50", "Words of the same function, and quoted words, are interchangeable",
      "In any sentence, accepted or not, replacing any gismu, lujvo and fu'ivla by one another, any indicators (UI, CAI, DAhO, FUhO, Y) by one another, TAhE by ZAhO or back, JOI by BIhI or back (in a sentence without ga'o), or any words quoted by zo or lo'u .. le'u by others (not bu, zei, le'u or ba'e, nor before bu or zei), changes neither whether the sentence is accepted nor at which word it is refused.",
      Q + " and every choice of words to replace", TESTS, GRAMMAR, GM + [("errors", ERR)], observe=["Cst::parse"])
