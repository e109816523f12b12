#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the statements below (run after editing)."""
import json

DEC, LEX, SEL, SPAN = "src/decompose/mod.rs", "src/lex/mod.rs", "src/lex/selmaho/classify.rs", "src/span.rs"
LEXTEST = "The suite compares a list of sample lines with recorded outputs; it reaches those lines only."
P = []


def p(id, title, statement, qtext, why, files, mech, over=("inputs",), observe=()):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": list(over), "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": list(files), "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": list(observe), "hook_needed": None}})


DM = [("Decomposer as an iterator, step by word or by chunk", DEC), ("morphology: word boundaries by stress, clusters and pauses", DEC)]
p("T01", "Words found in a text are non-empty, ordered, in bounds and miss no letter",
  "Decomposing any text yields spans in order that do not overlap, lie inside the text at character boundaries, and contain at least one character that is not a comma and no pause. Everything between, before and after the words is pauses and commas. Decomposition ends and never panics.",
  "every text", LEXTEST, [DEC], DM, observe=["decompose(text) as an iterator"])
p("T02", "A pause separates: the words on its two sides do not depend on each other",
  "The words of a text that contains a pause (period, space, tab, line break, ! or ?) are exactly the words of the part before the pause followed by those of the part after it, shifted by their position.",
  "every text and every pause in it", LEXTEST, [DEC], DM, observe=["decompose(text) as an iterator"])
p("T03", "A comma anywhere in a text does not change its words",
  "Inserting a comma at any place of a text leaves the sequence of its words unchanged: each word covers the same letters as before (commas at the ends of a span aside), and no word appears or disappears.",
  "every text and every insertion place", "Samples with commas are few; the quantifier ranges over all texts and all places.", [DEC], DM, observe=["decompose(text) as an iterator"])
p("T04", "h equals apostrophe and the case of consonants does not matter to words",
  "Replacing any apostrophes of a text by h, and changing the case of any consonants, leaves the spans of its words unchanged. (The case of vowels marks stress and may change them.)",
  "every text and every choice of letters to respell", LEXTEST, [DEC], DM, observe=["decompose(text) as an iterator"])
p("T06", "Stepping by words and by chunks can be mixed freely",
  "At any point of a decomposition, asking for the next word gives the next word of the plain decomposition that starts after everything consumed so far, and asking for a raw chunk gives the rest of the current chunk if a word is left in it and otherwise the whole next chunk. The size hint is a valid bound on the words that remain at any such point.",
  "every text and every sequence of word and chunk steps", "Only the lexer mixes the two steps in tests, on sample quotes.", [DEC], DM, over=("inputs", "histories"), observe=["Decomposer::next, next_no_decomposition, size_hint"])
p("T07", "A word taken out of its text is still one word",
  "Each word found in a text, decomposed by itself, is exactly one word covering the same letters.",
  "every text and every word in it", LEXTEST, [DEC], DM, observe=["decompose(text) as an iterator"])
p("M10", "Word boundaries are those of Lojban's morphology",
  "The words of a text are those of the language's published morphology: names end at pauses, brivla (gismu, lujvo, fu'ivla) end by stress or at pauses, structure words are split off in front, with the slinku'i and tosmabru rules and the permitted-cluster tables. Text that fits no rule becomes one word up to the pause.",
  "every text", LEXTEST, [DEC], DM, observe=["decompose(text) as an iterator"])
p("L10", "Outside quotes, every word becomes one token of its class",
  "Outside quotes and before an end-of-text word, lexing yields exactly one token per word of the text, in order, with the word's span and with the class and experimental mark that the word has by itself.",
  "every text", LEXTEST, [LEX], [("token loop over words", LEX), ("word classification", SEL)], observe=["lex(text) as an iterator"])
p("L11", "Delimited quotes end at the first repetition of their delimiter",
  "After a word that opens a delimited quote, the next word is the delimiter; the quoted text spans everything from there to the first pause-delimited chunk that equals the delimiter (ignoring commas), whatever it contains, and is omitted when empty. Two-part quotes go on with a second part up to the next repetition, and lexing continues normally after the closing delimiter.",
  "every text with a delimited quote", LEXTEST, [LEX], [("queue of quote tokens", LEX), ("stepping by chunks", DEC)], observe=["lex(text) as an iterator"])
p("L12", "Pause-delimited quotes take exactly the next chunk verbatim",
  "After a word that opens a pause-delimited quote, exactly one quoted-text token follows, which spans the rest of the current chunk if a word is left in it and otherwise the next chunk up to the following pause; it is not decomposed or classified, and lexing continues normally after it.",
  "every text with a pause-delimited quote", LEXTEST, [LEX], [("pause-delimited quotes", LEX), ("stepping by chunks", DEC)], observe=["lex(text) as an iterator"])
p("L13", "Broken quotes are reported once with the right spans, and lexing then stops",
  "A quote without a delimiter, one never closed, and a pause-delimited quote at the end of the text are each reported as the matching error, with the spans of the opening word and of the delimiter searched for; after an error, after an end-of-text word and after the end nothing more is produced.",
  "every text", LEXTEST, [LEX], [("error cases and fusing", LEX)], observe=["lex(text) as an iterator"])
p("L14", "Tokens cover the text: ordered, in bounds, only pauses and commas between",
  "The spans of the tokens of a text are ordered, do not overlap, lie inside the text, and only pauses and commas lie between them; unless lexing stopped at an error or an end-of-text word, also after the last. Only quoted text may be empty or contain pauses.",
  "every text", LEXTEST, [LEX, DEC], [("token loop", LEX)], observe=["lex(text) as an iterator"])
p("K20", "Every dictionary word has its documented class",
  "Each structure word of the documented dictionary is classified into its documented class, also when it is written with commas or with h for an apostrophe.",
  "every word of the dictionary in every spelling", "Tests classify a few dozen words of 1361.", [SEL], [("table of words", SEL)], observe=["Selmaho::classify"])
p("K21", "A word outside the dictionary is classified by its form",
  "A word that is not in the dictionary is classified by its form alone: name, unknown structure word, gismu, lujvo or fu'ivla as the morphology defines these, and as arbitrary text when it has none of these forms.",
  "every word", LEXTEST, [SEL, DEC], [("fallback classification", SEL)], observe=["Selmaho::classify"])
p("K22", "The experimental mark is exactly that of the dictionary",
  "A word is marked experimental exactly when the dictionary documents it as experimental or when it is a structure word the dictionary does not know; gismu, lujvo, fu'ivla, names and arbitrary text never are.",
  "every word", "Tests look at the mark of a few words.", [SEL], [("table of words", SEL)], observe=["Selmaho::classify"])
p("K23", "Spelling variants of a word have the same class",
  "Writing a word with a comma between two of its characters, or with h for any apostrophe, changes neither its class nor its experimental mark.",
  "every word, every place of the comma, every choice of apostrophes", LEXTEST, [SEL], [("clean-up before the table lookup", SEL)], observe=["Selmaho::classify"])
p("K24", "Class names are correct and unique",
  "Every class has its own displayed name (no two share one), which is the documented one, and its experimental origin is as documented; two classes are equal only if they are the same.",
  "every pair of the 251 classes", "No test reads the names of most classes.", ["src/lex/selmaho/display.rs", "src/lex/selmaho/mod.rs"], [("display table", "src/lex/selmaho/display.rs")], observe=["Selmaho::as_repr, is_fundamentally_experimental"])
p("K25", "Every dictionary word can be written: as a text it is one token of its class",
  "A text that consists of one dictionary word is decomposed into that one word and lexed into one token of the documented class that covers it.",
  "every word of the dictionary", "Tests reach a few dozen words of 1361.", [DEC, SEL, LEX], [("table of words", SEL), ("morphology", DEC)], observe=["decompose, lex"])
p("S40", "Span algebra: length, emptiness, containment, overlap and gaps are exact",
  "For all spans, length, emptiness, containment of a location, overlap (symmetric, and false for an empty span at the edge of another) and the gap between two spans are those of half-open intervals, without arithmetic failure; a span with its end before its start cannot be constructed.",
  "all pairs of spans with 32-bit ends", "A dozen sample spans are tested.", [SPAN], [("Span methods", SPAN)], observe=["Span"])
p("S41", "Slicing by a span is exact and safe",
  "Slicing a text by a span, and taking what is before or after it, gives exactly those bytes, and nothing when the span is out of bounds or cuts a character; the span of a slice taken from a text is the span it was taken with.",
  "every UTF-8 text and every span with 32-bit ends", "Samples with ASCII texts are tested.", [SPAN], [("Span::slice and friends", SPAN)], observe=["Span::slice, slice_before, slice_after, from_embedded_slice, entire_slice"])

NA = []
try:
    from meta_parse import add
    add(p, NA)
except ImportError:
    pass

with open("properties.jsonl", "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
import properties as props
TECH = "symbolic execution of rustc's LLVM IR; verification conditions decided by ROBDDs and confirmed by z3 (SMT-LIB); witnesses replayed"
NOTE = ("Holds for every input within the stated patterns and lengths: all of them at once are symbolic variables, loops are unrolled to their end. Trusts rustc/LLVM lowering, the engine's IR semantics "
        "and its decision procedure (core queries are confirmed by z3, every witness is replayed natively). Nothing is claimed for longer texts or other shapes.")
checks = [{"property": x["id"], "quick_cmd": f"./check {x['id']} quick", "thorough_cmd": f"./check {x['id']} thorough", "technique": getattr(props.PROPS[x["id"]], "technique", TECH),
           "level": "model_checking", "level_note": getattr(props.PROPS[x["id"]], "note", NOTE)} for x in P if x["id"] in props.PROPS]
m = {"version": 1, "setup_cmd": "./setup.sh", "hooks": {"guard": "none", "enable": "no hooks: the harness crate uses the public interface only", "source_commits": []},
     "checks": checks, "not_applicable": NA}
json.dump(m, open("MANIFEST.json", "w"), indent=1, ensure_ascii=False)
import jsonschema
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
for x in P:
    jsonschema.validate(x, json.load(open("/root/.vp/PROPERTIES.schema.json")))
