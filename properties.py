"""The queries behind every property: harness functions, input patterns (see harness/src/gen.rs), bounds."""
from driver.runs import R
from sentences import CORPUS, COVERS, TEMPLATES, pack

PATTERNS = ("Texts of the listed patterns: ? is any of 32 characters (vowels in both cases, 17 consonants, apostrophe, comma, period, space), "
            "* any of 64 (every letter in both cases, digits, all pauses, foreign letters), # any ASCII character, % any of 8 vowels, & any of 16 consonants, "
            "~ any of 8 characters, @ any byte (valid UTF-8), | a symbolic pause, ^ the place of the inserted comma (^^ of twenty); everything else stands for itself. "
            "Loops are unrolled to their end (a loop that does not end within the text aborts the run). Outside the bounds: longer texts, other shapes.")
COMMON = [
    "rustc and LLVM (opt-level 1, plus simplifycfg/sroa/scalarizer) lower the source faithfully; the engine's semantics of LLVM IR and its ROBDD decision procedure are trusted "
    "(the core runs' verification conditions are exported and confirmed by z3; every witness is replayed natively)",
    "overflow checks, bounds checks and debug assertions are on; allocation never fails; formatting and logging calls are not modelled",
]


class Prop:
    def __init__(self, runs, bounds=PATTERNS, assumptions=(), level="model_checking"):
        self.runs, self.bounds, self.level = runs, bounds, level
        self.assumptions = COMMON + list(assumptions)


def q(fn, *pats, **kw):
    return [R(fn, p, **kw) for p in pats]


def t(fn, *pats, **kw):
    return [R(fn, p, tier="thorough", **kw) for p in pats]


# word shapes: gismu, lujvo with each rafsi form and hyphen, fu'ivla, slinku'i, tosmabru, cmavo runs, names
SHAPES = ["&%&&%&%?", "?&%&&%??", "tosmab?u?", "le&%&&%lo?", "&%&y&&%&%?", "&%&%&&%&&%?", "&%%r&%&&%?", "&%'%r&%&&%?", "&%'%n&%&&%?", "&&%&%&&%?",
          "&%&&y&%&&%?", "&&%&y&%&&%?", "&%&r&%&&%?", "?&&%&%??", "???&&%&%", "?%'%&%&&%?", "&%&&%&%&&%?", "?%&&%&&%?", "%'%&&%&&%?", "&&&%&%??", "&%&&%,&&%?",
          "la.????.", "?&%h%&&%&&%?", "mi&%&y&&%?", "i&&%&%&&%&%?", "sp&%&&%&%??", "&%%&%&&%?", "&%'%&%&&%?", "&%&&%%&&%?", "&&%%&&%?", "?,,,,,,,,,,,,,,,,,,%?,,,,,,,,&%?"]
DEEP = ["??????", "***??", "?????broda", "???&&%&%???", "&&%&y??????", "????&%&&%??", "&%&&%????", "&%&y????", "&&%????", "&%'%????", "le_????_coi", "&%&&y????", "%%'%????", "####", "#####"]


def deep(fn, cover=(), pats=DEEP):
    return [R(fn, p, tier="thorough", cover=cover) for p in pats]


PROPS = {
    "T01": Prop(q("h_words", "????", core=True, smt=90, cover=[1]) + q("h_words", "####", cover=[1]) + q("h_words", "?????", *SHAPES) + deep("h_words")),
    "T02": Prop(q("h_local", "??|??", core=True, smt=90, cover=[1, 2])
                + q("h_local", "*|*", "???|??", "??|???", "&%&%&&%|???", "???|&%&&%?", "&%|&&%?%??", "&%&y|&%&&%?", "&%&&%|&%&&%|?", "?|?|?|?", "&%?&|&%&&%?", "&%'|%?&%&&%")
                + t("h_local", "???|???", "*?|?*", "????|???", "&%&&%?|???", "???|&%&???", "??|????")),
    "T03": Prop(q("h_comma", "??^??", core=True, smt=90, cover=[1])
                + q("h_comma", "^????", "?^???", "???^?", "????^", "*^*", "?%^&&%&%?", "&%&^&%&%?", "&%^&%&%&&%", "&%&&%^&&%?", "&%&^y&%&&%?", "&%^'%&%&&%?", "&&^%&%&&%?", "sp^&%&&%&%?")
                + q("h_comma", "?^^???", "^^????", "???^^?", "????^^", "?%&^^&%&%?", "&%^^'%&%&&%", "&%&^^y&%&&%?", "&%&&%^^?%", "&%,,,,,,,,,,,,,,,,,^,,,,,,&%", "?,,,,,,,,,,,,,,,,,,^,,,,,,%?", "&%&&,,,,,,,,,,,,,,,,,,,,^%", ",,,,,,,,,,,,,,,,^,,,%&%?", "?%,,,,,,,,,,,,,,,,,,,,^_%?")
                + t("h_comma", "???^??", "??^???", "?????^", "^?????", "&%&&%^????", "????^&%&&%", "???^&&%&%?", "*?^*?")),
    "T04": Prop(q("h_case", "????", core=True, smt=90, cover=[1])
                + q("h_case", "?%&&%&%?", "&%&&%'%?", "&%'%r&%&&%", "&%&y&%&&%?", "?&&%&%??", "&&%&y&%&&%", "?%&&%h%?", "la.????", "&%'%&%'%&&%", "&%&&%&&%?", "%'%&&%&&%?")
                + t("h_case", "?????", "????&%&&%", "&%&&%????", "&%'%????")),
    "T06": Prop(q("h_step", "????", core=True, smt=90, cover=[1, 2, 3])
                + q("h_step", "*?*", "mi??|mi?", "??,??", "&%&&%_?_?", "mi.&%&&%??", "&%&&%.&%?", "&%&%_&%&&%")
                + t("h_step", "?????", "??_?_??", "&%&&%???_&%")),
    "T07": Prop(q("h_again", "????", core=True, smt=90, cover=[1]) + q("h_again", "####", *SHAPES[:14]) + deep("h_again", pats=["?????", "???&&%&%??", "?????broda", "&%&&%????"] + SHAPES[14:])),
    "M10": Prop(q("h_ref", "????", core=True, smt=90, cover=[2]) + q("h_ref", "####", cover=[2]) + q("h_ref", "?????", *SHAPES) + deep("h_ref")),
}
LEX = ["zo'oi_????", "so'e'ai_~~~~~~", "so'e'ai_~~_~~_~~~", "so'e'ai_gy~~~gy~~~gy~~", "fa'o_????", "zoi", "mu'oi~~~~~~", "???_me'oi", "?me'oi_????", "zoi_gy_~~~~~", "zoi.?.???.?", "do'o'oi_???",
       "zoi_gy~~~~gy_???", "zoi_g,y_~~~~gy", "fa'oi'?", "fa'o'o_???", "zo_zoi_gy~~~~", "zo'oi.me'oi???", "zoi_gy.gy_zoi~~~~~~", "mi_fa'o?~~~", "me'oi~~~~~"]
LEXDEEP = ["zoi_??????", "zoi_~~~~~~~~", "zoi_gy_~~~~~~~~~", "zo'oi_?????", "?????", "fa'o_?????", "me'oi_??????", "so'e'ai_~~~~~~~~", "mu'oi~~~~~~~~~~", "zoi~~~~~~~~~"]


def lexruns(ids, cover):
    c0, rest = cover
    return ([R("h_lex", c0[0], core=True, smt=90, ids=ids, cover=c0[1:])] + [R("h_lex", "????", ids=ids)] + [R("h_lex", p, ids=ids, cover=rest.get(p, ())) for p in LEX]
            + [R("h_lex", p, tier="thorough", ids=ids) for p in LEXDEEP])


PROPS.update({
    "L10": Prop(lexruns([1], (["????", 1], {})) + q("h_lex", *[x for x in SHAPES[:10]], ids=[1])),
    "L11": Prop(lexruns(range(10, 20), (["zoi_~~~~~~", 10, 11], {"so'e'ai_~~_~~_~~~": (10,)}))),
    "L12": Prop(lexruns([20, 21], (["zo'oi_???", 20], {"?me'oi_????": (20,)}))),
    "L13": Prop(lexruns(range(30, 40), (["zoi~~~~~~", 33], {"zoi": (31,), "???_me'oi": (35,), "fa'o_????": (37,)}))),
    "L14": Prop(q("h_tokens", "????", core=True, smt=90, cover=[1]) + q("h_tokens", "####", "zoi~~~~~~~", *LEX) + t("h_tokens", *LEXDEEP)),
    "K20": Prop([R("h_dict", "?" * n, core=n == 4, smt=60 if n <= 4 else 0, ids=[1], cover=[1]) for n in range(1, 9)]
                + [R("h_dictn", args=[n, 1, 0, 0], ids=[1], cover=[1] if n in (9, 10, 12, 98) else []) for n in (9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 98)]
                + [R("h_dictn", args=[n, 1, 0, 0], ids=[1], tier="thorough") for n in range(21, 120)] + [R("h_dictn", args=[n, 0, 0, 0], ids=[1], tier="thorough") for n in range(9, 18)],
                bounds="Words of the documented dictionary (1361, every one of at most 120 letters): each length is one query over all strings of that length (32-letter alphabets, with commas for up to 8 letters)."),
    "K21": Prop(q("h_class", "????", core=True, smt=60, ids=[1], cover=[1, 6]) + q("h_class", "?????", ids=[1], cover=[1, 2, 3, 5, 6])
                + q("h_class", "&%&&%&%", "&%&%&&%", "&%&y&%&&%", "&%'%&%&&%", "&%%r&%&&%", "&&%&%&&%", "&%&&y&%&&%", "?&&%&%?", "&%&&%&%&&%", "&%&&%%&", "&&%y&&%&%", "sp&%&&%&%?", "&%'%n?%&&%", "?%&&%&?", "&%,&&%?", "%'%?%?", "?y'%%", "????&", ids=[1])
                + t("h_class", "??????", "****", "&%&&%????", "####", "&%&y????", ids=[1])),
    "K22": Prop([R("h_dict", "?" * n, core=n == 4, smt=60 if n <= 4 else 0, ids=[2], cover=[1]) for n in range(1, 9)]
                + [R("h_dictn", args=[n, 1, 0, 0], ids=[2]) for n in (9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 98)]
                + q("h_class", "????", "?????", "%'%?%?", "?%'%%", "?%'%'%", ids=[2]) + t("h_class", "??????", "%'%????", ids=[2])
                + [R("h_dictn", args=[n, 1, 0, 0], ids=[2], tier="thorough") for n in range(19, 120) if n != 98]),
    "K23": Prop(q("h_spell", "??^??", core=True, smt=60, cover=[1]) + q("h_spell", "&%'%,,,,,,,,,,,,,^,,,,,,,%", "?,,,,,,,,,,,,,^,,,,,%") + q("h_spell", "?^?", "?^??", "??^?", "?^????", "????^?", "&%^'%?%", "%'^%%'%", "&%^&&%", "&%&&%^&&%", "&%&^y&%&&%", "?%^'%%?", "&%&y^&%&&%", "?%'%'%^?%")
                + t("h_spell", "??^???", "???^??", "?^?????", "?????^?", "&%&&%^????")),
    "K24": Prop([R("h_names", args=[0, 0, 0, 0], core=True, smt=60, cover=[1])], bounds="All pairs of the 251 classes (complete)."),
    "K25": Prop([R("h_dictlex", "?" * n, core=n == 4, smt=60 if n <= 4 else 0, cover=[1]) for n in range(1, 9)] + [R("h_dictlex", "?" * n) for n in range(9, 15)]
                + [R("h_dictlex", "?" * n, tier="thorough") for n in range(15, 32)], bounds="Every dictionary word of at most 14 (thorough: 31) letters, over the 32-letter alphabet without commas, in one query per length."),
    "S40": Prop([R("h_span", args=[0, 0, 0, 0], core=True, smt=60, cover=[1, 2]), R("h_span_bad", args=[0, 0, 0, 0], core=True, smt=30, cover=[1], panics="ignore")],
                bounds="All pairs of spans with 32-bit ends (complete, no bound)."),
    "S41": Prop(q("h_slice", "@@@@", core=True, smt=60, cover=[1]) + q("h_slice", "@@@@@@@", "@", "@@") + t("h_slice", "@@@@@@@@@", "abcde@@@@@@"),
                bounds="All UTF-8 texts of the listed lengths (bytes), spans with any 32-bit ends, start at most end."),
})

SENTENCES = ("Sentences of token categories (251): the listed ones, `?` standing for any category at all; marked `1` also with the token at any one place replaced by any category, "
             "marked `2` with a token of any category inserted at any place (place and category symbolic, one query for all). The templates use every rule of the grammar that the test sentences use; "
             "the covers (from the reference grammar) have every part of every rule filled, empty and repeated, and every alternative. "
             "Outside the bounds: longer sentences, changes of two or more tokens at once (the sentences of up to three arbitrary tokens aside).")
PARSER = ["the vectors of tokens are given to the parser directly, except in T05 where the lexer makes them; bumpalo is replaced by a stand-in that allocates through the engine",
          "where two alternatives fail, the error of the one that got further is kept by a stand-in for WithLocation::or in the queries about parsing; the real one is decided by itself (P32)"]


def sent(fn, sentences, mode=0, **kw):
    return [R(fn, f"{x} /{mode}", args=pack(x, mode), **kw) for x in sentences]


def pp(runs):
    return Prop(runs, bounds=SENTENCES, assumptions=PARSER)


def upto(n, lo=0):
    return [x for x in TEMPLATES if lo <= len(x.split()) <= n]


def having(words, ts=None):
    return [x for x in (TEMPLATES if ts is None else ts) if set(words) & set(x.split())]


# sentences that fill, empty and repeat every part of every rule
def covers(fn, quick, deep=None, want=None, upto=30, **kw):
    ts = [x for x in COVERS if len(x.split()) <= upto and (want is None or set(want) & set(x.split()))]
    return sent(fn, ts, quick, **kw) + (sent(fn, ts, deep, tier="thorough", **kw) if deep is not None else [])


# thorough: every sentence of the corpus; short ones with a change at any place
def more(fn, mode, limit, want=None, **kw):
    return sent(fn, [x for x in CORPUS if len(x.split()) <= limit and x not in TEMPLATES and (want is None or set([want] if isinstance(want, str) else want) & set(x.split()))], mode, tier="thorough", **kw)


SWAPPED = ["Gismu", "Lujvo", "Fuhivla", "Ui", "Cai", "Daho", "Fuho", "Y", "Tahe", "Zaho", "Joi", "Bihi", "Zo", "Lohu"]
NUMBERS = ["Pa", "By", "Cmevla"]
ANY = ["?", "? ?", "? ? ?"]
PIPE = ["????", "mi_klama_???", "le_???_klama", "zoi_gy_?_gy", "zo_???", "mi_???_do", "la_???_cu_klama", "lo'u_???_le'u", "mi_klama_.i???", "so'e'ai_~~_~~_~~", "???_bu", "ba'e_??_broda",
        "?i_klama_??", "sei_???_se'u", "li_??_su'i_??", "zoi~~~~~~", "zoi_gy_????", "fa'o_???", "me'oi_???", "zo'oi_???"]
PROPS.update({
    "T05": Prop(q("h_pipe", "???", core=True, smt=60, cover=[1, 2]) + q("h_pipe", *PIPE) + t("h_pipe", "?????", "????_klama", "klama_????", "mi_????_do", "le_????_cu_broda", "zoi_gy~~~~~~~~", "####", "lu_????_li'u"),
                assumptions=PARSER),
    "P30": pp(sent("h_tree", ["?"], core=True, smt=60, cover=[1], ids=[1, 3, 4]) + sent("h_tree", ["? ?"], smt=60, ids=[1, 3, 4]) + sent("h_tree", TEMPLATES, 1, ids=[1, 3, 4])
              + sent("h_tree", ["? ? ?"], ids=[1, 3, 4], tier="thorough") + sent("h_tree", TEMPLATES, 2, ids=[1, 3, 4], tier="thorough") + more("h_tree", 1, 12, ids=[1, 3, 4])
              + covers("h_tree", 0, 1, ids=[1, 3, 4])),
    "P31": pp(sent("h_tree", ["?"], core=True, smt=60, cover=[1], ids=[6, 7, 8, 10]) + sent("h_tree", ["? ?"], smt=60, ids=[6, 7, 8, 10]) + sent("h_tree", TEMPLATES, 1, ids=[6, 7, 8, 10])
              + sent("h_tree", ["? ? ?"], ids=[6, 7, 8, 10], tier="thorough") + sent("h_tree", TEMPLATES, 2, ids=[6, 7, 8, 10], tier="thorough") + more("h_tree", 1, 12, ids=[6, 7, 8, 10])
              + covers("h_tree", 0, 1, ids=[6, 7, 8, 10])),
    "P32": pp([R("h_or", args=[0, 0, 0, 0], core=True, smt=60, cover=[1, 2], raw=True)] + sent("h_parse", ["? ?"], core=True, smt=60, cover=[1, 2])
              + sent("h_parse", ["?", "? ? ?"]) + sent("h_parse", TEMPLATES, 1) + sent("h_parse", TEMPLATES, 2, tier="thorough") + more("h_parse", 1, 20)
              + covers("h_parse", 0, 1)),
    "P34": pp(sent("h_gram", ["? ?"], core=True, smt=60, cover=[1, 2]) + sent("h_gram", ["?", "? ? ?"]) + sent("h_gram", TEMPLATES, 1, cover=[1])
              + sent("h_gram", TEMPLATES, 2, tier="thorough") + more("h_gram", 1, 20) + more("h_gram", 2, 12)
              + covers("h_gram", 1, 2)),
    "P35": pp(sent("h_shape", ["?"], core=True, smt=60, cover=[1]) + sent("h_shape", ["? ?"], smt=60) + sent("h_shape", upto(5), 1) + sent("h_shape", upto(99, 6), 0)
              + sent("h_shape", upto(99, 6), 1, tier="thorough") + more("h_shape", 0, 30)
              + covers("h_shape", 0)),
    "P36": pp(sent("h_ui", ["? ?"], core=True, smt=60, cover=[1]) + sent("h_ui", TEMPLATES, 0) + sent("h_ui", upto(5), 1) + sent("h_ui", upto(99, 6), 1, tier="thorough") + more("h_ui", 0, 30)
              + covers("h_ui", 0, 1)),
    "P37": pp(sent("h_quote", ["Koha Gismu"], core=True, smt=60, cover=[1]) + sent("h_quote", having(["Koha"], upto(8))) + sent("h_quote", having(["Koha"], upto(99, 9)), tier="thorough")
              + more("h_quote", 0, 20, "Koha")
              + covers("h_quote", 0, None, ["Koha"])),
    "P38": pp(sent("h_zei", ["Koha Gismu"], core=True, smt=60, cover=[1]) + sent("h_zei", having(["Gismu", "By"], upto(6))) + sent("h_zei", having(["Gismu", "By"], upto(99, 7)), tier="thorough")
              + more("h_zei", 0, 20, "Gismu")
              + covers("h_zei", 0, None, ["Gismu", "By"])),
    "P39": pp(sent("h_bahe", ["? ?"], core=True, smt=60, cover=[1]) + sent("h_bahe", TEMPLATES, 0) + sent("h_bahe", upto(6), 1) + sent("h_bahe", upto(99, 7), 1, tier="thorough") + more("h_bahe", 0, 30)
              + covers("h_bahe", 0, 1)),
    "P40": pp(sent("h_wrap", ["? ?"], core=True, smt=60, cover=[1]) + sent("h_wrap", TEMPLATES, 0) + sent("h_wrap", upto(4), 1) + sent("h_wrap", upto(99, 5), 1, tier="thorough") + more("h_wrap", 0, 20)
              + covers("h_wrap", 0)),
    "P41": pp(sent("h_sumti", ["Koha Gismu"], core=True, smt=60, cover=[1]) + sent("h_sumti", having(["Koha"])) + sent("h_sumti", having(["Koha"], upto(4)), 1)
              + sent("h_sumti", having(["Koha"], upto(6, 5)), 1, tier="thorough")
              + covers("h_sumti", 0, None, ["Koha"])),
    "P42": pp(sent("h_selbri", ["Koha Gismu"], core=True, smt=60, cover=[1]) + sent("h_selbri", having(["Gismu"])) + sent("h_selbri", having(["Gismu"], upto(4)), 1)
              + sent("h_selbri", having(["Gismu"], upto(6, 5)), 1, tier="thorough")
              + covers("h_selbri", 0, None, ["Gismu"])),
    "P43": pp(sent("h_elide", ["? ?"], core=True, smt=60, cover=[1]) + sent("h_elide", TEMPLATES, 1) + sent("h_elide", TEMPLATES, 2, tier="thorough")
              + covers("h_elide", 0, 1)),
    "P44": pp(sent("h_free", ["Koha Gismu"], core=True, smt=60, cover=[1]) + sent("h_free", upto(26)) + covers("h_free", 0, upto=26) + more("h_free", 0, 26)),
    "P45": pp(sent("h_long", ["Le Pa Gismu"], core=True, smt=60, cover=[1]) + sent("h_long", having(NUMBERS, upto(26))) + covers("h_long", 0, None, NUMBERS, upto=26) + more("h_long", 0, 26, NUMBERS)),
    "P46": pp(sent("h_tag", ["Koha Pu Gismu"], core=True, smt=60, cover=[1]) + sent("h_tag", having(["Pu"], upto(26))) + covers("h_tag", 0, None, ["Pu"], upto=26) + more("h_tag", 0, 26, "Pu")),
    "P47": pp(sent("h_join", ["Koha Gismu"], core=True, smt=60, cover=[1]) + sent("h_join", having(["Koha", "Gismu"], upto(26))) + covers("h_join", 0, None, ["Koha", "Gismu"], upto=26)
              + more("h_join", 0, 26, ["Koha", "Gismu"])),
    "P48": pp(sent("h_open", ["Koha Gismu Koha"], core=True, smt=60, cover=[1]) + sent("h_open", having(["Koha"], upto(26))) + covers("h_open", 0, None, ["Koha"], upto=26) + more("h_open", 0, 26, "Koha")),
    "P49": pp(sent("h_ends", ["Koha Gismu"], core=True, smt=60, cover=[1]) + sent("h_ends", upto(26)) + covers("h_ends", 0, upto=26) + more("h_ends", 0, 26)),
    "P50": pp(sent("h_swap", ["Koha Gismu"], core=True, smt=60, cover=[1]) + sent("h_swap", ["? ?"], cover=[1]) + sent("h_swap", having(SWAPPED)) + sent("h_swap", upto(3), 1) + covers("h_swap", 0, None, SWAPPED)
              + sent("h_swap", upto(8, 4), 1, tier="thorough") + more("h_swap", 0, 30, SWAPPED)),
})
