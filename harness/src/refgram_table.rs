// The frozen grammar (tools/grammar.py): (kind, operand, operand); see refgram.rs.
use super::refgram::*;
use sneturfahi::lex::Selmaho as S;
pub const ROOT: u16 = 0;
pub static NAMES: [&str; 339] = ["Zei", "Fuhe", "Ui", "Indicator::Ui", "Cai", "Indicator::Cai", "Nai", "Indicator::Nai", "Daho", "Indicator::Daho", "Fuho", "Indicator::Fuho", "Y", "Indicator::Y", "Indicators", "Sei", "Nahe", "Se", "Bai", "Ki", "TagWord::Bai", "Zi", "Pu", "TimeOffset", "Zeha", "TimeDuration", "Pa", "NumberRest::Pa", "BuInner", "Lerfu::Bu", "By", "Lerfu::By", "LerfuWord::Lerfu", "Lau", "LerfuWord::Lau", "Tei", "LerfuString", "Foi", "LerfuWord::Tei", "NumberRest::Lerfu", "Number", "Roi", "IntervalProperty::Roi", "Tahe", "IntervalProperty::Tahe", "Zaho", "IntervalProperty::Zaho", "Time", "TimeSpaceCaha::Time", "Va", "Faha", "SpaceOffset", "Viha", "Veha", "Fehe", "SpaceIntervalProperty", "SpaceInterval::Interval", "SpaceInterval::Properties", "Mohi", "SpaceMotion", "Space", "TimeSpaceCaha::Space", "Caha", "TimeSpaceCaha::Caha", "TagWord::TimeSpaceCaha", "TagWord::Ki", "Cuhe", "TagWord::Cuhe", "Fiho", "Na", "SelbriBefore::Na", "SelbriBefore::Tag", "Guha", "Guhek", "Gi", "Gik", "NaheGuhekTGik", "Jai", "BeforeTanruUnit::Jai", "BeforeTanruUnit::Nahe", "BeforeTanruUnit::Se", "Ke", "Kehe", "TanruUnit2::GroupedTanru", "Gismu", "TanruUnit2::Gismu", "Lujvo", "TanruUnit2::Lujvo", "Fuhivla", "TanruUnit2::Fuhivla", "ZeiTail", "ZeiBuInner", "ZeiClause", "TanruUnit2::Zei", "Goha", "Raho", "TanruUnit2::Goha", "MiscNumbers", "Moi", "TanruUnit2::Moi", "Me", "Ga", "Gek::SeGaNai", "Joi", "Joik::SeJoiNai", "Bihi", "Interval", "Joik::Interval", "Gaho", "Joik::Gaho", "Gek::JoikGi", "Gek::TagGik", "Sumti3ConnectedPre", "Vei", "Fuha", "Operand2ConnectedPre", "Nihe", "Tehu", "Operand3::Nihe", "Mohe", "Operand3::Mohe", "Johi", "Expression1::Operand", "Peho", "OperatorComponentPre::Nahe", "OperatorComponentPre::Se", "Maho", "OperatorComponent1::Maho", "Nahu", "OperatorComponent1::Nahu", "Vuhu", "OperatorComponent1::Vuhu", "OperatorComponent", "Operator3::Simple", "Operator3::Grouped", "JoikJek::Joik", "Ja", "NaSeTNai", "Jek", "JoikJek::Jek", "Bo", "Separated", "Operator2", "Operator1", "SelbriLikeConnectedPost::Normal", "SelbriLikeConnectedPost::Parenthesized", "Operator", "Kuhe", "ForethoughtExpression", "Expression1::Forethought", "Operand3::Johi", "Lahe", "SumtiModifier::Lahe", "SumtiModifier::NaheBo", "Luhu", "Operand3::Modified", "Veho", "Operand3::Parenthesized", "Boi", "Operand3::Number", "Operand2", "JoikEk::Joik", "A", "Ek", "JoikEk::Ek", "Operand1", "SumtiLikeConnectedPost::Normal", "SumtiLikeConnectedPost::Grouped", "Operand", "RPTail", "ReversePolish", "Expression::ReversePolish", "Bihe", "Expression::Normal", "Quantifier::Mekso", "Quantifier::Number", "Koha", "SumtiComponent1::Koha", "Le", "Gadri::Le", "La", "Gadri::La", "Goi", "Gehu", "GoiRelativeClause", "RelativeClause::Goi", "Noi", "Zohu", "Prenex", "Cu", "Vau", "SentenceTail4::Single", "GekSentence", "SentenceTail4::Parenthesized", "SentenceTail4::Connected", "Giha", "Gihek", "SentenceTail3After", "SentenceTail3", "SentenceTail2Connective", "SentenceTail2After", "SentenceTail2", "SentenceTail1After", "SentenceTail1", "SentenceTail", "Subsentence", "Kuho", "NoiRelativeClause", "RelativeClause::Noi", "Zihe", "RelativeClauses", "GadriSumtiContents::Selbri", "GadriSumtiContents::Sumti", "Ku", "GadriSumti", "SumtiComponent1::Gadri", "Cmevla", "LaSumti", "SumtiComponent1::La", "LohuSumti", "Lohu", "Lehu", "SumtiComponent1::Lohu", "Lu", "Lihu", "LuSumti", "SumtiComponent1::Lu", "ModifiedSumti", "SumtiComponent1::Modified", "SumtiComponent1::LerfuString", "Zo", "ZoSumti", "SumtiComponent1::Zo", "Zoi", "ZoiDelimiter", "ZoiText", "ZoiSumti", "SumtiComponent1::Zoi", "Li", "Loho", "SumtiComponent1::Li", "Sumti4::Normal", "Sumti4::SelbriShorthand", "Sumti3", "Sumti1", "Vuho", "VuhoRelative", "Sumti", "Mehu", "TanruUnit2::Me", "Nu", "Kei", "TanruUnit2::Nu", "Nuha", "TanruUnit2::Nuha", "Be", "Bei", "Beho", "BoundArguments", "TanruUnit1", "Cei", "TanruUnit", "Selbri6", "Selbri5", "Selbri4", "Selbri3", "Selbri2", "Co", "Selbri1", "Selbri", "Fehu", "TagWord::Converted", "TagValue::Ku", "TagValue::Sumti", "Tag", "Arg3::Tag", "Fa", "Arg3::Sumti", "Arg3::Naku", "Termset::Gek", "Nuhi", "Nuhu", "Termset::NuhiGi", "Termset::Nuhi", "Arg3::Termset", "Cehe", "Pehe", "PeheConnective", "Arg", "SeiTail", "Sehu", "Free::Sei", "Soi", "Free::Soi", "Coi", "Doi", "VocativeWords::Coi", "VocativeWords::Doi", "VocativeValue::Selbri", "VocativeValue::Cmevla", "VocativeValue::Sumti", "Dohu", "Vocative", "Free::Vocative", "Mai", "Free::Mai", "To", "Toi", "Free::To", "Xi", "SubscriptValue::Mekso", "SubscriptValue::Number", "Subscript", "Free::Xi", "Niho", "ParagraphSeparator", "I", "SentenceSeparator", "Tuhe", "Tuhu", "Sentences3::Grouped", "Sentence", "Sentences3::Single", "CloseSentenceSeparator", "ConnectedSentenceSeparator", "Sentences1", "ParagraphItem::Sentences", "Fragment::Ek", "Fragment::Jek", "Fragment::Joik", "Fragment::Gihek", "Fragment::Number", "Fragment::Na", "ParagraphItem::Fragment", "ParagraphItem::Empty", "Paragraph", "Paragraphs", "Faho", "Text"];
pub static KIDS: [u16; 1629] = [7, 9, 13, 12, 11, 9, 13, 12, 5, 9, 13, 47, 9, 12, 18, 1, 9, 13, 17, 12, 23, 1, 9, 13, 22, 12, 28, 1, 9, 13, 27, 12, 33, 1, 9, 13, 32, 12, 38, 1, 9, 13, 37, 12, 43, 1, 9, 13, 42, 21, 26, 31, 36, 41, 46, 3, 48, 1101, 1030, 1041, 1072, 1077, 1086, 1100, 53, 50, 12, 54, 1, 9, 13, 53, 50, 1018, 963, 971, 973, 992, 82, 223, 225, 230, 947, 12, 67, 1, 9, 13, 12, 71, 1, 9, 13, 12, 74, 1, 9, 13, 12, 79, 1, 9, 13, 65, 69, 73, 76, 77, 50, 168, 215, 220, 85, 12, 88, 1, 9, 13, 12, 92, 1, 9, 13, 91, 76, 86, 12, 99, 1, 9, 13, 91, 76, 98, 101, 153, 158, 163, 12, 107, 1, 9, 13, 111, 147, 106, 127, 132, 145, 125, 13, 12, 114, 116, 117, 12, 121, 1, 9, 13, 120, 119, 124, 113, 12, 129, 1, 9, 13, 128, 113, 12, 134, 1, 9, 13, 137, 112, 138, 12, 141, 1, 9, 13, 133, 136, 143, 112, 106, 138, 12, 150, 1, 9, 13, 105, 149, 76, 12, 155, 1, 9, 13, 154, 76, 12, 160, 1, 9, 13, 159, 76, 86, 95, 96, 164, 84, 170, 12, 173, 1, 9, 13, 12, 177, 1, 9, 13, 176, 76, 171, 202, 205, 187, 191, 192, 12, 185, 1, 9, 13, 184, 12, 189, 1, 9, 13, 188, 184, 188, 176, 76, 12, 197, 1, 9, 13, 196, 104, 183, 193, 200, 203, 12, 209, 1, 9, 13, 208, 175, 171, 180, 181, 206, 169, 12, 217, 1, 9, 13, 216, 65, 221, 77, 50, 78, 50, 12, 227, 1, 9, 13, 226, 50, 232, 50, 12, 233, 1, 9, 13, 232, 50, 244, 246, 239, 50, 12, 240, 1, 9, 13, 239, 50, 238, 63, 12, 258, 1, 9, 13, 69, 257, 76, 50, 12, 263, 1, 9, 13, 262, 76, 50, 65, 50, 256, 236, 261, 281, 285, 289, 275, 50, 12, 276, 1, 9, 13, 275, 50, 274, 279, 66, 50, 66, 50, 282, 70, 50, 70, 50, 286, 302, 309, 316, 323, 340, 349, 357, 860, 874, 881, 293, 50, 12, 294, 1, 9, 13, 293, 50, 12, 299, 1, 9, 13, 292, 250, 297, 50, 304, 50, 12, 305, 1, 9, 13, 304, 50, 303, 311, 50, 12, 312, 1, 9, 13, 311, 50, 310, 318, 50, 12, 319, 1, 9, 13, 318, 50, 317, 325, 50, 10, 330, 331, 327, 116, 2, 12, 114, 334, 328, 13, 9, 335, 325, 50, 324, 12, 342, 1, 9, 13, 12, 346, 1, 9, 13, 341, 344, 50, 351, 12, 354, 1, 9, 13, 350, 353, 50, 359, 50, 12, 360, 1, 9, 13, 359, 50, 373, 394, 396, 12, 370, 1, 9, 13, 69, 369, 76, 50, 379, 386, 392, 12, 376, 1, 9, 13, 69, 375, 76, 12, 382, 1, 9, 13, 69, 381, 76, 380, 12, 388, 1, 9, 13, 387, 380, 390, 374, 262, 50, 63, 261, 368, 363, 261, 828, 830, 610, 612, 403, 50, 12, 404, 1, 9, 13, 403, 50, 593, 609, 409, 50, 12, 410, 1, 9, 13, 409, 50, 368, 414, 261, 432, 439, 535, 549, 555, 562, 423, 50, 12, 424, 1, 9, 13, 423, 50, 12, 429, 1, 9, 13, 422, 236, 427, 50, 434, 50, 12, 435, 1, 9, 13, 434, 50, 433, 363, 427, 50, 441, 50, 12, 442, 1, 9, 13, 441, 50, 447, 533, 414, 451, 50, 12, 452, 1, 9, 13, 451, 50, 65, 50, 256, 456, 261, 492, 494, 465, 466, 475, 482, 489, 470, 50, 12, 471, 1, 9, 13, 470, 50, 469, 407, 427, 50, 477, 50, 12, 478, 1, 9, 13, 477, 50, 476, 236, 427, 50, 484, 50, 12, 485, 1, 9, 13, 484, 50, 483, 467, 468, 463, 292, 455, 297, 50, 496, 462, 497, 279, 510, 499, 509, 374, 12, 504, 1, 9, 13, 502, 69, 503, 76, 501, 500, 511, 50, 12, 512, 1, 9, 13, 511, 50, 462, 515, 461, 459, 460, 521, 523, 497, 456, 497, 279, 292, 455, 297, 50, 456, 524, 12, 529, 1, 9, 13, 449, 455, 526, 527, 50, 448, 440, 526, 427, 50, 541, 543, 12, 538, 1, 9, 13, 537, 66, 511, 12, 546, 1, 9, 13, 536, 414, 544, 12, 552, 1, 9, 13, 402, 407, 550, 50, 12, 558, 1, 9, 13, 350, 560, 556, 50, 420, 421, 565, 417, 566, 279, 510, 568, 577, 374, 50, 12, 572, 1, 9, 13, 502, 69, 571, 76, 570, 569, 50, 417, 578, 416, 583, 585, 566, 415, 566, 279, 292, 414, 297, 50, 415, 586, 413, 455, 414, 590, 408, 413, 597, 445, 598, 455, 599, 50, 12, 600, 1, 9, 13, 599, 50, 445, 603, 455, 595, 595, 606, 594, 105, 560, 556, 50, 614, 615, 50, 620, 758, 766, 778, 789, 795, 797, 804, 814, 825, 12, 617, 1, 9, 13, 616, 622, 624, 50, 629, 634, 12, 626, 1, 9, 13, 625, 12, 631, 1, 9, 13, 630, 624, 50, 743, 744, 746, 654, 733, 644, 50, 12, 645, 1, 9, 13, 644, 50, 12, 650, 1, 9, 13, 643, 58, 648, 50, 642, 657, 50, 12, 658, 1, 9, 13, 657, 50, 662, 12, 665, 1, 9, 13, 57, 664, 50, 12, 672, 1, 9, 13, 677, 679, 687, 693, 695, 57, 681, 50, 12, 683, 1, 9, 13, 57, 681, 50, 236, 680, 690, 688, 368, 662, 261, 662, 680, 688, 279, 292, 689, 297, 50, 689, 699, 679, 700, 279, 511, 50, 12, 703, 1, 9, 13, 502, 69, 702, 76, 701, 707, 680, 678, 696, 713, 677, 279, 293, 700, 715, 50, 717, 680, 676, 710, 674, 700, 279, 293, 50, 722, 297, 50, 680, 675, 720, 670, 50, 674, 668, 57, 669, 12, 729, 1, 9, 13, 656, 661, 727, 50, 655, 735, 641, 736, 50, 12, 737, 1, 9, 13, 736, 50, 641, 740, 640, 637, 638, 639, 363, 745, 749, 751, 400, 236, 638, 401, 363, 12, 754, 1, 9, 13, 623, 636, 747, 752, 621, 12, 761, 1, 9, 13, 630, 763, 759, 12, 769, 9, 13, 12, 772, 1, 9, 13, 768, 775, 767, 12, 781, 9, 13, 12, 785, 1, 9, 13, 780, 0, 783, 779, 536, 50, 536, 50, 791, 638, 363, 544, 790, 137, 560, 556, 12, 800, 9, 13, 799, 330, 1, 798, 12, 807, 9, 13, 806, 809, 810, 809, 1, 805, 816, 50, 12, 817, 1, 9, 13, 816, 50, 12, 822, 1, 9, 13, 815, 407, 820, 615, 50, 400, 613, 638, 401, 236, 752, 50, 638, 398, 399, 833, 366, 566, 279, 511, 50, 366, 834, 838, 840, 566, 365, 566, 279, 292, 363, 297, 50, 365, 841, 846, 50, 12, 847, 1, 9, 13, 846, 50, 845, 639, 364, 843, 12, 854, 1, 9, 13, 353, 50, 353, 50, 358, 363, 852, 50, 856, 863, 76, 50, 12, 864, 1, 9, 13, 497, 862, 862, 867, 12, 871, 1, 9, 13, 861, 661, 869, 50, 876, 50, 12, 877, 1, 9, 13, 876, 50, 875, 455, 885, 50, 12, 886, 1, 9, 13, 885, 50, 891, 58, 892, 50, 12, 893, 1, 9, 13, 892, 50, 58, 896, 12, 900, 1, 9, 13, 884, 889, 898, 50, 290, 291, 882, 905, 272, 906, 50, 12, 907, 1, 9, 13, 906, 50, 272, 910, 271, 510, 270, 270, 914, 269, 267, 268, 919, 254, 497, 279, 511, 50, 254, 920, 253, 925, 927, 497, 252, 497, 279, 292, 250, 297, 50, 252, 928, 930, 933, 250, 934, 50, 12, 935, 1, 9, 13, 934, 50, 250, 938, 249, 247, 248, 12, 944, 1, 9, 13, 231, 236, 942, 50, 497, 64, 64, 949, 956, 958, 753, 50, 753, 50, 953, 363, 63, 959, 960, 951, 62, 966, 50, 12, 967, 1, 9, 13, 966, 50, 964, 363, 239, 753, 50, 975, 977, 988, 990, 368, 57, 261, 57, 979, 50, 12, 980, 1, 9, 13, 979, 50, 12, 985, 1, 9, 13, 978, 368, 57, 983, 50, 261, 57, 983, 50, 978, 57, 983, 50, 974, 994, 61, 995, 50, 12, 996, 1, 9, 13, 995, 50, 61, 999, 1002, 60, 1004, 50, 12, 1005, 1, 9, 13, 1004, 50, 1003, 497, 60, 1009, 1013, 1015, 566, 59, 566, 279, 292, 58, 297, 50, 59, 1016, 1018, 670, 50, 236, 1025, 50, 12, 1026, 1, 9, 13, 1025, 50, 52, 57, 1020, 1023, 1032, 50, 12, 1033, 1, 9, 13, 1032, 50, 1037, 363, 1038, 1031, 1036, 1039, 1054, 1056, 1045, 76, 12, 1046, 1, 9, 13, 12, 1051, 1, 9, 13, 1048, 1049, 1050, 1060, 1062, 1065, 236, 1058, 763, 1063, 12, 1068, 1, 9, 13, 1043, 638, 1057, 638, 1066, 1042, 12, 1074, 1, 9, 13, 350, 1073, 12, 1079, 1, 9, 13, 12, 1083, 1, 9, 13, 1078, 0, 1081, 1089, 50, 12, 1090, 1, 9, 13, 1089, 50, 1094, 50, 1095, 1096, 1094, 50, 1088, 1093, 1087, 1101, 12, 1106, 1, 9, 13, 1108, 50, 12, 1117, 1, 9, 13, 1116, 9, 50, 1157, 1180, 1182, 1136, 1142, 1127, 50, 12, 1128, 1, 9, 13, 1127, 50, 12, 1133, 1, 9, 13, 279, 1126, 1111, 1131, 50, 1138, 57, 1139, 1137, 1144, 1125, 1116, 1145, 279, 511, 50, 1125, 1147, 1150, 1124, 1116, 497, 50, 1124, 1152, 668, 1123, 1122, 1159, 1162, 1166, 1169, 1173, 1175, 1178, 569, 50, 1160, 500, 50, 500, 50, 1163, 374, 50, 1167, 700, 50, 700, 50, 1170, 401, 239, 1176, 50, 1158, 1115, 1121, 1121, 1184, 1114, 1120, 1104, 1113, 1113, 1188, 1112, 12, 1193, 1, 9, 13, 1, 50, 1103, 1110, 1191];
#[rustfmt::skip]
pub static NODES: [(u8, u16, u16); 1196] = [
	(NAME, 338, 1195),
	(OPT, 2, 0),
	(NAME, 14, 49),
	(OPT, 4, 0),
	(NAME, 1, 15),
	(TOK, S::Fuhe as u16, 0),
	(SEQ, 0, 3),
	(TOK, S::Bahe as u16, 0),
	(TOK, S::Bu as u16, 0),
	(NOT, 8, 0),
	(NAME, 0, 14),
	(TOK, S::Zei as u16, 0),
	(MANY0, 6, 0),
	(NOT, 10, 0),
	(SEQ, 3, 4),
	(SEQ, 7, 4),
	(SEQ, 11, 2),
	(NAME, 2, 19),
	(TOK, S::Ui as u16, 0),
	(SEQ, 13, 5),
	(SEQ, 18, 1),
	(NAME, 3, 20),
	(NAME, 4, 24),
	(TOK, S::Cai as u16, 0),
	(SEQ, 19, 5),
	(SEQ, 24, 1),
	(NAME, 5, 25),
	(NAME, 6, 29),
	(TOK, S::Nai as u16, 0),
	(SEQ, 25, 5),
	(SEQ, 30, 1),
	(NAME, 7, 30),
	(NAME, 8, 34),
	(TOK, S::Daho as u16, 0),
	(SEQ, 31, 5),
	(SEQ, 36, 1),
	(NAME, 9, 35),
	(NAME, 10, 39),
	(TOK, S::Fuho as u16, 0),
	(SEQ, 37, 5),
	(SEQ, 42, 1),
	(NAME, 11, 40),
	(NAME, 12, 44),
	(TOK, S::Y as u16, 0),
	(SEQ, 43, 5),
	(SEQ, 48, 1),
	(NAME, 13, 45),
	(ALT, 49, 6),
	(MANY1, 16, 0),
	(SEQ, 55, 2),
	(SEQ, 57, 1),
	(ALT, 58, 6),
	(SEQ, 64, 2),
	(NAME, 15, 55),
	(TOK, S::Sei as u16, 0),
	(SEQ, 66, 5),
	(SEQ, 71, 2),
	(SEQ, 73, 1),
	(NAME, 288, 1017),
	(NAME, 141, 1010),
	(NAME, 141, 1000),
	(ALT, 74, 4),
	(NAME, 274, 961),
	(NAME, 141, 950),
	(ALT, 78, 5),
	(OPT, 66, 0),
	(NAME, 16, 68),
	(TOK, S::Nahe as u16, 0),
	(SEQ, 83, 5),
	(OPT, 70, 0),
	(NAME, 17, 72),
	(TOK, S::Se as u16, 0),
	(SEQ, 88, 5),
	(NAME, 18, 75),
	(TOK, S::Bai as u16, 0),
	(SEQ, 93, 5),
	(OPT, 27, 0),
	(OPT, 78, 0),
	(NAME, 19, 80),
	(TOK, S::Ki as u16, 0),
	(SEQ, 98, 5),
	(SEQ, 103, 6),
	(NAME, 20, 81),
	(ALT, 109, 3),
	(SEQ, 112, 1),
	(NAME, 47, 166),
	(OPT, 87, 0),
	(NAME, 21, 89),
	(TOK, S::Zi as u16, 0),
	(SEQ, 113, 5),
	(NAME, 23, 94),
	(NAME, 22, 93),
	(TOK, S::Pu as u16, 0),
	(SEQ, 118, 5),
	(SEQ, 123, 3),
	(MANY0, 90, 0),
	(OPT, 97, 0),
	(NAME, 25, 103),
	(NAME, 24, 100),
	(TOK, S::Zeha as u16, 0),
	(SEQ, 126, 5),
	(OPT, 102, 0),
	(SEQ, 131, 2),
	(SEQ, 133, 2),
	(ALT, 135, 3),
	(NAME, 40, 148),
	(NAME, 26, 108),
	(TOK, S::Pa as u16, 0),
	(SEQ, 138, 5),
	(ALT, 143, 2),
	(SEQ, 145, 1),
	(NAME, 27, 110),
	(ALT, 146, 3),
	(SEQ, 149, 2),
	(NAME, 28, 115),
	(BUINNER, 0, 0),
	(MANY1, 8, 0),
	(MANY0, 2, 0),
	(SEQ, 151, 4),
	(NAME, 29, 118),
	(NAME, 30, 122),
	(TOK, S::By as u16, 0),
	(SEQ, 155, 5),
	(SEQ, 160, 1),
	(NAME, 31, 123),
	(ALT, 161, 2),
	(SEQ, 163, 1),
	(NAME, 32, 126),
	(NAME, 33, 130),
	(TOK, S::Lau as u16, 0),
	(SEQ, 164, 5),
	(SEQ, 169, 2),
	(NAME, 34, 131),
	(NAME, 35, 135),
	(TOK, S::Tei as u16, 0),
	(SEQ, 171, 5),
	(SEQ, 176, 1),
	(NAME, 36, 139),
	(MANY0, 109, 0),
	(SEQ, 177, 2),
	(NAME, 37, 142),
	(TOK, S::Foi as u16, 0),
	(SEQ, 179, 5),
	(CUT, 140, 0),
	(SEQ, 184, 3),
	(NAME, 38, 144),
	(SEQ, 187, 1),
	(NAME, 39, 146),
	(SEQ, 188, 2),
	(NAME, 41, 151),
	(TOK, S::Roi as u16, 0),
	(SEQ, 190, 5),
	(SEQ, 195, 3),
	(NAME, 42, 152),
	(NAME, 43, 156),
	(TOK, S::Tahe as u16, 0),
	(SEQ, 198, 5),
	(SEQ, 203, 2),
	(NAME, 44, 157),
	(NAME, 45, 161),
	(TOK, S::Zaho as u16, 0),
	(SEQ, 205, 5),
	(SEQ, 210, 2),
	(NAME, 46, 162),
	(MANY0, 104, 0),
	(SEQ, 212, 4),
	(MUST, 165, 0),
	(SEQ, 216, 1),
	(NAME, 48, 167),
	(SEQ, 217, 1),
	(NAME, 60, 213),
	(OPT, 172, 0),
	(NAME, 49, 174),
	(TOK, S::Va as u16, 0),
	(SEQ, 218, 5),
	(NAME, 51, 179),
	(NAME, 50, 178),
	(TOK, S::Faha as u16, 0),
	(SEQ, 223, 5),
	(SEQ, 228, 3),
	(MANY0, 175, 0),
	(OPT, 182, 0),
	(ALT, 231, 2),
	(ALT, 233, 3),
	(NAME, 52, 186),
	(TOK, S::Viha as u16, 0),
	(SEQ, 236, 5),
	(SEQ, 241, 1),
	(NAME, 53, 190),
	(TOK, S::Veha as u16, 0),
	(SEQ, 242, 5),
	(SEQ, 247, 2),
	(SEQ, 249, 1),
	(OPT, 194, 0),
	(SEQ, 250, 2),
	(NAME, 55, 199),
	(NAME, 54, 198),
	(TOK, S::Fehe as u16, 0),
	(SEQ, 252, 5),
	(SEQ, 257, 2),
	(MANY0, 195, 0),
	(SEQ, 259, 3),
	(NAME, 56, 201),
	(MANY1, 195, 0),
	(SEQ, 262, 1),
	(NAME, 57, 204),
	(OPT, 207, 0),
	(NAME, 59, 211),
	(NAME, 58, 210),
	(TOK, S::Mohi as u16, 0),
	(SEQ, 263, 5),
	(SEQ, 268, 2),
	(SEQ, 270, 4),
	(MUST, 212, 0),
	(SEQ, 274, 1),
	(NAME, 61, 214),
	(NAME, 62, 218),
	(TOK, S::Caha as u16, 0),
	(SEQ, 275, 5),
	(SEQ, 280, 1),
	(NAME, 63, 219),
	(MANY1, 83, 0),
	(SEQ, 281, 4),
	(NAME, 64, 222),
	(SEQ, 285, 2),
	(NAME, 65, 224),
	(NAME, 66, 228),
	(TOK, S::Cuhe as u16, 0),
	(SEQ, 287, 5),
	(SEQ, 292, 2),
	(NAME, 67, 229),
	(SEQ, 294, 2),
	(NAME, 68, 234),
	(TOK, S::Fiho as u16, 0),
	(SEQ, 296, 5),
	(SEQ, 301, 2),
	(NAME, 269, 941),
	(ALT, 303, 2),
	(SEQ, 305, 2),
	(NAME, 69, 241),
	(TOK, S::Na as u16, 0),
	(SEQ, 307, 5),
	(SEQ, 312, 2),
	(SEQ, 314, 1),
	(NAME, 70, 243),
	(SEQ, 315, 1),
	(NAME, 71, 245),
	(MANY0, 237, 0),
	(NAME, 268, 940),
	(NAME, 141, 939),
	(NAME, 266, 931),
	(NAME, 265, 929),
	(NAME, 264, 922),
	(NAME, 141, 921),
	(NAME, 263, 917),
	(NAME, 76, 266),
	(NAME, 73, 260),
	(NAME, 72, 259),
	(TOK, S::Guha as u16, 0),
	(SEQ, 316, 5),
	(SEQ, 321, 4),
	(NAME, 75, 265),
	(NAME, 74, 264),
	(TOK, S::Gi as u16, 0),
	(SEQ, 325, 5),
	(SEQ, 330, 3),
	(SEQ, 333, 5),
	(MANY0, 255, 0),
	(NAME, 262, 916),
	(NAME, 141, 915),
	(NAME, 261, 912),
	(NAME, 141, 911),
	(NAME, 259, 903),
	(ALT, 338, 3),
	(SEQ, 341, 2),
	(NAME, 77, 277),
	(TOK, S::Jai as u16, 0),
	(SEQ, 343, 5),
	(SEQ, 348, 2),
	(OPT, 63, 0),
	(SEQ, 350, 2),
	(NAME, 78, 280),
	(SEQ, 352, 2),
	(SEQ, 354, 2),
	(SEQ, 356, 1),
	(NAME, 79, 284),
	(SEQ, 357, 2),
	(SEQ, 359, 2),
	(SEQ, 361, 1),
	(NAME, 80, 288),
	(MANY0, 273, 0),
	(ALT, 362, 10),
	(SEQ, 372, 2),
	(NAME, 81, 295),
	(TOK, S::Ke as u16, 0),
	(SEQ, 374, 5),
	(SEQ, 379, 2),
	(OPT, 298, 0),
	(NAME, 82, 300),
	(TOK, S::Kehe as u16, 0),
	(SEQ, 381, 5),
	(SEQ, 386, 4),
	(NAME, 83, 301),
	(SEQ, 390, 2),
	(NAME, 84, 306),
	(TOK, S::Gismu as u16, 0),
	(SEQ, 392, 5),
	(SEQ, 397, 2),
	(SEQ, 399, 1),
	(NAME, 85, 308),
	(SEQ, 400, 2),
	(NAME, 86, 313),
	(TOK, S::Lujvo as u16, 0),
	(SEQ, 402, 5),
	(SEQ, 407, 2),
	(SEQ, 409, 1),
	(NAME, 87, 315),
	(SEQ, 410, 2),
	(NAME, 88, 320),
	(TOK, S::Fuhivla as u16, 0),
	(SEQ, 412, 5),
	(SEQ, 417, 2),
	(SEQ, 419, 1),
	(NAME, 89, 322),
	(SEQ, 420, 2),
	(NAME, 92, 337),
	(NAME, 91, 333),
	(OPT, 328, 0),
	(NAME, 90, 332),
	(SEQ, 422, 2),
	(ANY, 0, 0),
	(MANY1, 329, 0),
	(SEQ, 424, 1),
	(SEQ, 425, 2),
	(MANY0, 326, 0),
	(OPT, 336, 0),
	(SEQ, 427, 1),
	(SEQ, 428, 7),
	(SEQ, 435, 2),
	(SEQ, 437, 1),
	(NAME, 93, 339),
	(NAME, 94, 343),
	(TOK, S::Goha as u16, 0),
	(SEQ, 438, 5),
	(OPT, 345, 0),
	(NAME, 95, 347),
	(TOK, S::Raho as u16, 0),
	(SEQ, 443, 5),
	(SEQ, 448, 3),
	(NAME, 96, 348),
	(NAME, 97, 352),
	(MANY1, 109, 0),
	(SEQ, 451, 1),
	(NAME, 98, 355),
	(TOK, S::Moi as u16, 0),
	(SEQ, 452, 5),
	(SEQ, 457, 3),
	(NAME, 99, 356),
	(SEQ, 460, 2),
	(NAME, 100, 361),
	(TOK, S::Me as u16, 0),
	(SEQ, 462, 5),
	(SEQ, 467, 2),
	(NAME, 247, 851),
	(NAME, 244, 842),
	(NAME, 141, 835),
	(NAME, 243, 831),
	(NAME, 112, 397),
	(ALT, 469, 3),
	(NAME, 101, 371),
	(TOK, S::Ga as u16, 0),
	(SEQ, 472, 5),
	(SEQ, 477, 4),
	(NAME, 102, 372),
	(ALT, 481, 3),
	(NAME, 103, 377),
	(TOK, S::Joi as u16, 0),
	(SEQ, 484, 5),
	(SEQ, 489, 3),
	(NAME, 104, 378),
	(NAME, 106, 384),
	(NAME, 105, 383),
	(TOK, S::Bihi as u16, 0),
	(SEQ, 492, 5),
	(SEQ, 497, 3),
	(SEQ, 500, 1),
	(NAME, 107, 385),
	(NAME, 108, 389),
	(TOK, S::Gaho as u16, 0),
	(SEQ, 501, 5),
	(CUT, 387, 0),
	(SEQ, 506, 3),
	(NAME, 109, 391),
	(SEQ, 509, 3),
	(NAME, 110, 393),
	(SEQ, 512, 2),
	(NAME, 111, 395),
	(SEQ, 514, 3),
	(MANY0, 367, 0),
	(ALT, 517, 2),
	(OPT, 401, 0),
	(ALT, 519, 2),
	(SEQ, 521, 2),
	(NAME, 113, 405),
	(TOK, S::Vei as u16, 0),
	(SEQ, 523, 5),
	(SEQ, 528, 2),
	(ALT, 530, 2),
	(SEQ, 532, 2),
	(NAME, 114, 411),
	(TOK, S::Fuha as u16, 0),
	(SEQ, 534, 5),
	(SEQ, 539, 2),
	(NAME, 170, 591),
	(NAME, 168, 587),
	(NAME, 165, 580),
	(NAME, 141, 579),
	(NAME, 160, 563),
	(NAME, 115, 419),
	(SEQ, 541, 3),
	(MANY0, 418, 0),
	(ALT, 544, 6),
	(SEQ, 550, 2),
	(NAME, 116, 425),
	(TOK, S::Nihe as u16, 0),
	(SEQ, 552, 5),
	(SEQ, 557, 2),
	(OPT, 428, 0),
	(NAME, 117, 430),
	(TOK, S::Tehu as u16, 0),
	(SEQ, 559, 5),
	(SEQ, 564, 4),
	(NAME, 118, 431),
	(SEQ, 568, 2),
	(NAME, 119, 436),
	(TOK, S::Mohe as u16, 0),
	(SEQ, 570, 5),
	(SEQ, 575, 2),
	(SEQ, 577, 4),
	(NAME, 120, 438),
	(SEQ, 581, 2),
	(NAME, 121, 443),
	(TOK, S::Johi as u16, 0),
	(SEQ, 583, 5),
	(SEQ, 588, 2),
	(ALT, 590, 2),
	(SEQ, 592, 1),
	(NAME, 122, 446),
	(NAME, 148, 531),
	(OPT, 450, 0),
	(SEQ, 593, 2),
	(NAME, 123, 453),
	(TOK, S::Peho as u16, 0),
	(SEQ, 595, 5),
	(SEQ, 600, 2),
	(NAME, 146, 525),
	(NAME, 143, 518),
	(NAME, 76, 458),
	(SEQ, 602, 5),
	(MANY0, 457, 0),
	(NAME, 142, 517),
	(NAME, 141, 516),
	(ALT, 607, 2),
	(NAME, 132, 490),
	(ALT, 609, 2),
	(NAME, 124, 284),
	(NAME, 125, 288),
	(MANY0, 464, 0),
	(ALT, 611, 3),
	(SEQ, 614, 2),
	(NAME, 126, 472),
	(TOK, S::Maho as u16, 0),
	(SEQ, 616, 5),
	(SEQ, 621, 2),
	(SEQ, 623, 4),
	(NAME, 127, 474),
	(SEQ, 627, 2),
	(NAME, 128, 479),
	(TOK, S::Nahu as u16, 0),
	(SEQ, 629, 5),
	(SEQ, 634, 2),
	(SEQ, 636, 4),
	(NAME, 129, 481),
	(SEQ, 640, 2),
	(NAME, 130, 486),
	(TOK, S::Vuhu as u16, 0),
	(SEQ, 642, 5),
	(SEQ, 647, 2),
	(SEQ, 649, 1),
	(NAME, 131, 488),
	(SEQ, 650, 2),
	(SEQ, 652, 1),
	(NAME, 133, 491),
	(SEQ, 653, 4),
	(NAME, 134, 493),
	(SEQ, 657, 2),
	(SEQ, 659, 3),
	(ALT, 662, 2),
	(SEQ, 664, 1),
	(NAME, 135, 498),
	(NAME, 138, 507),
	(NAME, 137, 506),
	(OPT, 239, 0),
	(NAME, 136, 505),
	(TOK, S::Ja as u16, 0),
	(SEQ, 665, 5),
	(SEQ, 670, 4),
	(SEQ, 674, 1),
	(SEQ, 675, 1),
	(NAME, 139, 508),
	(SEQ, 676, 2),
	(NAME, 140, 513),
	(TOK, S::Bo as u16, 0),
	(SEQ, 678, 5),
	(SEQ, 683, 2),
	(MANY0, 495, 0),
	(SEQ, 685, 2),
	(SEQ, 687, 1),
	(SEQ, 688, 2),
	(ALT, 690, 2),
	(SEQ, 692, 2),
	(NAME, 144, 520),
	(SEQ, 694, 6),
	(NAME, 145, 522),
	(MANY0, 519, 0),
	(SEQ, 700, 2),
	(MANY1, 445, 0),
	(OPT, 528, 0),
	(NAME, 147, 530),
	(TOK, S::Kuhe as u16, 0),
	(SEQ, 702, 5),
	(SEQ, 707, 5),
	(SEQ, 712, 1),
	(NAME, 149, 532),
	(SEQ, 713, 4),
	(NAME, 150, 534),
	(ALT, 717, 2),
	(NAME, 151, 539),
	(TOK, S::Lahe as u16, 0),
	(SEQ, 719, 5),
	(SEQ, 724, 1),
	(NAME, 152, 540),
	(SEQ, 725, 2),
	(NAME, 153, 542),
	(OPT, 545, 0),
	(NAME, 154, 547),
	(TOK, S::Luhu as u16, 0),
	(SEQ, 727, 5),
	(SEQ, 732, 3),
	(NAME, 155, 548),
	(OPT, 551, 0),
	(NAME, 156, 553),
	(TOK, S::Veho as u16, 0),
	(SEQ, 735, 5),
	(SEQ, 740, 4),
	(NAME, 157, 554),
	(OPT, 557, 0),
	(NAME, 158, 559),
	(TOK, S::Boi as u16, 0),
	(SEQ, 744, 5),
	(NOT, 353, 0),
	(SEQ, 749, 4),
	(NAME, 159, 561),
	(SEQ, 753, 2),
	(SEQ, 755, 2),
	(SEQ, 757, 3),
	(ALT, 760, 2),
	(SEQ, 762, 2),
	(NAME, 161, 567),
	(NAME, 163, 575),
	(NAME, 137, 574),
	(NAME, 162, 573),
	(TOK, S::A as u16, 0),
	(SEQ, 764, 5),
	(SEQ, 769, 4),
	(SEQ, 773, 1),
	(SEQ, 774, 2),
	(NAME, 164, 576),
	(MANY0, 564, 0),
	(SEQ, 776, 2),
	(SEQ, 778, 1),
	(ALT, 779, 2),
	(SEQ, 781, 2),
	(NAME, 166, 582),
	(SEQ, 783, 6),
	(NAME, 167, 584),
	(MANY0, 581, 0),
	(SEQ, 789, 2),
	(NAME, 169, 589),
	(SEQ, 791, 2),
	(MANY0, 588, 0),
	(SEQ, 793, 2),
	(SEQ, 795, 2),
	(NAME, 171, 592),
	(NAME, 141, 607),
	(NAME, 141, 604),
	(SEQ, 797, 2),
	(SEQ, 799, 2),
	(SEQ, 801, 2),
	(NAME, 172, 601),
	(TOK, S::Bihe as u16, 0),
	(SEQ, 803, 5),
	(SEQ, 808, 2),
	(MANY0, 596, 0),
	(SEQ, 810, 2),
	(SEQ, 812, 2),
	(MANY0, 605, 0),
	(SEQ, 814, 2),
	(SEQ, 816, 1),
	(NAME, 173, 608),
	(NAME, 174, 554),
	(SEQ, 817, 4),
	(NAME, 175, 611),
	(SEQ, 821, 1),
	(SEQ, 822, 2),
	(ALT, 824, 10),
	(NAME, 176, 618),
	(TOK, S::Koha as u16, 0),
	(SEQ, 834, 5),
	(SEQ, 839, 1),
	(NAME, 177, 619),
	(SEQ, 840, 1),
	(NAME, 214, 756),
	(SEQ, 841, 2),
	(ALT, 843, 2),
	(NAME, 178, 627),
	(TOK, S::Le as u16, 0),
	(SEQ, 845, 5),
	(SEQ, 850, 1),
	(NAME, 179, 628),
	(NAME, 180, 632),
	(TOK, S::La as u16, 0),
	(SEQ, 851, 5),
	(SEQ, 856, 1),
	(NAME, 181, 633),
	(SEQ, 857, 2),
	(ALT, 859, 3),
	(OPT, 613, 0),
	(OPT, 639, 0),
	(NAME, 210, 742),
	(NAME, 141, 741),
	(ALT, 862, 2),
	(NAME, 184, 652),
	(SEQ, 864, 2),
	(NAME, 182, 646),
	(TOK, S::Goi as u16, 0),
	(SEQ, 866, 5),
	(SEQ, 871, 2),
	(OPT, 649, 0),
	(NAME, 183, 651),
	(TOK, S::Gehu as u16, 0),
	(SEQ, 873, 5),
	(SEQ, 878, 4),
	(SEQ, 882, 1),
	(NAME, 185, 653),
	(NAME, 207, 731),
	(SEQ, 883, 2),
	(NAME, 186, 659),
	(TOK, S::Noi as u16, 0),
	(SEQ, 885, 5),
	(SEQ, 890, 2),
	(SEQ, 892, 1),
	(NAME, 205, 726),
	(NAME, 188, 667),
	(NAME, 187, 666),
	(TOK, S::Zohu as u16, 0),
	(SEQ, 893, 5),
	(SEQ, 898, 3),
	(MANY0, 663, 0),
	(NAME, 204, 725),
	(OPT, 671, 0),
	(NAME, 189, 673),
	(TOK, S::Cu as u16, 0),
	(SEQ, 901, 5),
	(NAME, 203, 724),
	(NAME, 201, 719),
	(SEQ, 906, 1),
	(NAME, 198, 709),
	(SEQ, 907, 1),
	(ALT, 908, 3),
	(SEQ, 911, 3),
	(OPT, 682, 0),
	(NAME, 190, 684),
	(TOK, S::Vau as u16, 0),
	(SEQ, 914, 5),
	(SEQ, 919, 3),
	(SEQ, 922, 2),
	(NAME, 191, 686),
	(MANY0, 238, 0),
	(SEQ, 924, 1),
	(NAME, 192, 691),
	(SEQ, 925, 6),
	(SEQ, 931, 6),
	(NAME, 193, 692),
	(SEQ, 937, 1),
	(NAME, 194, 694),
	(OPT, 697, 0),
	(NAME, 197, 708),
	(SEQ, 938, 2),
	(SEQ, 940, 4),
	(NAME, 196, 706),
	(NAME, 137, 705),
	(NAME, 195, 704),
	(TOK, S::Giha as u16, 0),
	(SEQ, 944, 5),
	(SEQ, 949, 4),
	(SEQ, 953, 1),
	(MANY1, 698, 0),
	(SEQ, 954, 2),
	(SEQ, 956, 2),
	(OPT, 711, 0),
	(NAME, 200, 718),
	(SEQ, 958, 2),
	(NAME, 199, 716),
	(SEQ, 960, 2),
	(NOT, 714, 0),
	(SEQ, 962, 3),
	(MANY1, 712, 0),
	(SEQ, 965, 2),
	(SEQ, 967, 2),
	(OPT, 721, 0),
	(NAME, 202, 723),
	(SEQ, 969, 1),
	(SEQ, 970, 8),
	(SEQ, 978, 2),
	(SEQ, 980, 3),
	(SEQ, 983, 3),
	(OPT, 728, 0),
	(NAME, 206, 730),
	(TOK, S::Kuho as u16, 0),
	(SEQ, 986, 5),
	(SEQ, 991, 4),
	(SEQ, 995, 1),
	(NAME, 208, 732),
	(SEQ, 996, 2),
	(SEQ, 998, 2),
	(NAME, 209, 738),
	(TOK, S::Zihe as u16, 0),
	(SEQ, 1000, 5),
	(SEQ, 1005, 2),
	(MANY0, 734, 0),
	(SEQ, 1007, 2),
	(SEQ, 1009, 1),
	(SEQ, 1010, 2),
	(SEQ, 1012, 1),
	(SEQ, 1013, 1),
	(SEQ, 1014, 1),
	(ALT, 1015, 2),
	(SEQ, 1017, 3),
	(NAME, 211, 748),
	(SEQ, 1020, 2),
	(NAME, 212, 750),
	(OPT, 753, 0),
	(NAME, 213, 755),
	(TOK, S::Ku as u16, 0),
	(SEQ, 1022, 5),
	(SEQ, 1027, 4),
	(SEQ, 1031, 1),
	(NAME, 215, 757),
	(NAME, 217, 764),
	(NAME, 216, 762),
	(TOK, S::Cmevla as u16, 0),
	(SEQ, 1032, 5),
	(MANY1, 760, 0),
	(SEQ, 1037, 2),
	(SEQ, 1039, 1),
	(NAME, 218, 765),
	(NAME, 219, 776),
	(NAME, 220, 770),
	(TOK, S::Lohu as u16, 0),
	(SEQ, 1040, 4),
	(NAME, 221, 773),
	(TOK, S::Lehu as u16, 0),
	(SEQ, 1044, 5),
	(TILL, 330, 771),
	(CUT, 774, 0),
	(SEQ, 1049, 2),
	(SEQ, 1051, 1),
	(NAME, 222, 777),
	(NAME, 225, 787),
	(NAME, 223, 782),
	(TOK, S::Lu as u16, 0),
	(SEQ, 1052, 4),
	(OPT, 784, 0),
	(NAME, 224, 786),
	(TOK, S::Lihu as u16, 0),
	(SEQ, 1056, 5),
	(SEQ, 1061, 3),
	(SEQ, 1064, 1),
	(NAME, 226, 788),
	(NAME, 227, 793),
	(SEQ, 1065, 2),
	(SEQ, 1067, 2),
	(SEQ, 1069, 4),
	(SEQ, 1073, 1),
	(NAME, 228, 794),
	(SEQ, 1074, 3),
	(NAME, 229, 796),
	(NAME, 231, 802),
	(NAME, 230, 801),
	(TOK, S::Zo as u16, 0),
	(SEQ, 1077, 4),
	(SEQ, 1081, 3),
	(SEQ, 1084, 1),
	(NAME, 232, 803),
	(NAME, 236, 812),
	(NAME, 233, 808),
	(TOK, S::Zoi as u16, 0),
	(SEQ, 1085, 4),
	(LEAF, 234, 999),
	(OPT, 811, 0),
	(LEAF, 235, S::AnyText as u16),
	(SEQ, 1089, 5),
	(SEQ, 1094, 1),
	(NAME, 237, 813),
	(SEQ, 1095, 2),
	(NAME, 238, 818),
	(TOK, S::Li as u16, 0),
	(SEQ, 1097, 5),
	(SEQ, 1102, 2),
	(OPT, 821, 0),
	(NAME, 239, 823),
	(TOK, S::Loho as u16, 0),
	(SEQ, 1104, 5),
	(SEQ, 1109, 3),
	(NAME, 240, 824),
	(SEQ, 1112, 2),
	(SEQ, 1114, 3),
	(NAME, 241, 827),
	(SEQ, 1117, 5),
	(NAME, 242, 829),
	(SEQ, 1122, 2),
	(SEQ, 1124, 2),
	(SEQ, 1126, 4),
	(MANY0, 832, 0),
	(SEQ, 1130, 2),
	(ALT, 1132, 2),
	(SEQ, 1134, 2),
	(NAME, 166, 837),
	(SEQ, 1136, 6),
	(NAME, 167, 839),
	(MANY0, 836, 0),
	(SEQ, 1142, 2),
	(OPT, 844, 0),
	(NAME, 246, 850),
	(SEQ, 1144, 2),
	(NAME, 245, 848),
	(TOK, S::Vuho as u16, 0),
	(SEQ, 1146, 5),
	(SEQ, 1151, 2),
	(SEQ, 1153, 2),
	(SEQ, 1155, 2),
	(OPT, 853, 0),
	(NAME, 248, 855),
	(TOK, S::Mehu as u16, 0),
	(SEQ, 1157, 5),
	(OPT, 857, 0),
	(SEQ, 1162, 2),
	(SEQ, 1164, 2),
	(SEQ, 1166, 5),
	(NAME, 249, 859),
	(NAME, 141, 868),
	(SEQ, 1171, 3),
	(NAME, 250, 865),
	(TOK, S::Nu as u16, 0),
	(SEQ, 1174, 5),
	(SEQ, 1179, 2),
	(MANY0, 866, 0),
	(SEQ, 1181, 2),
	(OPT, 870, 0),
	(NAME, 251, 872),
	(TOK, S::Kei as u16, 0),
	(SEQ, 1183, 5),
	(SEQ, 1188, 4),
	(NAME, 252, 873),
	(SEQ, 1192, 2),
	(NAME, 253, 878),
	(TOK, S::Nuha as u16, 0),
	(SEQ, 1194, 5),
	(SEQ, 1199, 2),
	(SEQ, 1201, 2),
	(NAME, 254, 880),
	(OPT, 883, 0),
	(NAME, 258, 902),
	(SEQ, 1203, 2),
	(NAME, 255, 887),
	(TOK, S::Be as u16, 0),
	(SEQ, 1205, 5),
	(SEQ, 1210, 2),
	(NAME, 141, 897),
	(SEQ, 1212, 2),
	(SEQ, 1214, 2),
	(NAME, 256, 894),
	(TOK, S::Bei as u16, 0),
	(SEQ, 1216, 5),
	(SEQ, 1221, 2),
	(MANY0, 890, 0),
	(SEQ, 1223, 2),
	(OPT, 899, 0),
	(NAME, 257, 901),
	(TOK, S::Beho as u16, 0),
	(SEQ, 1225, 5),
	(SEQ, 1230, 4),
	(SEQ, 1234, 3),
	(SEQ, 1237, 2),
	(SEQ, 1239, 2),
	(NAME, 260, 908),
	(TOK, S::Cei as u16, 0),
	(SEQ, 1241, 5),
	(SEQ, 1246, 2),
	(MANY0, 904, 0),
	(SEQ, 1248, 2),
	(SEQ, 1250, 1),
	(SEQ, 1251, 2),
	(MANY0, 913, 0),
	(SEQ, 1253, 2),
	(SEQ, 1255, 1),
	(SEQ, 1256, 2),
	(SEQ, 1258, 2),
	(SEQ, 1260, 4),
	(MANY0, 918, 0),
	(SEQ, 1264, 2),
	(SEQ, 1266, 1),
	(ALT, 1267, 2),
	(SEQ, 1269, 2),
	(NAME, 144, 924),
	(SEQ, 1271, 6),
	(NAME, 145, 926),
	(MANY0, 923, 0),
	(SEQ, 1277, 2),
	(MANY1, 251, 0),
	(SEQ, 1279, 1),
	(SEQ, 1280, 2),
	(SEQ, 1282, 2),
	(NAME, 267, 936),
	(TOK, S::Co as u16, 0),
	(SEQ, 1284, 5),
	(SEQ, 1289, 2),
	(MANY0, 932, 0),
	(SEQ, 1291, 2),
	(SEQ, 1293, 1),
	(SEQ, 1294, 2),
	(OPT, 943, 0),
	(NAME, 270, 945),
	(TOK, S::Fehu as u16, 0),
	(SEQ, 1296, 5),
	(SEQ, 1301, 4),
	(NAME, 271, 946),
	(SEQ, 1305, 2),
	(MANY0, 948, 0),
	(SEQ, 1307, 2),
	(OPT, 952, 0),
	(ALT, 1309, 2),
	(SEQ, 1311, 2),
	(SEQ, 1313, 2),
	(SEQ, 1315, 1),
	(NAME, 272, 955),
	(SEQ, 1316, 1),
	(NAME, 273, 957),
	(NOT, 261, 0),
	(NOT, 293, 0),
	(SEQ, 1317, 4),
	(SEQ, 1321, 1),
	(NAME, 275, 962),
	(OPT, 965, 0),
	(SEQ, 1322, 2),
	(NAME, 276, 968),
	(TOK, S::Fa as u16, 0),
	(SEQ, 1324, 5),
	(SEQ, 1329, 2),
	(SEQ, 1331, 2),
	(NAME, 277, 970),
	(SEQ, 1333, 3),
	(NAME, 278, 972),
	(SEQ, 1336, 1),
	(ALT, 1337, 3),
	(SEQ, 1340, 4),
	(NAME, 279, 976),
	(SEQ, 1344, 2),
	(NAME, 280, 981),
	(TOK, S::Nuhi as u16, 0),
	(SEQ, 1346, 5),
	(SEQ, 1351, 2),
	(OPT, 984, 0),
	(NAME, 281, 986),
	(TOK, S::Nuhu as u16, 0),
	(SEQ, 1353, 5),
	(SEQ, 1358, 9),
	(NAME, 282, 987),
	(SEQ, 1367, 4),
	(NAME, 283, 989),
	(SEQ, 1371, 1),
	(NAME, 284, 991),
	(SEQ, 1372, 2),
	(SEQ, 1374, 2),
	(NAME, 285, 997),
	(TOK, S::Cehe as u16, 0),
	(SEQ, 1376, 5),
	(SEQ, 1381, 2),
	(MANY0, 993, 0),
	(SEQ, 1383, 2),
	(SEQ, 1385, 2),
	(NAME, 287, 1008),
	(SEQ, 1387, 2),
	(NAME, 286, 1006),
	(TOK, S::Pehe as u16, 0),
	(SEQ, 1389, 5),
	(SEQ, 1394, 2),
	(SEQ, 1396, 2),
	(MANY0, 1001, 0),
	(SEQ, 1398, 2),
	(ALT, 1400, 2),
	(SEQ, 1402, 2),
	(NAME, 166, 1012),
	(SEQ, 1404, 6),
	(NAME, 167, 1014),
	(MANY0, 1011, 0),
	(SEQ, 1410, 2),
	(MANY0, 58, 0),
	(SEQ, 1412, 1),
	(OPT, 1021, 0),
	(NAME, 289, 1022),
	(SEQ, 1413, 3),
	(OPT, 1024, 0),
	(SEQ, 1416, 2),
	(NAME, 290, 1027),
	(TOK, S::Sehu as u16, 0),
	(SEQ, 1418, 5),
	(SEQ, 1423, 2),
	(SEQ, 1425, 4),
	(NAME, 291, 1029),
	(SEQ, 1429, 2),
	(NAME, 292, 1034),
	(TOK, S::Soi as u16, 0),
	(SEQ, 1431, 5),
	(SEQ, 1436, 2),
	(SEQ, 1438, 1),
	(SEQ, 1439, 2),
	(OPT, 363, 0),
	(OPT, 1025, 0),
	(SEQ, 1441, 3),
	(NAME, 293, 1040),
	(NAME, 302, 1070),
	(ALT, 1444, 2),
	(SEQ, 1446, 2),
	(NAME, 294, 1047),
	(TOK, S::Coi as u16, 0),
	(SEQ, 1448, 5),
	(MANY1, 1044, 0),
	(OPT, 1050, 0),
	(NAME, 295, 1052),
	(TOK, S::Doi as u16, 0),
	(SEQ, 1453, 5),
	(SEQ, 1458, 2),
	(NAME, 296, 1053),
	(SEQ, 1460, 1),
	(NAME, 297, 1055),
	(ALT, 1461, 3),
	(SEQ, 1464, 1),
	(SEQ, 1465, 1),
	(NAME, 298, 1059),
	(SEQ, 1466, 1),
	(NAME, 299, 1061),
	(OPT, 745, 0),
	(SEQ, 1467, 1),
	(NAME, 300, 1064),
	(OPT, 1067, 0),
	(NAME, 301, 1069),
	(TOK, S::Dohu as u16, 0),
	(SEQ, 1468, 5),
	(SEQ, 1473, 5),
	(SEQ, 1478, 1),
	(NAME, 303, 1071),
	(NAME, 304, 1075),
	(TOK, S::Mai as u16, 0),
	(SEQ, 1479, 5),
	(SEQ, 1484, 2),
	(NAME, 305, 1076),
	(NAME, 306, 1080),
	(TOK, S::To as u16, 0),
	(SEQ, 1486, 5),
	(OPT, 1082, 0),
	(NAME, 307, 1084),
	(TOK, S::Toi as u16, 0),
	(SEQ, 1491, 5),
	(SEQ, 1496, 3),
	(NAME, 308, 1085),
	(NAME, 312, 1098),
	(SEQ, 1499, 2),
	(NAME, 309, 1091),
	(TOK, S::Xi as u16, 0),
	(SEQ, 1501, 5),
	(SEQ, 1506, 2),
	(SEQ, 1508, 2),
	(ALT, 1510, 2),
	(NAME, 310, 554),
	(NAME, 311, 561),
	(SEQ, 1512, 2),
	(SEQ, 1514, 2),
	(SEQ, 1516, 1),
	(NAME, 313, 1099),
	(MANY0, 51, 0),
	(SEQ, 1517, 1),
	(OPT, 1104, 0),
	(NAME, 315, 1109),
	(NAME, 314, 1107),
	(TOK, S::Niho as u16, 0),
	(SEQ, 1518, 5),
	(MANY1, 1105, 0),
	(SEQ, 1523, 2),
	(OPT, 1111, 0),
	(NAME, 336, 1190),
	(NAME, 141, 1189),
	(NAME, 335, 1186),
	(OPT, 1115, 0),
	(NAME, 317, 1119),
	(NAME, 316, 1118),
	(TOK, S::I as u16, 0),
	(SEQ, 1525, 5),
	(SEQ, 1530, 3),
	(NAME, 141, 1185),
	(ALT, 1533, 3),
	(NAME, 325, 1154),
	(NAME, 141, 1153),
	(NAME, 141, 1148),
	(ALT, 1536, 2),
	(SEQ, 1538, 2),
	(NAME, 318, 1129),
	(TOK, S::Tuhe as u16, 0),
	(SEQ, 1540, 5),
	(SEQ, 1545, 2),
	(OPT, 1132, 0),
	(NAME, 319, 1134),
	(TOK, S::Tuhu as u16, 0),
	(SEQ, 1547, 5),
	(SEQ, 1552, 5),
	(NAME, 320, 1135),
	(SEQ, 1557, 1),
	(NAME, 321, 1140),
	(OPT, 669, 0),
	(SEQ, 1558, 2),
	(SEQ, 1560, 1),
	(NAME, 322, 1141),
	(SEQ, 1561, 2),
	(NAME, 323, 1146),
	(OPT, 497, 0),
	(SEQ, 1563, 5),
	(MANY0, 1143, 0),
	(SEQ, 1568, 2),
	(SEQ, 1570, 2),
	(NAME, 324, 1151),
	(SEQ, 1572, 3),
	(MANY0, 1149, 0),
	(SEQ, 1575, 2),
	(SEQ, 1577, 2),
	(SEQ, 1579, 1),
	(MUST, 1155, 0),
	(NAME, 326, 1156),
	(SEQ, 1580, 1),
	(ALT, 1581, 6),
	(SEQ, 1587, 2),
	(SEQ, 1589, 1),
	(NAME, 327, 1161),
	(SEQ, 1590, 2),
	(SEQ, 1592, 2),
	(SEQ, 1594, 1),
	(NAME, 328, 1165),
	(SEQ, 1595, 2),
	(SEQ, 1597, 1),
	(NAME, 329, 1168),
	(SEQ, 1598, 2),
	(SEQ, 1600, 2),
	(SEQ, 1602, 1),
	(NAME, 330, 1172),
	(SEQ, 1603, 1),
	(NAME, 331, 1174),
	(NOT, 503, 0),
	(SEQ, 1604, 3),
	(NAME, 332, 1177),
	(SEQ, 1607, 1),
	(NAME, 333, 1179),
	(SEQ, 1608, 0),
	(NAME, 334, 1181),
	(SEQ, 1608, 2),
	(MANY0, 1183, 0),
	(SEQ, 1610, 2),
	(SEQ, 1612, 2),
	(SEQ, 1614, 2),
	(MANY0, 1187, 0),
	(SEQ, 1616, 2),
	(SEQ, 1618, 1),
	(OPT, 1192, 0),
	(NAME, 337, 1194),
	(TOK, S::Faho as u16, 0),
	(SEQ, 1619, 5),
	(SEQ, 1624, 5),
];
