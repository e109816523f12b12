//! The dictionary of structure words this project documents: class, and whether the word is experimental;
//! and the displayed name of every class.  Frozen after a review against the source.
use sneturfahi::lex::Selmaho as S;

/// class of a word written without commas and with apostrophes
#[inline(never)]
pub fn table(w: &[u8]) -> Option<(S, bool)> {
	Some(match w {
		b"a" | b"e" | b"ji" | b"o" | b"u" => (S::A, false),
		b"e'u'a" | b"i'a'a" => (S::A, true),
		b"ba'i" | b"bai" | b"bau" | b"be'i" | b"ca'i" | b"cau" | b"ci'e" | b"ci'o" | b"ci'u" | b"cu'u" | b"de'i" | b"di'o" | b"do'e" | b"du'i" | b"du'o" | b"fa'e" | b"fi'e" | b"ga'a" | b"gau" | b"ja'e" | b"ji'e" | b"ji'o" | b"ji'u" | b"ka'a" | b"ka'i" | b"kai" | b"ki'i" | b"ki'u" | b"koi" | b"ku'u" | b"la'u" | b"le'a" | b"li'e" | b"ma'e" | b"ma'i" | b"mau" | b"me'a" | b"me'e" | b"mu'i" | b"mu'u" | b"ni'i" | b"pa'a" | b"pa'u" | b"pi'o" | b"pu'a" | b"pu'e" | b"ra'a" | b"ra'i" | b"rai" | b"ri'a" | b"ri'i" | b"sau" | b"si'u" | b"ta'i" | b"tai" | b"ti'i" | b"ti'u" | b"tu'i" | b"va'o" | b"va'u" | b"zau" | b"zu'e" => (S::Bai, false),
		b"be'ei" | b"da'ai'a" | b"de'i'a" | b"de'i'e" | b"de'i'i" | b"de'i'o" | b"de'i'u" | b"fi'ei" | b"gai'i" | b"ja'u" | b"ka'ai" | b"kai'ai" | b"ki'oi" | b"ko'au" | b"ku'ai" | b"li'i'e" | b"mu'ai" | b"mu'e'ei" | b"nai'i" | b"nu'ai" | b"pau'u" | b"po'a" | b"pu'ai" | b"te'a'a" | b"te'i" | b"ti'u'a" | b"ti'u'e" | b"ti'u'i" | b"xau" => (S::Bai, true),
		b"ba'e" | b"za'e" | b"ci'a" => (S::Bahe, false),
		b"pe'ei" | b"zai'e" | b"zei'e" => (S::Bahe, true),
		b"be" => (S::Be, false),
		b"bei" => (S::Bei, false),
		b"be'o" => (S::Beho, false),
		b"bi'e" => (S::Bihe, false),
		b"bi'i" | b"bi'o" | b"mi'i" => (S::Bihi, false),
		b"bo" => (S::Bo, false),
		b"boi" => (S::Boi, false),
		b"boi'e'u" => (S::Boi, true),
		b"bu" => (S::Bu, false),
		b"by" | b"cy" | b"dy" | b"fy" | b"ga'e" | b"ge'o" | b"gy" | b"je'o" | b"jo'o" | b"jy" | b"ky" | b"lo'a" | b"ly" | b"my" | b"na'a" | b"ny" | b"py" | b"ru'o" | b"ry" | b"se'e" | b"sy" | b"to'a" | b"ty" | b"vy" | b"xy" | b"y'y" | b"zy" => (S::By, false),
		b"bu'o'e" | b"e'y" | b"i'y" | b"iy" | b"iy'y" | b"o'y" | b"u'y" | b"uy" | b"jo'au'o" | b"ro'au'o" => (S::By, true),
		b"cai" | b"cu'i" | b"pei" | b"ru'e" | b"sai" => (S::Cai, false),
		b"cau'i" | b"dai'i" | b"na'oi" | b"ni'au" | b"pei'a" | b"dau'i" | b"mau'i" | b"me'ai" => (S::Cai, true),
		b"ca'a" | b"ka'e" | b"nu'o" | b"pu'i" => (S::Caha, false),
		b"bi'ai" => (S::Caha, true),
		b"cei" => (S::Cei, false),
		b"ce'e" => (S::Cehe, false),
		b"co" => (S::Co, false),
		b"co'ai'e" | b"co'au'e" | b"co'o'e" => (S::Co, true),
		b"be'e" | b"coi" | b"co'o" | b"fe'o" | b"fi'i" | b"je'e" | b"ju'i" | b"ke'o" | b"ki'e" | b"mi'e" | b"mu'o" | b"nu'e" | b"pe'u" | b"re'i" | b"ta'a" | b"vi'o" => (S::Coi, false),
		b"a'oi" | b"bu'oi" | b"co'oi" | b"de'a'ai" | b"di'a'ai" | b"di'ai" | b"doi'oi" | b"fau'u" | b"fe'oi" | b"fi'i'e" | b"ke'o'a" | b"ke'o'o" | b"ke'o'u" | b"ku'au'i" | b"ku'o'e'a" | b"o'ai" | b"sau'ei" | b"sau'e'u" | b"sei'ai" | b"sei'u" | b"te'ei" | b"ve'ei" | b"xu'e" | b"zau'e" | b"ci'oi" | b"go'au" | b"goi'e" | b"jo'au" | b"ki'ai" | b"sa'ei" | b"tai'i" => (S::Coi, true),
		b"cu" => (S::Cu, false),
		b"cu'e" | b"nau" => (S::Cuhe, false),
		b"ba'au" | b"pu'au" => (S::Cuhe, true),
		b"da'o" => (S::Daho, false),
		b"dai'o" | b"do'ai" | b"xei'a" | b"xei'i" | b"xei'u" => (S::Daho, true),
		b"doi" => (S::Doi, false),
		b"ve'ai" | b"da'ei" | b"da'oi" => (S::Doi, true),
		b"do'u" => (S::Dohu, false),
		b"fa" | b"fai" | b"fe" | b"fi" | b"fi'a" | b"fo" | b"fu" => (S::Fa, false),
		b"fai'i" | b"fa'au'u" | b"zoi'u" => (S::Fa, true),
		b"be'a" | b"vu'a" | b"du'a" | b"ne'u" | b"ru'u" | b"ri'u" | b"ti'a" | b"ga'u" | b"ca'u" | b"ni'a" | b"zu'a" | b"re'o" | b"te'e" | b"bu'u" | b"ne'a" | b"ne'i" | b"pa'o" | b"to'o" | b"fa'a" | b"ze'o" | b"zo'a" | b"zo'i" => (S::Faha, false),
		b"bau'u" | b"gau'o" | b"du'oi" | b"zu'au" => (S::Faha, true),
		b"fa'o" => (S::Faho, false),
		b"fa'u'u'u'u'u'u'u'u" | b"to'au" => (S::Faho, true),
		b"fe'e" => (S::Fehe, false),
		b"fe'u" => (S::Fehu, false),
		b"fi'o" => (S::Fiho, false),
		b"foi" => (S::Foi, false),
		b"fu'a" => (S::Fuha, false),
		b"fu'e" => (S::Fuhe, false),
		b"fu'ei" => (S::Fuhe, true),
		b"fu'o" => (S::Fuho, false),
		b"ga" | b"ge" | b"ge'i" | b"go" | b"gu" => (S::Ga, false),
		b"ge'u'a" | b"gi'a'a" => (S::Ga, true),
		b"ga'o" | b"ke'i" => (S::Gaho, false),
		b"xai'u'oi" | b"xoi'u'oi" | b"ma'a'u'oi" | b"xau'u'oi" | b"xei'u'oi" => (S::Gaho, true),
		b"ge'u" => (S::Gehu, false),
		b"gi" => (S::Gi, false),
		b"gi'a" | b"gi'e" | b"gi'i" | b"gi'o" | b"gi'u" => (S::Giha, false),
		b"gi'e'u'a" | b"gi'i'a'a" => (S::Giha, true),
		b"goi" | b"po" | b"po'e" | b"po'u" | b"ne" | b"no'u" | b"pe" => (S::Goi, false),
		b"voi'e" => (S::Goi, true),
		b"go'a" | b"go'e" | b"go'i" | b"go'o" | b"go'u" | b"bu'a" | b"bu'e" | b"bu'i" | b"co'e" | b"du" | b"mo" | b"nei" | b"no'a" => (S::Goha, false),
		b"gai'o" | b"gi'o'i" | b"go'ai" | b"ku'ai'i" | b"cei'i" | b"xe'u" => (S::Goha, true),
		b"gu'a" | b"gu'e" | b"gu'i" | b"gu'o" | b"gu'u" => (S::Guha, false),
		b"gu'e'u'a" | b"gu'i'a'a" => (S::Guha, true),
		b"i" => (S::I, false),
		b"ja" | b"je" | b"je'i" | b"jo" | b"ju" => (S::Ja, false),
		b"je'u'a" | b"ji'a'a" => (S::Ja, true),
		b"jai" => (S::Jai, false),
		b"ja'ei" | b"jai'e" | b"jo'ai" => (S::Jai, true),
		b"joi" | b"fa'u" | b"pi'u" | b"jo'e" | b"jo'u" | b"ju'e" | b"ku'a" | b"ce" | b"ce'o" => (S::Joi, false),
		b"fa'u'ai" | b"xoi'u" | b"jo'ei" | b"jo'ei'i" | b"joi'au'a" | b"jo'oi" | b"bo'a'oi" | b"ce'au" | b"ce'oi" => (S::Joi, true),
		b"jo'i" => (S::Johi, false),
		b"ke" => (S::Ke, false),
		b"va'au" | b"fei'u" | b"ke'oi" | b"pi'ai" => (S::Ke, true),
		b"ke'e" => (S::Kehe, false),
		b"kei" => (S::Kei, false),
		b"ki" => (S::Ki, false),
		b"da" | b"de" | b"di" | b"da'u" | b"de'e" | b"dei" | b"de'u" | b"di'e" | b"da'e" | b"di'u" | b"do'i" | b"ko" | b"ma'a" | b"mi" | b"mi'a" | b"do" | b"do'o" | b"mi'o" | b"vo'a" | b"vo'e" | b"vo'i" | b"vo'o" | b"vo'u" | b"fo'a" | b"fo'e" | b"fo'i" | b"fo'o" | b"fo'u" | b"ko'a" | b"ko'e" | b"ko'i" | b"ko'o" | b"ko'u" | b"ra" | b"ru" | b"ri" | b"ti" | b"tu" | b"ta" | b"ke'a" | b"ma" | b"zi'o" | b"zo'e" | b"zu'i" | b"ce'u" => (S::Koha, false),
		b"kau'a" | b"kau'e" | b"kau'i" | b"da'au" | b"lau'e" | b"lau'u" | b"dei'ei" | b"ra'au" | b"da'ai" | b"do'o'o" | b"mi'ai" | b"mi'oi" | b"vau'a" | b"vau'e" | b"vau'o" | b"vau'u" | b"ri'au" | b"xai" | b"zoi'i" | b"tu'oi" | b"tu'oi'u" | b"ca'au" | b"di'au" | b"di'ei" | b"di'oi" | b"do'au" | b"do'ei" | b"mai'i" | b"nau'o" | b"nau'u" | b"zai'o" | b"sy'y" | b"zu'ai" | b"bo'i" | b"bo'o" | b"bo'u" | b"bo'a" | b"bo'e" => (S::Koha, true),
		b"ku" => (S::Ku, false),
		b"ku'e" => (S::Kuhe, false),
		b"ku'o" => (S::Kuho, false),
		b"la" | b"la'i" | b"lai" => (S::La, false),
		b"lai'u" | b"la'ei" => (S::La, true),
		b"lau" | b"tau" | b"zai" | b"ce'a" => (S::Lau, false),
		b"la'e" | b"tu'a" | b"vu'i" | b"lu'a" | b"lu'e" | b"lu'i" | b"lu'o" => (S::Lahe, false),
		b"tau'e" | b"lai'e" | b"la'e'au" | b"lu'au" | b"cei'u" | b"du'au" | b"moi'a" | b"zo'ei" => (S::Lahe, true),
		b"le" | b"le'e" | b"le'i" | b"lei" | b"lo" | b"lo'e" | b"lo'i" | b"loi" => (S::Le, false),
		b"dau'u" | b"ji'ai" | b"kai'i" | b"le'ei" | b"lei'e" | b"lei'i" | b"lo'au" | b"loi'a" | b"loi'e" | b"loi'i" | b"lo'o'o" | b"ly'ei" | b"me'ei" | b"moi'oi" | b"mo'oi" | b"nei'i" | b"ri'oi" | b"ti'oi" | b"xai'i" | b"zo'ai" | b"zy'oi" => (S::Le, true),
		b"le'u" => (S::Lehu, false),
		b"li" | b"me'o" => (S::Li, false),
		b"li'ai" | b"na'au" => (S::Li, true),
		b"li'u" => (S::Lihu, false),
		b"lo'o" => (S::Loho, false),
		b"lo'u" => (S::Lohu, false),
		b"la'ai" => (S::Lohu, true),
		b"lu" => (S::Lu, false),
		b"lu'u" => (S::Luhu, false),
		b"la'au" | b"tu'ai" => (S::Lu, true),
		b"mai" | b"mo'o" => (S::Mai, false),
		b"sai'ei" | b"ju'ai" | b"lai'a" | b"ba'ai" => (S::Mai, true),
		b"ma'o" => (S::Maho, false),
		b"me" => (S::Me, false),
		b"du'ai" | b"me'au" | b"mei'u" => (S::Me, true),
		b"me'u" => (S::Mehu, false),
		b"moi" | b"si'e" | b"va'e" | b"mei" | b"cu'o" => (S::Moi, false),
		b"jei'o" | b"ka'oi" | b"lei'o" | b"cei'a" | b"cu'oi'e" | b"coi'e" | b"doi'e" | b"mei'i" | b"moi'e" | b"moi'o" | b"moi'u" | b"nei'o" | b"soi'e" => (S::Moi, true),
		b"mo'e" => (S::Mohe, false),
		b"mo'i" => (S::Mohi, false),
		b"na" | b"ja'a" => (S::Na, false),
		b"xa'au" | b"xu'o'e" | b"cau'a" | b"mai'a" | b"mai'e" | b"na'ai" => (S::Na, true),
		b"nai" => (S::Nai, false),
		b"ja'ai" => (S::Nai, true),
		b"na'e" | b"to'e" | b"je'a" | b"no'e" => (S::Nahe, false),
		b"rai'a" | b"rei'e" | b"sai'e" | b"gu'y" | b"je'ai" | b"cai'e" | b"cau'e" | b"cau'o'e" | b"na'ei" | b"ni'u'u" | b"noi'e" | b"pai'e" => (S::Nahe, true),
		b"na'u" => (S::Nahu, false),
		b"ni'e" => (S::Nihe, false),
		b"ni'o" | b"no'i" => (S::Niho, false),
		b"noi" | b"poi" | b"voi" => (S::Noi, false),
		b"voi'i" => (S::Noi, true),
		b"nu" | b"si'o" | b"jei" | b"ka" | b"li'i" | b"du'u" | b"ni" | b"su'u" | b"pu'u" | b"za'i" | b"mu'e" | b"zu'o" => (S::Nu, false),
		b"poi'i" | b"te'oi" | b"ga'ei" | b"ka'ei" | b"kai'ei" | b"kai'u" | b"ka'oi'i" | b"bu'ai" | b"ni'ai" | b"xe'ei" => (S::Nu, true),
		b"nu'a" => (S::Nuha, false),
		b"nu'i" => (S::Nuhi, false),
		b"nu'u" => (S::Nuhu, false),
		b"bi" | b"ce'i" | b"ci" | b"ci'i" | b"da'a" | b"dau" | b"du'e" | b"fei" | b"fi'u" | b"gai" | b"jau" | b"ji'i" | b"ka'o" | b"ki'o" | b"ma'u" | b"me'i" | b"mo'a" | b"mu" | b"ni'u" | b"no" | b"no'o" | b"pa" | b"pai" | b"pi" | b"pi'e" | b"ra'e" | b"rau" | b"re" | b"rei" | b"ro" | b"so" | b"so'a" | b"so'e" | b"so'i" | b"so'o" | b"so'u" | b"su'e" | b"su'o" | b"te'o" | b"tu'o" | b"vai" | b"vo" | b"xa" | b"xo" | b"za'u" | b"ze" | b"1" | b"2" | b"3" | b"4" | b"5" | b"6" | b"7" | b"8" | b"9" | b"0" => (S::Pa, false),
		b"bi'ei" | b"by'ai" | b"ci'i'e" | b"ci'i'o" | b"ci'i'oi" | b"dau'e" | b"dy'ei" | b"fai'e'au" | b"fai'u" | b"fai'u'a" | b"fu'a'ai" | b"fu'a'au" | b"fy'ai" | b"ga'au" | b"gau'i'o" | b"go'o'i'a" | b"ja'au" | b"ka'ei'a" | b"ka'o'ai" | b"ka'o'ei" | b"kai'o" | b"kau'o" | b"kei'ei" | b"kei'o" | b"koi'o" | b"ku'i'a" | b"lai'ai" | b"mai'e'e" | b"mei'a" | b"mu'i'ai" | b"mu'i'u" | b"na'a'u" | b"ni'e'ei" | b"ni'e'oi" | b"no'ai" | b"no'e'u" | b"ny'ei" | b"pa'au'o" | b"pei'i'a" | b"pi'au" | b"pu'e'u'o" | b"py'ai" | b"ro'oi" | b"ru'oi" | b"sai'i" | b"se'i'i" | b"sei'a" | b"sei'u'e" | b"si'ei" | b"si'i'ai" | b"so'au" | b"soi'ai" | b"soi'au" | b"su'ai" | b"su'au" | b"su'o'o" | b"su'oi" | b"sy'au" | b"tau'u" | b"va'ei'a" | b"vau'au'o" | b"vo'ei'a" | b"vu'ai" | b"xe'a" | b"xe'e" | b"xei" | b"xi'i'ei" | b"xo'au" | b"xo'e" | b"xy'au" | b"zau'u" | b"ze'au" | b"zy'ei" | b"vi'ei'e" => (S::Pa, true),
		b"pe'e" => (S::Pehe, false),
		b"pe'o" => (S::Peho, false),
		b"kei'ai" => (S::Peho, true),
		b"pu" | b"ba" | b"ca" => (S::Pu, false),
		b"xa'ei" => (S::Pu, true),
		b"ra'o" => (S::Raho, false),
		b"roi" | b"re'u" => (S::Roi, false),
		b"va'ei" | b"ba'oi" | b"de'ei" | b"mu'ei" => (S::Roi, true),
		b"sa" => (S::Sa, false),
		b"se" | b"te" | b"ve" | b"xe" => (S::Se, false),
		b"re'au'e" | b"se'ai'e" | b"se'au'e" | b"se'o'e" | b"se'u'o" | b"to'ai" | b"tu'ei" | b"vo'ai" | b"xo'ai" | b"ko'ei" | b"lu'oi" | b"ze'ai'e" | b"ze'au'e" | b"so'o'o'oi" | b"su'ei" => (S::Se, true),
		b"sei" | b"ti'o" => (S::Sei, false),
		b"sei'e" | b"le'au" | b"cei'e" => (S::Sei, true),
		b"se'u" => (S::Sehu, false),
		b"si" => (S::Si, false),
		b"si'au'i" | b"ze'ei" => (S::Si, true),
		b"soi" => (S::Soi, false),
		b"su" => (S::Su, false),
		b"ta'e" | b"ru'i" | b"di'i" | b"na'o" => (S::Tahe, false),
		b"dei'a" | b"ze'ai" | b"zei'a" => (S::Tahe, true),
		b"tei" => (S::Tei, false),
		b"te'u" => (S::Tehu, false),
		b"to" | b"to'i" => (S::To, false),
		b"toi" => (S::Toi, false),
		b"tu'e" => (S::Tuhe, false),
		b"tu'u" => (S::Tuhu, false),
		b"a'a" | b"a'e" | b"a'i" | b"ai" | b"a'o" | b"a'u" | b"au" | b"ba'a" | b"ba'u" | b"be'u" | b"bi'u" | b"bu'o" | b"ca'e" | b"da'i" | b"dai" | b"do'a" | b"e'a" | b"e'e" | b"e'i" | b"ei" | b"e'o" | b"e'u" | b"fu'i" | b"ga'i" | b"ge'e" | b"i'a" | b"ia" | b"i'e" | b"ie" | b"i'i" | b"ii" | b"i'o" | b"io" | b"i'u" | b"iu" | b"ja'o" | b"je'u" | b"ji'a" | b"jo'a" | b"ju'a" | b"ju'o" | b"ka'u" | b"kau" | b"ke'u" | b"ki'a" | b"ku'i" | b"la'a" | b"le'o" | b"li'a" | b"li'o" | b"mi'u" | b"mu'a" | b"na'i" | b"o'a" | b"o'e" | b"o'i" | b"oi" | b"o'o" | b"o'u" | b"pa'e" | b"pau" | b"pe'a" | b"pe'i" | b"po'o" | b"ra'u" | b"re'e" | b"ri'e" | b"ro'a" | b"ro'e" | b"ro'i" | b"ro'o" | b"ro'u" | b"ru'a" | b"sa'a" | b"sa'e" | b"sa'u" | b"se'a" | b"se'i" | b"se'o" | b"si'a" | b"su'a" | b"ta'o" | b"ta'u" | b"ti'e" | b"to'u" | b"u'a" | b"ua" | b"u'e" | b"ue" | b"u'i" | b"ui" | b"u'o" | b"uo" | b"u'u" | b"uu" | b"va'i" | b"vu'e" | b"xu" | b"za'a" | b"zo'o" | b"zu'u" => (S::Ui, false),
		b"fai'a" | b"rau'o" | b"si'ai" | b"tai'a" | b"tei'i" | b"tei'o" | b"uau'o" | b"ue'e" | b"uei'e" | b"ui'a" | b"ui'o" | b"va'u'au" | b"fu'ei'a" | b"fu'ei'e" | b"fu'ei'i" | b"fi'ei'o" | b"fu'ei'u" | b"ii'au" | b"au'o" | b"a'u'u" | b"ca'e'ei" | b"ci'ai" | b"cu'ei" | b"cu'ei'a" | b"cu'ei'ai" | b"cu'ei'e" | b"cu'ei'ei" | b"cu'ei'i" | b"cu'ei'o" | b"cu'ei'oi" | b"cu'ei'u" | b"coi'o'e" | b"doi'au" | b"e'au" | b"ei'u" | b"mu'au'oi" | b"oi'a" | b"pau'ai" | b"pau'i" | b"zei'i" | b"su'a'a" | b"zi'ei" | b"u'ai" | b"uai" | b"uau" | b"ue'i" | b"ui'i" | b"uo'o" | b"uu'i" | b"ia'u" | b"ie'e" | b"ie'i" | b"a'au" | b"ai'i" | b"au'u" | b"ci'au'u'au'i" | b"e'ei" | b"ei'au" | b"ei'e" | b"ei'i" | b"mau'u" | b"mi'au" | b"ne'au" | b"oi'o" | b"oi'u" | b"ri'ai" | b"sei'i" | b"si'au" | b"jei'u" | b"ju'oi" | b"kai'a" | b"kai'e" | b"ki'au" | b"lai'i" | b"moi'i" | b"pei'e" | b"za'au" | b"vo'oi" | b"vei'i" | b"ta'ei" | b"te'i'o" | b"xa'i" | b"xu'a" | b"fu'au" | b"je'au" | b"so'ei" | b"sy'a" | b"xe'o" | b"roi'i" | b"pei'o" | b"ra'i'au" | b"xo'o" | b"jau'i" | b"ji'ei" | b"bo'oi" | b"dai'a" | b"noi'u" | b"zai'a" | b"ki'a'au'u'au'i" | b"ko'oi" | b"cu'u'u'u'u'u'u'u'u'u'u'u'u'u'u'u'u'u'u'u'u'u'u'u'u'u'u'u'u'u'u'u'u'u'u'u'u'u'u'u'u'u'u'u'u'u'u'u'u" => (S::Ui, true),
		b"va" | b"vi" | b"vu" => (S::Va, false),
		b"xa'e" => (S::Va, true),
		b"vau" => (S::Vau, false),
		b"vei" => (S::Vei, false),
		b"ve'a" | b"ve'e" | b"ve'i" | b"ve'u" => (S::Veha, false),
		b"ve'o" => (S::Veho, false),
		b"ve'oi" => (S::Veho, true),
		b"vi'a" | b"vi'u" | b"vi'e" | b"vi'i" => (S::Viha, false),
		b"vu'o" => (S::Vuho, false),
		b"cu'a" | b"de'o" | b"fa'i" | b"fe'a" | b"fe'i" | b"fu'u" | b"ge'a" | b"gei" | b"ju'u" | b"ne'o" | b"pa'i" | b"pi'a" | b"pi'i" | b"re'a" | b"ri'o" | b"sa'i" | b"sa'o" | b"si'i" | b"su'i" | b"te'a" | b"va'a" | b"vu'u" => (S::Vuhu, false),
		b"bai'ei" | b"bai'i" | b"bai'i'i" | b"be'ei'oi" | b"bei'u'i" | b"boi'ai" | b"ca'ei'a" | b"ca'o'e" | b"ca'oi" | b"ci'ai'u" | b"ci'au'i" | b"ci'o'au" | b"cu'ai" | b"cu'au'ei" | b"da'a'au" | b"de'au'u" | b"dei'au'o" | b"di'ei'o'au" | b"du'a'e" | b"du'a'o" | b"du'ei" | b"fa'ai" | b"fa'ai'ai" | b"fa'au" | b"fau'i" | b"fe'au'u" | b"fe'ei" | b"fei'i" | b"ga'ai" | b"gau'a" | b"gu'ai" | b"gu'au'i" | b"jau'au" | b"je'e'e" | b"ji'e'ai" | b"ji'i'u" | b"ji'i'u'u" | b"joi'i" | b"ka'au" | b"ku'au'a" | b"lau'au" | b"ma'au" | b"mai'u" | b"ma'o'e" | b"me'ei'o" | b"mu'ai'au" | b"mu'au" | b"nei'au" | b"ne'oi" | b"no'au'au" | b"pau'a'u" | b"pau'ei" | b"pau'oi" | b"pei'e'a" | b"pi'au'e" | b"pi'ei" | b"pi'ei'au" | b"pi'ei'oi" | b"po'i'oi" | b"ra'i'e" | b"rai'i" | b"ru'ei" | b"sau'i" | b"se'i'a'o" | b"si'oi'e" | b"su'i'e" | b"su'i'o" | b"tai'e'i" | b"tai'i'e" | b"te'au'u" | b"te'i'ai" | b"tei'au" | b"te'o'a" | b"te'oi'i" | b"to'ei'au" | b"vau'i" | b"vei'u" | b"vi'oi'au" | b"vo'au'u" | b"xa'ai" | b"xo'ei" | b"xo'e'o'ei" | b"za'ei" | b"zei'i'au" | b"zi'a'o" | b"zu'oi" => (S::Vuhu, true),
		b"xi" => (S::Xi, false),
		b"fau'e" | b"te'ai" | b"xi'e" | b"xi'i" => (S::Xi, true),
		b"ie'o" | b"ko'o'o'o'o" => (S::Y, true),
		b"za'o" | b"ba'o" | b"pu'o" | b"ca'o" | b"co'a" | b"co'i" | b"co'u" | b"de'a" | b"di'a" | b"mo'u" => (S::Zaho, false),
		b"sau'a" | b"xo'u" | b"ca'o'a" | b"co'a'a" | b"co'au'a" | b"co'u'a" | b"xa'o" => (S::Zaho, true),
		b"zei" => (S::Zei, false),
		b"ze'a" | b"ze'e" | b"ze'i" | b"ze'u" => (S::Zeha, false),
		b"zei'au" => (S::Zeha, true),
		b"zi" | b"za" | b"zu" => (S::Zi, false),
		b"za'ai" => (S::Zi, true),
		b"zi'e" => (S::Zihe, false),
		b"zo" => (S::Zo, false),
		b"ra'ai" | b"doi'u" | b"ma'oi" | b"ma'oi'e" => (S::Zo, true),
		b"zoi" | b"la'o" => (S::Zoi, false),
		b"zo'u" => (S::Zohu, false),
		b"fi'ai" | b"ge'ai" | b"ke'au" | b"ce'ai" => (S::Zohu, true),
		b"ba'ei" => (S::Bahei, true),
		b"bei'e" => (S::Beihe, true),
		b"boi'oi" => (S::Boihoi, true),
		b"ca'ei" | b"pu'ei" => (S::Cahei, true),
		b"ce'ei'oi" => (S::Ceheihoi, true),
		b"co'ai" => (S::Cohai, true),
		b"co'e'o'e" => (S::Cohehohe, true),
		b"co'u'o" => (S::Cohuho, true),
		b"cu'au" => (S::Cuhau, true),
		b"dau'o" => (S::Dauho, true),
		b"de'ai" => (S::Dehai, true),
		b"dau'a" | b"de'au" | b"de'oi" | b"doi'a" => (S::Dehau, true),
		b"do'oi" => (S::Dohoi, true),
		b"fau'a" | b"fau'ai" => (S::Fauha, true),
		b"fa'o'o" => (S::Fahoho, true),
		b"fi'oi" => (S::Fihoi, true),
		b"foi'e" => (S::Foihe, true),
		b"ga'u'au" | b"ni'a'a" => (S::Gahuhau, true),
		b"ge'u'i" => (S::Gehuhi, true),
		b"gi'ei" => (S::Gihei, true),
		b"gi'oi" => (S::Gihoi, true),
		b"bo'ei" | b"go'oi" | b"sau'e" | b"ta'ai" | b"ze'oi" => (S::Gohoi, true),
		b"iau" | b"i'au" => (S::Ihau, true),
		b"jai'a" => (S::Jaiha, true),
		b"jai'i" => (S::Jaihi, true),
		b"jau'u" => (S::Jauhu, true),
		b"fau'au" | b"ja'oi" => (S::Jahoi, true),
		b"ji'oi" | b"ni'oi" => (S::Jihoi, true),
		b"boi'au" | b"fa'ei" | b"gei'i'e" => (S::Joihi, true),
		b"xa'ei'o" | b"xa'ei'u" => (S::Johe, true),
		b"ju'au" => (S::Juhau, true),
		b"ju'ei" => (S::Juhei, true),
		b"ju'u'i" => (S::Juhuhi, true),
		b"kau'ai" | b"kau'au" => (S::Kauhai, true),
		b"kau'u" => (S::Kauhu, true),
		b"kei'au" => (S::Keihau, true),
		b"kei'i" => (S::Keihi, true),
		b"ke'ei" => (S::Kehei, true),
		b"ke'ei'a" => (S::Keheiha, true),
		b"ke'e'au" => (S::Kehehau, true),
		b"ke'e'u" => (S::Kehehu, true),
		b"ke'u'i" => (S::Kehuhi, true),
		b"ku'au" => (S::Kuhau, true),
		b"ku'ei" => (S::Kuhei, true),
		b"ku'oi'u" => (S::Kuhoihu, true),
		b"fy'oi" | b"ky'oi" => (S::Kyhoi, true),
		b"le'ai" => (S::Lehai, true),
		b"li'au" => (S::Lihau, true),
		b"li'ei" => (S::Lihei, true),
		b"lo'ai" | b"sa'ai" => (S::Lohai, true),
		b"fo'ai" | b"ko'ai" | b"koi'i" | b"lo'oi" | b"mau'a" | b"xau'a" | b"xu'u" => (S::Lohoi, true),
		b"lu'ei" => (S::Luhei, true),
		b"mau'au" => (S::Mauhau, true),
		b"mau'e" => (S::Mauhe, true),
		b"mau'o" => (S::Mauho, true),
		b"mei'e" => (S::Meihe, true),
		b"mei'o" => (S::Meiho, true),
		b"me'oi" => (S::Mehoi, true),
		b"mu'oi" => (S::Muhoi, true),
		b"mu'o'u" => (S::Muhohu, true),
		b"nei'ai" => (S::Neihai, true),
		b"noi'a" | b"poi'a" | b"poi'o'a" | b"soi'a" => (S::Noiha, true),
		b"noi'au" | b"poi'au" => (S::Noihau, true),
		b"noi'a'u" | b"poi'a'u" => (S::Noihahu, true),
		b"noi'i" => (S::Noihi, true),
		b"no'oi" | b"po'oi" => (S::Nohoi, true),
		b"rau'oi" => (S::Rauho, true),
		b"re'ai'e" => (S::Rehaihe, true),
		b"sau'u" => (S::Sauhu, true),
		b"sa'au" => (S::Sahau, true),
		b"sa'oi" => (S::Sahoi, true),
		b"sei'au" => (S::Seihau, true),
		b"sei'o" => (S::Seiho, true),
		b"se'e'i" | b"te'e'a" | b"te'e'i" | b"ve'e'a" | b"ve'e'i" | b"ve'e'u" | b"xe'e'i" | b"xe'e'o" | b"xe'e'u" | b"ze'e'a" | b"ze'e'au" | b"ze'e'e" | b"ze'e'i" | b"ze'e'o" | b"ze'e'u" => (S::Sehehi, true),
		b"se'oi'oi" => (S::Sehoihoi, true),
		b"si'i'ei" => (S::Sihihei, true),
		b"si'i'oi" => (S::Sihihoi, true),
		b"si'oi" => (S::Sihoi, true),
		b"soi'i" => (S::Soihi, true),
		b"so'e'ai" => (S::Sohehai, true),
		b"so'oi" => (S::Sohoi, true),
		b"tai'u" => (S::Taihu, true),
		b"tau'o" => (S::Tauho, true),
		b"ta'oi" => (S::Tahoi, true),
		b"ta'u'i" | b"ta'u'u" => (S::Tahuhi, true),
		b"tei'u" => (S::Teihu, true),
		b"te'oi'oi" => (S::Tehoihoi, true),
		b"toi'e" => (S::Toihe, true),
		b"toi'o" => (S::Toiho, true),
		b"vau'e'oi" => (S::Vauhehoi, true),
		b"vau'o'oi" => (S::Vauhohoi, true),
		b"vu'oi" => (S::Vuhoi, true),
		b"vy'y" => (S::Vyhy, true),
		b"xau'e'o" => (S::Xauheho, true),
		b"xa'oi'a'oi'a" => (S::Xahoihahoiha, true),
		b"xe'au" => (S::Xehau, true),
		b"no'au" | b"xoi" => (S::Xoi, true),
		b"xo'a" => (S::Xoha, true),
		b"xo'e'o'e" => (S::Xohehohe, true),
		b"xo'i" => (S::Xohi, true),
		b"xu'au" => (S::Xuhau, true),
		b"ji'o'e" | b"y'i" => (S::Yhi, true),
		b"zai'ai" => (S::Zaihai, true),
		b"rai'o" | b"zai'u" => (S::Zaihu, true),
		b"zau'e'u" => (S::Zauhehu, true),
		b"zei'ei" => (S::Zeihei, true),
		b"zei'oi" => (S::Zeihoi, true),
		b"zi'e'a" | b"zi'e'e" | b"zi'e'i" | b"zi'e'o" | b"zi'e'u" => (S::Ziheha, true),
		b"zi'e'au" => (S::Zihehau, true),
		b"zei'o" | b"zi'oi" => (S::Zihoi, true),
		b"zoi'ai" => (S::Zoihai, true),
		b"zoi'ai'e" | b"zoi'o'e" => (S::Zoihohe, true),
		b"zo'au" => (S::Zohau, true),
		b"zo'e'u" => (S::Zohehu, true),
		b"zo'i'o" => (S::Zohiho, true),
		b"la'oi" | b"ra'oi" | b"zo'oi" => (S::Zohoi, true),
		w if !w.is_empty() && w.iter().all(|&c| c == b'y') => (S::Y, false),
		_ => return None,
	})
}
/// displayed name, and whether every word of the class is experimental
#[inline(never)]
pub fn name(s: S) -> (&'static [u8], bool) {
	match s {
		S::A => (b"A", false),
		S::Bai => (b"BAI", false),
		S::Bahe => (b"BAhE", false),
		S::Be => (b"BE", false),
		S::Bei => (b"BEI", false),
		S::Beho => (b"BEhO", false),
		S::Bihe => (b"BIhE", false),
		S::Bihi => (b"BIhI", false),
		S::Bo => (b"BO", false),
		S::Boi => (b"BOI", false),
		S::Bu => (b"BU", false),
		S::By => (b"BY", false),
		S::Cai => (b"CAI", false),
		S::Caha => (b"CAhA", false),
		S::Cei => (b"CEI", false),
		S::Cehe => (b"CEhE", false),
		S::Co => (b"CO", false),
		S::Coi => (b"COI", false),
		S::Cu => (b"CU", false),
		S::Cuhe => (b"CUhE", false),
		S::Daho => (b"DAhO", false),
		S::Doi => (b"DOI", false),
		S::Dohu => (b"DOhU", false),
		S::Fa => (b"FA", false),
		S::Faha => (b"FAhA", false),
		S::Faho => (b"FAhO", false),
		S::Fehe => (b"FEhE", false),
		S::Fehu => (b"FEhU", false),
		S::Fiho => (b"FIhO", false),
		S::Foi => (b"FOI", false),
		S::Fuha => (b"FUhA", false),
		S::Fuhe => (b"FUhE", false),
		S::Fuho => (b"FUhO", false),
		S::Ga => (b"GA", false),
		S::Gaho => (b"GAhO", false),
		S::Gehu => (b"GEhU", false),
		S::Gi => (b"GI", false),
		S::Giha => (b"GIhA", false),
		S::Goi => (b"GOI", false),
		S::Goha => (b"GOhA", false),
		S::Guha => (b"GUhA", false),
		S::I => (b"I", false),
		S::Ja => (b"JA", false),
		S::Jai => (b"JAI", false),
		S::Joi => (b"JOI", false),
		S::Johi => (b"JOhI", false),
		S::Ke => (b"KE", false),
		S::Kei => (b"KEI", false),
		S::Kehe => (b"KEhE", false),
		S::Ki => (b"KI", false),
		S::Koha => (b"KOhA", false),
		S::Ku => (b"KU", false),
		S::Kuhe => (b"KUhE", false),
		S::Kuho => (b"KUhO", false),
		S::La => (b"LA", false),
		S::Lau => (b"LAU", false),
		S::Lahe => (b"LAhE", false),
		S::Le => (b"LE", false),
		S::Lehu => (b"LEhU", false),
		S::Li => (b"LI", false),
		S::Lihu => (b"LIhU", false),
		S::Loho => (b"LOhO", false),
		S::Lohu => (b"LOhU", false),
		S::Lu => (b"LU", false),
		S::Luhu => (b"LUhU", false),
		S::Mai => (b"MAI", false),
		S::Maho => (b"MAhO", false),
		S::Me => (b"ME", false),
		S::Mehu => (b"MEhU", false),
		S::Moi => (b"MOI", false),
		S::Mohe => (b"MOhE", false),
		S::Mohi => (b"MOhI", false),
		S::Na => (b"NA", false),
		S::Nai => (b"NAI", false),
		S::Nahe => (b"NAhE", false),
		S::Nahu => (b"NAhU", false),
		S::Nihe => (b"NIhE", false),
		S::Niho => (b"NIhO", false),
		S::Noi => (b"NOI", false),
		S::Nu => (b"NU", false),
		S::Nuha => (b"NUhA", false),
		S::Nuhi => (b"NUhI", false),
		S::Nuhu => (b"NUhU", false),
		S::Pa => (b"PA", false),
		S::Pehe => (b"PEhE", false),
		S::Peho => (b"PEhO", false),
		S::Pu => (b"PU", false),
		S::Raho => (b"RAhO", false),
		S::Roi => (b"ROI", false),
		S::Sa => (b"SA", false),
		S::Se => (b"SE", false),
		S::Sei => (b"SEI", false),
		S::Sehu => (b"SEhU", false),
		S::Si => (b"SI", false),
		S::Soi => (b"SOI", false),
		S::Su => (b"SU", false),
		S::Tahe => (b"TAhE", false),
		S::Tei => (b"TEI", false),
		S::Tehu => (b"TEhU", false),
		S::To => (b"TO", false),
		S::Toi => (b"TOI", false),
		S::Tuhe => (b"TUhE", false),
		S::Tuhu => (b"TUhU", false),
		S::Ui => (b"UI", false),
		S::Va => (b"VA", false),
		S::Vau => (b"VAU", false),
		S::Vei => (b"VEI", false),
		S::Veha => (b"VEhA", false),
		S::Veho => (b"VEhO", false),
		S::Viha => (b"VIhA", false),
		S::Vuho => (b"VUhO", false),
		S::Vuhu => (b"VUhU", false),
		S::Xi => (b"XI", false),
		S::Y => (b"Y", false),
		S::Zaho => (b"ZAhO", false),
		S::Zei => (b"ZEI", false),
		S::Zeha => (b"ZEhA", false),
		S::Zi => (b"ZI", false),
		S::Zihe => (b"ZIhE", false),
		S::Zo => (b"ZO", false),
		S::Zoi => (b"ZOI", false),
		S::Zohu => (b"ZOhU", false),
		S::Bahei => (b"BAhEI", true),
		S::Beihe => (b"BEIhE", true),
		S::Boihoi => (b"BOIhOI", true),
		S::Boihohu => (b"BOIhOhU", true),
		S::Cahei => (b"CAhEI", true),
		S::Ceheihoi => (b"CEhEIhOI", true),
		S::Cohai => (b"COhAI", true),
		S::Cohehohe => (b"COhEhOhE", true),
		S::Cohuho => (b"COhUhO", true),
		S::Cuhau => (b"CUhAU", true),
		S::Dauho => (b"DAUhO", true),
		S::Dehai => (b"DEhAI", true),
		S::Dehau => (b"DEhAU", true),
		S::Dohoi => (b"DOhOI", true),
		S::Fauha => (b"FAUhA", true),
		S::Fahoho => (b"FAhOhO", true),
		S::Fihoi => (b"FIhOI", true),
		S::Foihe => (b"FOIhE", true),
		S::Gahuhau => (b"GAhUhAU", true),
		S::Gehuhi => (b"GEhUhI", true),
		S::Gihei => (b"GIhEI", true),
		S::Gihoi => (b"GIhOI", true),
		S::Gohoi => (b"GOhOI", true),
		S::Ihau => (b"IhAU", true),
		S::Jaiha => (b"JAIhA", true),
		S::Jaihi => (b"JAIhI", true),
		S::Jauhu => (b"JAUhU", true),
		S::Jahoi => (b"JAhOI", true),
		S::Jihoi => (b"JIhOI", true),
		S::Joihi => (b"JOIhI", true),
		S::Johe => (b"JOhE", true),
		S::Juhau => (b"JUhAU", true),
		S::Juhei => (b"JUhEI", true),
		S::Juhuhi => (b"JUhUhI", true),
		S::Kauhai => (b"KAUhAI", true),
		S::Kauhu => (b"KAUhU", true),
		S::Keihau => (b"KEIhAU", true),
		S::Keihi => (b"KEIhI", true),
		S::Kehai => (b"KEhAI", true),
		S::Kehei => (b"KEhEI", true),
		S::Keheiha => (b"KEhEIhA", true),
		S::Kehehau => (b"KEhEhAU", true),
		S::Kehehu => (b"KEhEhU", true),
		S::Kehuhi => (b"KEhUhI", true),
		S::Kuhau => (b"KUhAU", true),
		S::Kuhei => (b"KUhEI", true),
		S::Kuhoihu => (b"KUhOIhU", true),
		S::Kyhoi => (b"KYhOI", true),
		S::Lehai => (b"LEhAI", true),
		S::Lihau => (b"LIhAU", true),
		S::Lihei => (b"LIhEI", true),
		S::Lohai => (b"LOhAI", true),
		S::Lohoi => (b"LOhOI", true),
		S::Luhei => (b"LUhEI", true),
		S::Mauhau => (b"MAUhAU", true),
		S::Mauhe => (b"MAUhE", true),
		S::Mauho => (b"MAUhO", true),
		S::Meihe => (b"MEIhE", true),
		S::Meiho => (b"MEIhO", true),
		S::Mehoi => (b"MEhOI", true),
		S::Muhoi => (b"MUhOI", true),
		S::Muhohu => (b"MUhOhU", true),
		S::Neihai => (b"NEIhAI", true),
		S::Noiha => (b"NOIhA", true),
		S::Noihau => (b"NOIhAU", true),
		S::Noihahu => (b"NOIhAhU", true),
		S::Noihi => (b"NOIhI", true),
		S::Nohoi => (b"NOhOI", true),
		S::Rauho => (b"RAUhO", true),
		S::Rehaihe => (b"REhAIhE", true),
		S::Sauhu => (b"SAUhU", true),
		S::Sahau => (b"SAhAU", true),
		S::Sahoi => (b"SAhOI", true),
		S::Seihau => (b"SEIhAU", true),
		S::Seiho => (b"SEIhO", true),
		S::Sehehi => (b"SEhEhI", true),
		S::Sehoihoi => (b"SEhOIhOI", true),
		S::Sihihei => (b"SIhIhEI", true),
		S::Sihihoi => (b"SIhIhOI", true),
		S::Sihoi => (b"SIhOI", true),
		S::Soihi => (b"SOIhI", true),
		S::Sohehai => (b"SOhEhAI", true),
		S::Sohoi => (b"SOhOI", true),
		S::Taihu => (b"TAIhU", true),
		S::Tauho => (b"TAUhO", true),
		S::Tahoi => (b"TAhOI", true),
		S::Tahuhi => (b"TAhUhI", true),
		S::Teihu => (b"TEIhU", true),
		S::Tehoihoi => (b"TEhOIhOI", true),
		S::Toihe => (b"TOIhE", true),
		S::Toiho => (b"TOIhO", true),
		S::Vauhehoi => (b"VAUhEhOI", true),
		S::Vauhohoi => (b"VAUhOhOI", true),
		S::Vuhoi => (b"VUhOI", true),
		S::Vyhy => (b"VYhY", true),
		S::Xauhe => (b"XAUhE", true),
		S::Xauheho => (b"XAUhEhO", true),
		S::Xauho => (b"XAUhO", true),
		S::Xauhoi => (b"XAUhOI", true),
		S::Xauhoho => (b"XAUhOhO", true),
		S::Xahoihahoiha => (b"XAhOIhAhOIhA", true),
		S::Xehau => (b"XEhAU", true),
		S::Xoi => (b"XOI", true),
		S::Xoha => (b"XOhA", true),
		S::Xohehohe => (b"XOhEhOhE", true),
		S::Xohi => (b"XOhI", true),
		S::Xuhau => (b"XUhAU", true),
		S::Yhi => (b"YhI", true),
		S::Zaihai => (b"ZAIhAI", true),
		S::Zaihu => (b"ZAIhU", true),
		S::Zauhehu => (b"ZAUhEhU", true),
		S::Zeihei => (b"ZEIhEI", true),
		S::Zeihoi => (b"ZEIhOI", true),
		S::Ziheha => (b"ZIhEhA", true),
		S::Zihehau => (b"ZIhEhAU", true),
		S::Zihoi => (b"ZIhOI", true),
		S::Zoihai => (b"ZOIhAI", true),
		S::Zoihohe => (b"ZOIhOhE", true),
		S::Zohau => (b"ZOhAU", true),
		S::Zohehu => (b"ZOhEhU", true),
		S::Zohiho => (b"ZOhIhO", true),
		S::Zohoi => (b"ZOhOI", true),
		S::Gismu => (b"gismu", false),
		S::Fuhivla => (b"fuhivla", false),
		S::Lujvo => (b"lujvo", false),
		S::Cmevla => (b"cmevla", false),
		S::UnknownCmavo => (b"(unknown cmavo)", true),
		S::AnyText => (b"(any text)", false),
		S::ZoiDelimiter => (b"(zoi delimiter)", false),
		#[allow(unreachable_patterns)]
		_ => (b"?", false),
	}
}
pub static ALL: [S; 251] = [S::A, S::Bai, S::Bahe, S::Be, S::Bei, S::Beho, S::Bihe, S::Bihi, S::Bo, S::Boi, S::Bu, S::By, S::Cai, S::Caha, S::Cei, S::Cehe, S::Co, S::Coi, S::Cu, S::Cuhe, S::Daho, S::Doi, S::Dohu, S::Fa, S::Faha, S::Faho, S::Fehe, S::Fehu, S::Fiho, S::Foi, S::Fuha, S::Fuhe, S::Fuho, S::Ga, S::Gaho, S::Gehu, S::Gi, S::Giha, S::Goi, S::Goha, S::Guha, S::I, S::Ja, S::Jai, S::Joi, S::Johi, S::Ke, S::Kei, S::Kehe, S::Ki, S::Koha, S::Ku, S::Kuhe, S::Kuho, S::La, S::Lau, S::Lahe, S::Le, S::Lehu, S::Li, S::Lihu, S::Loho, S::Lohu, S::Lu, S::Luhu, S::Mai, S::Maho, S::Me, S::Mehu, S::Moi, S::Mohe, S::Mohi, S::Na, S::Nai, S::Nahe, S::Nahu, S::Nihe, S::Niho, S::Noi, S::Nu, S::Nuha, S::Nuhi, S::Nuhu, S::Pa, S::Pehe, S::Peho, S::Pu, S::Raho, S::Roi, S::Sa, S::Se, S::Sei, S::Sehu, S::Si, S::Soi, S::Su, S::Tahe, S::Tei, S::Tehu, S::To, S::Toi, S::Tuhe, S::Tuhu, S::Ui, S::Va, S::Vau, S::Vei, S::Veha, S::Veho, S::Viha, S::Vuho, S::Vuhu, S::Xi, S::Y, S::Zaho, S::Zei, S::Zeha, S::Zi, S::Zihe, S::Zo, S::Zoi, S::Zohu, S::Bahei, S::Beihe, S::Boihoi, S::Boihohu, S::Cahei, S::Ceheihoi, S::Cohai, S::Cohehohe, S::Cohuho, S::Cuhau, S::Dauho, S::Dehai, S::Dehau, S::Dohoi, S::Fauha, S::Fahoho, S::Fihoi, S::Foihe, S::Gahuhau, S::Gehuhi, S::Gihei, S::Gihoi, S::Gohoi, S::Ihau, S::Jaiha, S::Jaihi, S::Jauhu, S::Jahoi, S::Jihoi, S::Joihi, S::Johe, S::Juhau, S::Juhei, S::Juhuhi, S::Kauhai, S::Kauhu, S::Keihau, S::Keihi, S::Kehai, S::Kehei, S::Keheiha, S::Kehehau, S::Kehehu, S::Kehuhi, S::Kuhau, S::Kuhei, S::Kuhoihu, S::Kyhoi, S::Lehai, S::Lihau, S::Lihei, S::Lohai, S::Lohoi, S::Luhei, S::Mauhau, S::Mauhe, S::Mauho, S::Meihe, S::Meiho, S::Mehoi, S::Muhoi, S::Muhohu, S::Neihai, S::Noiha, S::Noihau, S::Noihahu, S::Noihi, S::Nohoi, S::Rauho, S::Rehaihe, S::Sauhu, S::Sahau, S::Sahoi, S::Seihau, S::Seiho, S::Sehehi, S::Sehoihoi, S::Sihihei, S::Sihihoi, S::Sihoi, S::Soihi, S::Sohehai, S::Sohoi, S::Taihu, S::Tauho, S::Tahoi, S::Tahuhi, S::Teihu, S::Tehoihoi, S::Toihe, S::Toiho, S::Vauhehoi, S::Vauhohoi, S::Vuhoi, S::Vyhy, S::Xauhe, S::Xauheho, S::Xauho, S::Xauhoi, S::Xauhoho, S::Xahoihahoiha, S::Xehau, S::Xoi, S::Xoha, S::Xohehohe, S::Xohi, S::Xuhau, S::Yhi, S::Zaihai, S::Zaihu, S::Zauhehu, S::Zeihei, S::Zeihoi, S::Ziheha, S::Zihehau, S::Zihoi, S::Zoihai, S::Zoihohe, S::Zohau, S::Zohehu, S::Zohiho, S::Zohoi, S::Gismu, S::Fuhivla, S::Lujvo, S::Cmevla, S::UnknownCmavo, S::AnyText, S::ZoiDelimiter];
