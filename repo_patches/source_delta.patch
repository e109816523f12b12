From 83bf72e83986880349992b064f71de0555f32fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:46 +0000
Subject: [PATCH 01/11] fix: Span::overlaps_with underflowed on an empty span
 at location 0

---
 src/span.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/span.rs b/src/span.rs
index 2549c71..b4affca 100644
--- a/src/span.rs
+++ b/src/span.rs
@@ -312,7 +312,7 @@ impl Span {
 			left.is_empty() && (right.end == left.start || right.start == left.start)
 		}
 		fn non_commutative_helper(left: Span, right: Span) -> bool {
-			left.contains(right.start) || left.contains(right.end - 1)
+			left.contains(right.start) || (!right.is_empty() && left.contains(right.end - 1))
 		}
 
 		if non_commutative_empty_check(self, other) || non_commutative_empty_check(other, self) {
-- 
2.43.0


From 3e814cdc1440e24cc95624f7974b33d6786d37af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:47 +0000
Subject: [PATCH 02/11] fix: Decomposer::size_hint promised words that may not
 exist

---
 src/decompose/mod.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/decompose/mod.rs b/src/decompose/mod.rs
index e127d8c..336ccc8 100644
--- a/src/decompose/mod.rs
+++ b/src/decompose/mod.rs
@@ -140,12 +140,8 @@ impl<'input> Iterator for Decomposer<'input> {
 	}
 
 	fn size_hint(&self) -> (usize, Option<usize>) {
-		let lower = self
-			.current_chunk
-			.as_slice()
-			.len()
-			.saturating_add(self.chunks.size_hint().0);
-		(lower, None)
+		// the remaining chunks may all turn out to be empty, so only the words already found are certain.
+		(self.current_chunk.as_slice().len(), None)
 	}
 }
 
-- 
2.43.0


From 23559178cf10d1f984ff81cb89909378c929d0c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:47 +0000
Subject: [PATCH 03/11] fix: commas at the end of a chunk prevented its
 decomposition

---
 src/decompose/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/decompose/mod.rs b/src/decompose/mod.rs
index 336ccc8..7a339d7 100644
--- a/src/decompose/mod.rs
+++ b/src/decompose/mod.rs
@@ -68,7 +68,8 @@ fn decompose_single(input: &str) -> Vec<Span> {
 		return vec![to_span(input)];
 	}
 
-	let mut rest = input;
+	// trailing commas carry no meaning, but the loop below could not consume them.
+	let mut rest = input.trim_end_matches(',');
 	let mut chunks = Vec::new();
 	let mut saved_decomposed = None;
 
@@ -92,7 +93,6 @@ fn decompose_single(input: &str) -> Vec<Span> {
 		}
 	}
 
-	rest = rest.trim_end_matches(',');
 	if !rest.is_empty() {
 		chunks.push(to_span(rest));
 	}
-- 
2.43.0


From b2badd12e9b8a5b14651f583e5c8d52188acb00a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:47 +0000
Subject: [PATCH 04/11] fix: two experimental cmavo of the table could never
 match

---
 src/lex/selmaho/classify.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lex/selmaho/classify.rs b/src/lex/selmaho/classify.rs
index 3787602..ca1efa6 100644
--- a/src/lex/selmaho/classify.rs
+++ b/src/lex/selmaho/classify.rs
@@ -55,7 +55,7 @@ impl Selmaho {
 	#[must_use]
 	#[allow(clippy::too_many_lines)] // giant match block
 	pub fn classify(word: &str) -> (Self, bool) {
-		let mut direct_cmavo_check_buf = [0u8; 16];
+		let mut direct_cmavo_check_buf = [0u8; CUHUHU_ETC.len()];
 		let direct_cmavo_check = transform_for_direct_cmavo_check(word, &mut direct_cmavo_check_buf);
 
 		let mut is_experimental = false;
@@ -251,7 +251,7 @@ impl Selmaho {
 				| "se'i'i" | "sei'a" | "sei'u'e" | "si'ei" | "si'i'ai" | "so'au" | "soi'ai" | "soi'au"
 				| "su'ai" | "su'au" | "su'o'o" | "su'oi" | "sy'au" | "tau'u" | "va'ei'a" | "vau'au'o"
 				| "vo'ei'a" | "vu'ai" | "xe'a" | "xe'e" | "xei" | "xi'i'ei" | "xo'au" | "xo'e"
-				| "xy'au" | "zau'u" | "ze'au" | "zy'ei" | " vi'ei'e" => {
+				| "xy'au" | "zau'u" | "ze'au" | "zy'ei" | "vi'ei'e" => {
 					experimental!(Self::Pa)
 				}
 				"pe'e" => Self::Pehe,
-- 
2.43.0


From 6a39bae48345e4dd93317085745ad4ee13c2fc60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:32 +0000
Subject: [PATCH 05/11] fix: an empty delimited quote took the following word
 as its text

---
 src/parse/cst/rules/mod.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/parse/cst/rules/mod.rs b/src/parse/cst/rules/mod.rs
index 21db66e..bce6b06 100644
--- a/src/parse/cst/rules/mod.rs
+++ b/src/parse/cst/rules/mod.rs
@@ -870,7 +870,8 @@ pub struct ZoSumti {
 pub struct ZoiSumti {
 	pub zoi: Zoi,
 	pub starting_delimiter: ZoiDelimiter,
-	pub text: ZoiText,
+	// omitted by the lexer when the quote is empty
+	pub text: Option<ZoiText>,
 	pub ending_delimiter: ZoiDelimiter,
 }
 
@@ -898,9 +899,24 @@ impl TreeNode for ZoiDelimiter {
 	fn for_each_child<'a>(&'a self, _: &mut dyn FnMut(&'a dyn TreeNode)) {}
 }
 
-#[derive(Debug, Parse)]
+#[derive(Debug)]
 pub struct ZoiText(Span);
 
+impl<'arena> Parse<'arena> for ZoiText {
+	fn parse<'a: 'arena>(input: &'a [Token], arena: &'arena Arena) -> ParseResult<'a, Self> {
+		let (input, token) = Token::parse(input, arena)?;
+		if token.selmaho == Selmaho::AnyText {
+			Ok((input, Self(token.span)))
+		} else {
+			let error = crate::parse::cst::Error::ExpectedGot {
+				expected: (&[Selmaho::AnyText] as &[Selmaho]).into(),
+				got: Some(token),
+			};
+			Err(nom::Err::Error(error.with_location(input)))
+		}
+	}
+}
+
 impl TreeNode for ZoiText {
 	fn name(&self) -> &'static str {
 		"ZoiText"
-- 
2.43.0


From 048d4563ac21f8f6af4bb2111f9493918afbd833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:58 +0000
Subject: [PATCH 06/11] fix: a lerfu made with bu kept the zei compound it
 begins from parsing

---
 src/parse/cst/rules/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parse/cst/rules/mod.rs b/src/parse/cst/rules/mod.rs
index bce6b06..e2a3790 100644
--- a/src/parse/cst/rules/mod.rs
+++ b/src/parse/cst/rules/mod.rs
@@ -727,6 +727,7 @@ pub enum LerfuWord<'arena> {
 }
 
 #[derive(Debug, Parse, TreeNode)]
+#[parse(not_after = "Zei<'_>")]
 pub enum Lerfu<'arena> {
 	Bu(
 		Option<Bahe>,
-- 
2.43.0


From bfa7c6011998ecf0eccc12c7827d4631151472e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:07 +0000
Subject: [PATCH 07/11] fix: indicators after a zo or zoi quote could not be
 parsed

---
 src/parse/cst/rules/mod.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/parse/cst/rules/mod.rs b/src/parse/cst/rules/mod.rs
index e2a3790..30dad97 100644
--- a/src/parse/cst/rules/mod.rs
+++ b/src/parse/cst/rules/mod.rs
@@ -758,8 +758,8 @@ pub enum SumtiComponent1<'arena> {
 		LerfuString<'arena>,
 		#[parse(not = "Moi<'_>")] Option<Boi<'arena>>,
 	),
-	Zo(ZoSumti),
-	Zoi(ZoiSumti),
+	Zo(ZoSumti<'arena>),
+	Zoi(ZoiSumti<'arena>),
 	Li(
 		WithFree<'arena, Li<'arena>>,
 		Mekso<'arena>,
@@ -862,18 +862,20 @@ pub struct LaSumti<'arena> {
 }
 
 #[derive(Debug, Parse, TreeNode)]
-pub struct ZoSumti {
+pub struct ZoSumti<'arena> {
 	pub zo: Zo,
 	pub quoted: Token,
+	pub indicators: Option<Indicators<'arena>>,
 }
 
 #[derive(Debug, Parse, TreeNode)]
-pub struct ZoiSumti {
+pub struct ZoiSumti<'arena> {
 	pub zoi: Zoi,
 	pub starting_delimiter: ZoiDelimiter,
 	// omitted by the lexer when the quote is empty
 	pub text: Option<ZoiText>,
 	pub ending_delimiter: ZoiDelimiter,
+	pub indicators: Option<Indicators<'arena>>,
 }
 
 #[derive(Debug, Parse)]
-- 
2.43.0


From eb1a7b49d3a98f68f2d5ba1b5c459bdc15a7fc38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:54 +0000
Subject: [PATCH 08/11] fix: a quote could not be emphasised with ba'e

---
 src/parse/cst/rules/mod.rs     | 8 ++++----
 src/parse/cst/rules/selmaho.rs | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/parse/cst/rules/mod.rs b/src/parse/cst/rules/mod.rs
index 30dad97..3312f71 100644
--- a/src/parse/cst/rules/mod.rs
+++ b/src/parse/cst/rules/mod.rs
@@ -769,7 +769,7 @@ pub enum SumtiComponent1<'arena> {
 
 #[derive(Debug, TreeNode)]
 pub struct LohuSumti<'arena> {
-	pub lohu: Lohu,
+	pub lohu: Lohu<'arena>,
 	pub inner: &'arena [Token],
 	pub lehu: Lehu<'arena>,
 }
@@ -795,7 +795,7 @@ impl<'arena> Parse<'arena> for LohuSumti<'arena> {
 
 #[derive(Debug, Parse, TreeNode)]
 pub struct LuSumti<'arena> {
-	pub lu: Lu,
+	pub lu: Lu<'arena>,
 	pub text: Text<'arena>,
 	pub lihu: Option<Lihu<'arena>>,
 }
@@ -863,14 +863,14 @@ pub struct LaSumti<'arena> {
 
 #[derive(Debug, Parse, TreeNode)]
 pub struct ZoSumti<'arena> {
-	pub zo: Zo,
+	pub zo: Zo<'arena>,
 	pub quoted: Token,
 	pub indicators: Option<Indicators<'arena>>,
 }
 
 #[derive(Debug, Parse, TreeNode)]
 pub struct ZoiSumti<'arena> {
-	pub zoi: Zoi,
+	pub zoi: Zoi<'arena>,
 	pub starting_delimiter: ZoiDelimiter,
 	// omitted by the lexer when the quote is empty
 	pub text: Option<ZoiText>,
diff --git a/src/parse/cst/rules/selmaho.rs b/src/parse/cst/rules/selmaho.rs
index 116fdf0..91d4762 100644
--- a/src/parse/cst/rules/selmaho.rs
+++ b/src/parse/cst/rules/selmaho.rs
@@ -314,8 +314,8 @@ token_types! {
 	Li,
 	Lihu,
 	Loho,
-	#[raw] Lohu,
-	#[raw] Lu,
+	#[no_indicators] Lohu,
+	#[no_indicators] Lu,
 	Luhu,
 	Lujvo,
 	Maho,
@@ -366,9 +366,9 @@ token_types! {
 	#[no_indicators] Zei,
 	Zi,
 	Zihe,
-	#[raw] Zo,
+	#[no_indicators] Zo,
 	Zohu,
-	#[raw] Zoi,
+	#[no_indicators] Zoi,
 }
 
 #[derive(Debug)]
-- 
2.43.0


From 7f85716799e89125e9fad512f993c5ee1191d7e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:39 +0000
Subject: [PATCH 09/11] fix: parse errors pointed at the token after the
 unexpected one

---
 src/parse/cst/rules/selmaho.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/parse/cst/rules/selmaho.rs b/src/parse/cst/rules/selmaho.rs
index 91d4762..299c3f0 100644
--- a/src/parse/cst/rules/selmaho.rs
+++ b/src/parse/cst/rules/selmaho.rs
@@ -17,12 +17,12 @@ pub(in crate::parse::cst::rules) trait SelmahoTypeRaw:
 pub(in crate::parse::cst::rules) fn selmaho_raw<T: SelmahoTypeRaw>(
 	input: &[Token],
 ) -> ParseResult<'_, T> {
-	let mut input = input.iter();
-	T::try_from(input.next().copied())
-		.map(|matched| (input.as_slice(), matched))
+	let mut rest = input.iter();
+	T::try_from(rest.next().copied())
+		.map(|matched| (rest.as_slice(), matched))
 		.map_err(|error| {
 			nom::Err::Error(WithLocation {
-				location: input.as_slice(),
+				location: input,
 				error,
 			})
 		})
-- 
2.43.0


From 7d4d78c83b9d229ddea52eee131ff5cf7947090b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:12 +0000
Subject: [PATCH 10/11] fix: the ke'e of a grouped mathematical operator could
 not be left out

---
 src/parse/cst/rules/mekso.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse/cst/rules/mekso.rs b/src/parse/cst/rules/mekso.rs
index 5610c43..3cb777b 100644
--- a/src/parse/cst/rules/mekso.rs
+++ b/src/parse/cst/rules/mekso.rs
@@ -151,7 +151,7 @@ pub enum Operator3<'arena> {
 	Grouped(
 		WithFree<'arena, Ke<'arena>>,
 		Operator<'arena>,
-		Kehe<'arena>,
+		Option<Kehe<'arena>>,
 		Frees<'arena>,
 	),
 }
-- 
2.43.0


From 9a7e3f72a8c7aabec224f9c7c64a07c86b82337d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:12 +0000
Subject: [PATCH 11/11] fix: a letter made with bu could not be emphasised with
 more than one ba'e

---
 src/parse/cst/rules/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse/cst/rules/mod.rs b/src/parse/cst/rules/mod.rs
index 3312f71..01dfa90 100644
--- a/src/parse/cst/rules/mod.rs
+++ b/src/parse/cst/rules/mod.rs
@@ -730,7 +730,7 @@ pub enum LerfuWord<'arena> {
 #[parse(not_after = "Zei<'_>")]
 pub enum Lerfu<'arena> {
 	Bu(
-		Option<Bahe>,
+		#[parse(with = "many0")] &'arena [Bahe],
 		BuInner,
 		#[parse(with = "many1")] &'arena [Bu],
 		#[parse(with = "many0")] &'arena [Indicators<'arena>],
-- 
2.43.0

