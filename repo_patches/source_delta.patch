From 719d99c64480840b6105dd15a8cbca0a4dcce567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:06 +0000
Subject: [PATCH 001/155] fix: CFB shifts its register with an overlapping copy
 when the register is smaller than a block

---
 CEX/CFB.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/CEX/CFB.cpp b/CEX/CFB.cpp
index ed24c8a..496d3dd 100644
--- a/CEX/CFB.cpp
+++ b/CEX/CFB.cpp
@@ -244,7 +244,7 @@ void CFB::Decrypt128(const std::vector<uint8_t> &Input, size_t InOffset, std::ve
 	// left shift the register
 	if (m_cfbState->IV.size() - m_cfbState->RegisterSize > 0)
 	{
-		MemoryTools::Copy(m_cfbState->IV, m_cfbState->RegisterSize, m_cfbState->IV, 0, m_cfbState->IV.size() - m_cfbState->RegisterSize);
+		MemoryTools::Move(m_cfbState->IV, m_cfbState->RegisterSize, m_cfbState->IV, 0, m_cfbState->IV.size() - m_cfbState->RegisterSize);
 	}
 
 	// copy ciphertext to register
@@ -299,7 +299,7 @@ void CFB::DecryptSegment(const std::vector<uint8_t> &Input, size_t InOffset, std
 		// left shift the register
 		if (Iv.size() - m_cfbState->RegisterSize > 0)
 		{
-			MemoryTools::Copy(Iv, m_cfbState->RegisterSize, Iv, 0, Iv.size() - m_cfbState->RegisterSize);
+			MemoryTools::Move(Iv, m_cfbState->RegisterSize, Iv, 0, Iv.size() - m_cfbState->RegisterSize);
 		}
 
 		// copy ciphertext to register
@@ -334,7 +334,7 @@ void CFB::Encrypt128(const std::vector<uint8_t> &Input, size_t InOffset, std::ve
 	// left shift the register
 	if (m_cfbState->IV.size() - m_cfbState->RegisterSize > 0)
 	{
-		MemoryTools::Copy(m_cfbState->IV, m_cfbState->RegisterSize, m_cfbState->IV, 0, m_cfbState->IV.size() - m_cfbState->RegisterSize);
+		MemoryTools::Move(m_cfbState->IV, m_cfbState->RegisterSize, m_cfbState->IV, 0, m_cfbState->IV.size() - m_cfbState->RegisterSize);
 	}
 
 	// copy cipher text to the register
-- 
2.43.0


From 3825b5e8331b122e65bdc24ddb413c13b5f7086f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:06 +0000
Subject: [PATCH 002/155] fix: CFB accepts a nonce larger than the block size
 and writes outside its register

---
 CEX/CFB.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/CEX/CFB.cpp b/CEX/CFB.cpp
index 496d3dd..05583a8 100644
--- a/CEX/CFB.cpp
+++ b/CEX/CFB.cpp
@@ -188,6 +188,10 @@ void CFB::Initialize(bool Encryption, ISymmetricKey &Parameters)
 	{
 		throw CryptoCipherModeException(Name(), std::string("Initialize"), std::string("Requires a minimum 1 uint8_t of Nonce!"), ErrorCodes::InvalidNonce);
 	}
+	if (Parameters.KeySizes().IVSize() > BLOCK_SIZE)
+	{
+		throw CryptoCipherModeException(Name(), std::string("Initialize"), std::string("The nonce can not be larger than the block size!"), ErrorCodes::InvalidNonce);
+	}
 	if (!SymmetricKeySize::Contains(LegalKeySizes(), Parameters.KeySizes().KeySize()))
 	{
 		throw CryptoCipherModeException(Name(), std::string("Initialize"), std::string("Invalid key size; key must be one of the LegalKeySizes members in length!"), ErrorCodes::InvalidKey);
-- 
2.43.0


From b0c51171dc6159a51e89a509654cb934c139bec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:38 +0000
Subject: [PATCH 003/155] fix: multi-byte counter increase loses the carry when
 the added byte is 0xFF and a carry comes in

---
 CEX/IntegerTools.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/CEX/IntegerTools.h b/CEX/IntegerTools.h
index 425d719..a87353d 100644
--- a/CEX/IntegerTools.h
+++ b/CEX/IntegerTools.h
@@ -1022,7 +1022,7 @@ public:
 			odst = Output[lctr];
 			osrc = ((MAXPOS - lctr) < cinc.size()) ? cinc[MAXPOS - lctr] : 0x00;
 			ndst = odst + osrc + carry;
-			carry = ndst < odst ? 1 : 0;
+			carry = static_cast<uint8_t>((static_cast<uint32_t>(odst) + osrc + carry) >> 8);
 			Output[lctr] = ndst;
 		}
 	}
@@ -1071,7 +1071,7 @@ public:
 			odst = Output[lctr];
 			osrc = ((MAXPOS - lctr) < cinc.size()) ? cinc[MAXPOS - lctr] : 0x00;
 			ndst = static_cast<uint8_t>(odst + osrc + carry);
-			carry = ndst < odst ? 1 : 0;
+			carry = static_cast<uint8_t>((static_cast<uint32_t>(odst) + osrc + carry) >> 8);
 			Output[lctr] = ndst;
 		}
 	}
@@ -1119,7 +1119,7 @@ public:
 			odst = Output[lctr];
 			osrc = ((MAXPOS - lctr) < cinc.size()) ? cinc[MAXPOS - lctr] : 0x00;
 			ndst = static_cast<uint8_t>(odst + osrc + carry);
-			carry = ndst < odst ? 1 : 0;
+			carry = static_cast<uint8_t>((static_cast<uint32_t>(odst) + osrc + carry) >> 8);
 			Output[lctr] = ndst;
 		}
 	}
@@ -1168,7 +1168,7 @@ public:
 			odst = Output[lctr];
 			osrc = ((MAXPOS - lctr) < cinc.size()) ? cinc[MAXPOS - lctr] : 0x00;
 			ndst = static_cast<uint8_t>(odst + osrc + carry);
-			carry = ndst < odst ? 1 : 0;
+			carry = static_cast<uint8_t>((static_cast<uint32_t>(odst) + osrc + carry) >> 8);
 			Output[lctr] = ndst;
 		}
 	}
@@ -1960,7 +1960,7 @@ public:
 			odst = Output[lctr];
 			osrc = (lctr < cinc.size() ? cinc[lctr] : 0x00);
 			ndst = static_cast<uint8_t>(odst + osrc + carry);
-			carry = ndst < odst ? 1 : 0;
+			carry = static_cast<uint8_t>((static_cast<uint32_t>(odst) + osrc + carry) >> 8);
 			Output[lctr] = ndst;
 			++lctr;
 		}
@@ -2008,7 +2008,7 @@ public:
 			odst = Output[lctr];
 			osrc = (lctr < cinc.size() ? cinc[lctr] : 0x00);
 			ndst = static_cast<uint8_t>(odst + osrc + carry);
-			carry = ndst < odst ? 1 : 0;
+			carry = static_cast<uint8_t>((static_cast<uint32_t>(odst) + osrc + carry) >> 8);
 			Output[lctr] = ndst;
 			++lctr;
 		}
@@ -2054,7 +2054,7 @@ public:
 			odst = Output[lctr];
 			osrc = ((lctr - OutOffset < cinc.size()) ? cinc[lctr - OutOffset] : 0x00);
 			ndst = odst + osrc + carry;
-			carry = ndst < odst ? 1 : 0;
+			carry = static_cast<uint8_t>((static_cast<uint32_t>(odst) + osrc + carry) >> 8);
 			Output[lctr] = ndst;
 			++lctr;
 		}
@@ -2101,7 +2101,7 @@ public:
 			odst = Output[lctr];
 			osrc = ((lctr - OutOffset < cinc.size()) ? cinc[lctr - OutOffset] : 0x00);
 			ndst = odst + osrc + carry;
-			carry = ndst < odst ? 1 : 0;
+			carry = static_cast<uint8_t>((static_cast<uint32_t>(odst) + osrc + carry) >> 8);
 			Output[lctr] = ndst;
 			++lctr;
 		}
-- 
2.43.0


From 6c38c6e605beccc79880d743dd6973673ec02c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:38 +0000
Subject: [PATCH 004/155] fix: CMax and CMin select by the top bit of one
 operand instead of comparing

---
 CEX/IntegerTools.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/CEX/IntegerTools.h b/CEX/IntegerTools.h
index a87353d..a0ab60c 100644
--- a/CEX/IntegerTools.h
+++ b/CEX/IntegerTools.h
@@ -2186,7 +2186,7 @@ public:
 	template<typename T>
 	inline static T CMax(T A, T B)
 	{
-		return Select<T>(ExpandTopBit<T>(A), A, B);
+		return Select<T>(ExpandMask<T>(static_cast<T>(A > B)), A, B);
 	}
 
 	/// <summary>
@@ -2247,8 +2247,7 @@ public:
 	template<typename T>
 	inline static T CMin(T A, T B)
 	{
-		// TODO: test this..
-		return Select<T>(ExpandTopBit<T>(B), B, A);
+		return Select<T>(ExpandMask<T>(static_cast<T>(A < B)), A, B);
 	}
 
 	/// <summary>
-- 
2.43.0


From fab3795ae6e750dbda48bc22a87f377ebc973241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:51 +0000
Subject: [PATCH 005/155] fix: bitwise AND and OR of a length that is not a
 multiple of the vector size process only the first tail element

---
 CEX/MemoryTools.h | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/CEX/MemoryTools.h b/CEX/MemoryTools.h
index c4656f4..d18d6cd 100644
--- a/CEX/MemoryTools.h
+++ b/CEX/MemoryTools.h
@@ -170,7 +170,6 @@ public:
 
 		if (Length != 0)
 		{
-			const size_t ELMLEN = sizeof(ArrayA::value_type);
 			pctr = 0;
 
 #if defined(CEX_HAS_AVX) || defined(CEX_HAS_AVX2) || defined(CEX_HAS_AVX512)
@@ -199,9 +198,12 @@ public:
 				}
 			}
 #endif
-			for (i = 0; i < Length - (pctr * ELMLEN); ++i)
+			const uint8_t* pinp = reinterpret_cast<const uint8_t*>(Input.data() + InOffset);
+			uint8_t* potp = reinterpret_cast<uint8_t*>(Output.data() + OutOffset);
+
+			for (i = pctr; i < Length; ++i)
 			{
-				Output[OutOffset + pctr] &= Input[InOffset + pctr];
+				potp[i] &= pinp[i];
 			}
 		}
 	}
@@ -1139,9 +1141,12 @@ public:
 				}
 			}
 #endif
-			for (i = 0; i < Length - (pctr * ELMLEN); ++i)
+			const uint8_t* pinp = reinterpret_cast<const uint8_t*>(Input.data() + InOffset);
+			uint8_t* potp = reinterpret_cast<uint8_t*>(Output.data() + OutOffset);
+
+			for (i = pctr; i < Length; ++i)
 			{
-				Output[OutOffset + pctr] |= Input[InOffset + pctr];
+				potp[i] |= pinp[i];
 			}
 		}
 	}
-- 
2.43.0


From 9e61abefef998ad9836029aefba09177c785195f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:18 +0000
Subject: [PATCH 006/155] fix: BlockToBe merges its result into the previous
 content of the output array

---
 CEX/IntegerTools.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/CEX/IntegerTools.h b/CEX/IntegerTools.h
index a0ab60c..1bd68d6 100644
--- a/CEX/IntegerTools.h
+++ b/CEX/IntegerTools.h
@@ -506,6 +506,8 @@ public:
 
 		for (i = 0; i < Length / VARLEN; ++i)
 		{
+			Output[OutOffset + i] = 0;
+
 			for (j = VARLEN; j > 0; --j)
 			{
 				Output[OutOffset + i] |= static_cast<typename ArrayB::value_type>(Input[InOffset + (i * VARLEN) + (VARLEN - j)]) << (8 * (j - 1));
-- 
2.43.0


From 768bad961452c3c8bd8ae91f30339be7ffb607f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:39 +0000
Subject: [PATCH 007/155] fix: ArrayTools::Contains on a char array reports the
 opposite of membership

---
 CEX/ArrayTools.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CEX/ArrayTools.cpp b/CEX/ArrayTools.cpp
index 66c5d08..b54d950 100644
--- a/CEX/ArrayTools.cpp
+++ b/CEX/ArrayTools.cpp
@@ -15,7 +15,7 @@ bool ArrayTools::Contains(const char* Container, size_t Length, char Value)
 	{
 		x = Container + i;
 
-		if (*x != Value)
+		if (*x == Value)
 		{
 			ret = true;
 		}
-- 
2.43.0


From 6bec73ded94fed5dc8d553984c25ce199b52f964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:43 +0000
Subject: [PATCH 008/155] fix: padding length checks skip the first byte of a
 block and index outside one-byte, empty or out of range blocks

---
 CEX/ESP.cpp     | 15 ++++++++++-----
 CEX/PKCS7.cpp   | 23 ++++++++++++++---------
 CEX/X923.cpp    | 23 ++++++++++++++---------
 CEX/ZeroOne.cpp | 13 +++++++++----
 4 files changed, 47 insertions(+), 27 deletions(-)

diff --git a/CEX/ESP.cpp b/CEX/ESP.cpp
index c51513d..52ac722 100644
--- a/CEX/ESP.cpp
+++ b/CEX/ESP.cpp
@@ -27,9 +27,9 @@ const std::string ESP::Name()
 
 void ESP::AddPadding(std::vector<uint8_t> &Input, size_t Offset, size_t Length)
 {
-	if (Length > Input.size())
+	if (Length > Input.size() || Offset >= Length)
 	{
-		throw CryptoPaddingException(Name(), std::string("AddPadding"), std::string("The length is longer than the array!"), ErrorCodes::InvalidSize);
+		throw CryptoPaddingException(Name(), std::string("AddPadding"), std::string("The length or offset is longer than the array!"), ErrorCodes::InvalidSize);
 	}
 
 	uint8_t pad;
@@ -46,6 +46,11 @@ void ESP::AddPadding(std::vector<uint8_t> &Input, size_t Offset, size_t Length)
 
 size_t ESP::GetBlockLength(const std::vector<uint8_t> &Input)
 {
+	if (Input.empty())
+	{
+		throw CryptoPaddingException(Name(), std::string("GetBlockLength"), std::string("The array can not be empty!"), ErrorCodes::InvalidSize);
+	}
+
 	const size_t BLKLEN = Input.size();
 	const size_t FNLPAD = Input[BLKLEN - 1];
 	size_t ctr;
@@ -70,9 +75,9 @@ size_t ESP::GetBlockLength(const std::vector<uint8_t> &Input)
 
 size_t ESP::GetBlockLength(const std::vector<uint8_t> &Input, size_t Offset, size_t Length)
 {
-	if (Length > Input.size())
+	if (Length > Input.size() || Offset >= Length)
 	{
-		throw CryptoPaddingException(Name(), std::string("GetBlockLength"), std::string("The length is longer than the array!"), ErrorCodes::InvalidSize);
+		throw CryptoPaddingException(Name(), std::string("GetBlockLength"), std::string("The length or offset is longer than the array!"), ErrorCodes::InvalidSize);
 	}
 
 	const size_t BLKLEN = Length;
@@ -82,7 +87,7 @@ size_t ESP::GetBlockLength(const std::vector<uint8_t> &Input, size_t Offset, siz
 	size_t pos;
 
 	inp = 0;
-	inp |= IntegerTools::ExpandMask<size_t>(FNLPAD > BLKLEN);
+	inp |= IntegerTools::ExpandMask<size_t>(FNLPAD > BLKLEN - Offset);
 	pos = BLKLEN - FNLPAD;
 	ctr = BLKLEN - 1;
 
diff --git a/CEX/PKCS7.cpp b/CEX/PKCS7.cpp
index e8f8cbb..8d9355a 100644
--- a/CEX/PKCS7.cpp
+++ b/CEX/PKCS7.cpp
@@ -27,9 +27,9 @@ const std::string PKCS7::Name()
 
 void PKCS7::AddPadding(std::vector<uint8_t> &Input, size_t Offset, size_t Length)
 {
-	if (Length > Input.size())
+	if (Length > Input.size() || Offset >= Length)
 	{
-		throw CryptoPaddingException(Name(), std::string("AddPadding"), std::string("The length is longer than the array!"), ErrorCodes::InvalidSize);
+		throw CryptoPaddingException(Name(), std::string("AddPadding"), std::string("The length or offset is longer than the array!"), ErrorCodes::InvalidSize);
 	}
 
 	size_t i;
@@ -45,13 +45,18 @@ void PKCS7::AddPadding(std::vector<uint8_t> &Input, size_t Offset, size_t Length
 
 size_t PKCS7::GetBlockLength(const std::vector<uint8_t> &Input)
 {
+	if (Input.empty())
+	{
+		throw CryptoPaddingException(Name(), std::string("GetBlockLength"), std::string("The array can not be empty!"), ErrorCodes::InvalidSize);
+	}
+
 	const size_t BLKLEN = Input.size();
 	const uint8_t FNLPAD = Input[BLKLEN - 1];
 	size_t ctr;
 	size_t inp;
 	size_t pos;
 
-	ctr = BLKLEN - 2;
+	ctr = BLKLEN - 1;
 	inp = 0;
 	pos = BLKLEN - FNLPAD;
 
@@ -59,8 +64,8 @@ size_t PKCS7::GetBlockLength(const std::vector<uint8_t> &Input)
 
 	while (ctr != 0)
 	{
-		inp |= (~IntegerTools::IsEqual(Input[ctr], FNLPAD)) & IntegerTools::ExpandMask<uint8_t>(ctr >= pos);
 		--ctr;
+		inp |= (~IntegerTools::IsEqual(Input[ctr], FNLPAD)) & IntegerTools::ExpandMask<uint8_t>(ctr >= pos);
 	}
 
 	IntegerTools::ConditionalCopy(inp, &pos, &BLKLEN, &pos, 1);
@@ -70,9 +75,9 @@ size_t PKCS7::GetBlockLength(const std::vector<uint8_t> &Input)
 
 size_t PKCS7::GetBlockLength(const std::vector<uint8_t> &Input, size_t Offset, size_t Length)
 {
-	if (Length > Input.size())
+	if (Length > Input.size() || Offset >= Length)
 	{
-		throw CryptoPaddingException(Name(), std::string("GetBlockLength"), std::string("The length is longer than the array!"), ErrorCodes::InvalidSize);
+		throw CryptoPaddingException(Name(), std::string("GetBlockLength"), std::string("The length or offset is longer than the array!"), ErrorCodes::InvalidSize);
 	}
 
 	const size_t BLKLEN = Length;
@@ -81,16 +86,16 @@ size_t PKCS7::GetBlockLength(const std::vector<uint8_t> &Input, size_t Offset, s
 	size_t inp;
 	size_t pos;
 
-	ctr = BLKLEN - 2;
+	ctr = BLKLEN - 1;
 	inp = 0;
 	pos = BLKLEN - FNLPAD;
 
-	inp |= IntegerTools::ExpandMask<size_t>(FNLPAD > BLKLEN);
+	inp |= IntegerTools::ExpandMask<size_t>(FNLPAD > BLKLEN - Offset);
 
 	while (ctr != Offset)
 	{
-		inp |= (~IntegerTools::IsEqual(Input[ctr], FNLPAD)) & IntegerTools::ExpandMask<uint8_t>(ctr >= pos);
 		--ctr;
+		inp |= (~IntegerTools::IsEqual(Input[ctr], FNLPAD)) & IntegerTools::ExpandMask<uint8_t>(ctr >= pos);
 	}
 
 	IntegerTools::ConditionalCopy(inp, &pos, &BLKLEN, &pos, 1);
diff --git a/CEX/X923.cpp b/CEX/X923.cpp
index 619c5a7..0826e73 100644
--- a/CEX/X923.cpp
+++ b/CEX/X923.cpp
@@ -31,9 +31,9 @@ void X923::AddPadding(std::vector<uint8_t> &Input, size_t Offset, size_t Length)
 {
 	size_t i;
 
-	if (Length > Input.size())
+	if (Length > Input.size() || Offset >= Length)
 	{
-		throw CryptoPaddingException(Name(), std::string("AddPadding"), std::string("The length is longer than the array!"), ErrorCodes::InvalidSize);
+		throw CryptoPaddingException(Name(), std::string("AddPadding"), std::string("The length or offset is longer than the array!"), ErrorCodes::InvalidSize);
 	}
 
 	for (i = Offset; i < Length - 1; ++i)
@@ -46,6 +46,11 @@ void X923::AddPadding(std::vector<uint8_t> &Input, size_t Offset, size_t Length)
 
 size_t X923::GetBlockLength(const std::vector<uint8_t> &Input)
 {
+	if (Input.empty())
+	{
+		throw CryptoPaddingException(Name(), std::string("GetBlockLength"), std::string("The array can not be empty!"), ErrorCodes::InvalidSize);
+	}
+
 	const size_t BLKLEN = Input.size();
 	const size_t FNLPAD = Input[BLKLEN - 1];
 	size_t ctr;
@@ -55,12 +60,12 @@ size_t X923::GetBlockLength(const std::vector<uint8_t> &Input)
 	inp = 0;
 	inp |= IntegerTools::ExpandMask<size_t>(FNLPAD > BLKLEN);
 	pos = BLKLEN - FNLPAD;
-	ctr = BLKLEN - 2;
+	ctr = BLKLEN - 1;
 
 	while (ctr != 0)
 	{
-		inp |= (~IntegerTools::IsZero(Input[ctr])) & IntegerTools::ExpandMask<uint8_t>(ctr >= pos);
 		--ctr;
+		inp |= (~IntegerTools::IsZero(Input[ctr])) & IntegerTools::ExpandMask<uint8_t>(ctr >= pos);
 	}
 
 	IntegerTools::ConditionalCopy(inp, &pos, &BLKLEN, &pos, 1);
@@ -70,9 +75,9 @@ size_t X923::GetBlockLength(const std::vector<uint8_t> &Input)
 
 size_t X923::GetBlockLength(const std::vector<uint8_t> &Input, size_t Offset, size_t Length)
 {
-	if (Length > Input.size())
+	if (Length > Input.size() || Offset >= Length)
 	{
-		throw CryptoPaddingException(Name(), std::string("GetBlockLength"), std::string("The length is longer than the array!"), ErrorCodes::InvalidSize);
+		throw CryptoPaddingException(Name(), std::string("GetBlockLength"), std::string("The length or offset is longer than the array!"), ErrorCodes::InvalidSize);
 	}
 
 	const size_t BLKLEN = Length;
@@ -82,14 +87,14 @@ size_t X923::GetBlockLength(const std::vector<uint8_t> &Input, size_t Offset, si
 	size_t pos;
 
 	inp = 0;
-	inp |= IntegerTools::ExpandMask<size_t>(FNLPAD > BLKLEN);
+	inp |= IntegerTools::ExpandMask<size_t>(FNLPAD > BLKLEN - Offset);
 	pos = BLKLEN - FNLPAD;
-	ctr = BLKLEN - 2;
+	ctr = BLKLEN - 1;
 
 	while (ctr != Offset)
 	{
-		inp |= (~IntegerTools::IsZero(Input[ctr])) & IntegerTools::ExpandMask<uint8_t>(ctr >= pos);
 		--ctr;
+		inp |= (~IntegerTools::IsZero(Input[ctr])) & IntegerTools::ExpandMask<uint8_t>(ctr >= pos);
 	}
 
 	IntegerTools::ConditionalCopy(inp, &pos, &BLKLEN, &pos, 1);
diff --git a/CEX/ZeroOne.cpp b/CEX/ZeroOne.cpp
index dcc1d6f..de5c3ed 100644
--- a/CEX/ZeroOne.cpp
+++ b/CEX/ZeroOne.cpp
@@ -27,9 +27,9 @@ const std::string ZeroOne::Name()
 
 void ZeroOne::AddPadding(std::vector<uint8_t> &Input, size_t Offset, size_t Length)
 {
-	if (Length > Input.size())
+	if (Length > Input.size() || Offset >= Length)
 	{
-		throw CryptoPaddingException(Name(), std::string("AddPadding"), std::string("The length is longer than the array!"), ErrorCodes::InvalidSize);
+		throw CryptoPaddingException(Name(), std::string("AddPadding"), std::string("The length or offset is longer than the array!"), ErrorCodes::InvalidSize);
 	}
 
 	size_t i;
@@ -44,6 +44,11 @@ void ZeroOne::AddPadding(std::vector<uint8_t> &Input, size_t Offset, size_t Leng
 
 size_t ZeroOne::GetBlockLength(const std::vector<uint8_t> &Input)
 {
+	if (Input.empty())
+	{
+		throw CryptoPaddingException(Name(), std::string("GetBlockLength"), std::string("The array can not be empty!"), ErrorCodes::InvalidSize);
+	}
+
 	const size_t BLKSZE = Input.size();
 	size_t ctr = BLKSZE;
 	size_t pos = BLKSZE;
@@ -71,9 +76,9 @@ size_t ZeroOne::GetBlockLength(const std::vector<uint8_t> &Input)
 
 size_t ZeroOne::GetBlockLength(const std::vector<uint8_t> &Input, size_t Offset, size_t Length)
 {
-	if (Length > Input.size())
+	if (Length > Input.size() || Offset >= Length)
 	{
-		throw CryptoPaddingException(Name(), std::string("GetBlockLength"), std::string("The length is longer than the array!"), ErrorCodes::InvalidSize);
+		throw CryptoPaddingException(Name(), std::string("GetBlockLength"), std::string("The length or offset is longer than the array!"), ErrorCodes::InvalidSize);
 	}
 
 	const size_t BLKSZE = Length;
-- 
2.43.0


From ce602e446d8ed0385c85a2a58ef9209424e3daaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:43 +0000
Subject: [PATCH 009/155] fix: ZeroOne padding reports the None enumeration
 member

---
 CEX/ZeroOne.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CEX/ZeroOne.cpp b/CEX/ZeroOne.cpp
index de5c3ed..381d62d 100644
--- a/CEX/ZeroOne.cpp
+++ b/CEX/ZeroOne.cpp
@@ -17,7 +17,7 @@ ZeroOne::~ZeroOne()
 
 const PaddingModes ZeroOne::Enumeral() 
 { 
-	return PaddingModes::None; 
+	return PaddingModes::ZeroOne; 
 }
 
 const std::string ZeroOne::Name() 
-- 
2.43.0


From 7c33af097ee379b505d2e55afd3dc955de0e7640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:13 +0000
Subject: [PATCH 010/155] fix: ShiftRA and ShiftRL pass a count wider than the
 lane for every shift but zero

---
 CEX/UInt128.h | 4 ++--
 CEX/UInt256.h | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/CEX/UInt128.h b/CEX/UInt128.h
index ad304f4..c65e6cd 100644
--- a/CEX/UInt128.h
+++ b/CEX/UInt128.h
@@ -323,7 +323,7 @@ public:
 	inline static UInt128 ShiftRA(const UInt128 &Value, const int32_t Shift)
 	{
 		CEXASSERT(Shift <= 32, "Shift size is too large");
-		return UInt128(_mm_sra_epi32(Value, _mm_set1_epi32(Shift)));
+		return UInt128(_mm_sra_epi32(Value, _mm_cvtsi32_si128(Shift)));
 	}
 
 	/// <summary>
@@ -337,7 +337,7 @@ public:
 	inline static UInt128 ShiftRL(const UInt128 &Value, const int32_t Shift)
 	{
 		CEXASSERT(Shift <= 32, "Shift size is too large");
-		return UInt128(_mm_srl_epi32(Value, _mm_set1_epi32(Shift)));
+		return UInt128(_mm_srl_epi32(Value, _mm_cvtsi32_si128(Shift)));
 	}
 
 	/// <summary>
diff --git a/CEX/UInt256.h b/CEX/UInt256.h
index b09e7d8..be2612f 100644
--- a/CEX/UInt256.h
+++ b/CEX/UInt256.h
@@ -342,7 +342,7 @@ public:
 	inline static UInt256 ShiftRA(const UInt256 &Value, const int32_t Shift)
 	{
 		CEXASSERT(Shift <= 32, "Shift size is too large");
-		return UInt256(_mm256_sra_epi32(Value, _mm_set1_epi32(Shift)));
+		return UInt256(_mm256_sra_epi32(Value, _mm_cvtsi32_si128(Shift)));
 	}
 
 	/// <summary>
@@ -356,7 +356,7 @@ public:
 	inline static UInt256 ShiftRL(const UInt256 &Value, const int32_t Shift)
 	{
 		CEXASSERT(Shift <= 32, "Shift size is too large");
-		return UInt256(_mm256_srl_epi32(Value, _mm_set1_epi32(Shift)));
+		return UInt256(_mm256_srl_epi32(Value, _mm_cvtsi32_si128(Shift)));
 	}
 
 	/// <summary>
-- 
2.43.0


From 663044a6322248c4d7a7bf168c0127d29ebf544b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:13 +0000
Subject: [PATCH 011/155] fix: increment and decrement of the integer vectors
 leave the operand unchanged

---
 CEX/UInt128.h   | 20 ++++++++++++++++----
 CEX/UInt256.h   | 20 ++++++++++++++++----
 CEX/ULong256.h  | 10 ++++++++--
 CEX/UShort128.h | 20 ++++++++++++++++----
 4 files changed, 56 insertions(+), 14 deletions(-)

diff --git a/CEX/UInt128.h b/CEX/UInt128.h
index c65e6cd..f89433a 100644
--- a/CEX/UInt128.h
+++ b/CEX/UInt128.h
@@ -437,7 +437,9 @@ public:
 	/// </summary>
 	inline UInt128 operator ++ ()
 	{
-		return UInt128(xmm) + UInt128::ONE();
+		*this += UInt128::ONE();
+
+		return UInt128(xmm);
 	}
 
 	/// <summary>
@@ -445,7 +447,11 @@ public:
 	/// </summary>
 	inline UInt128 operator ++ (int32_t)
 	{
-		return UInt128(xmm) + UInt128::ONE();
+		const UInt128 TMP(xmm);
+
+		*this += UInt128::ONE();
+
+		return TMP;
 	}
 
 	/// <summary>
@@ -473,7 +479,9 @@ public:
 	/// </summary>
 	inline UInt128 operator -- ()
 	{
-		return UInt128(xmm) - UInt128::ONE();
+		*this -= UInt128::ONE();
+
+		return UInt128(xmm);
 	}
 
 	/// <summary>
@@ -481,7 +489,11 @@ public:
 	/// </summary>
 	inline UInt128 operator -- (int32_t)
 	{
-		return UInt128(xmm) - UInt128::ONE();
+		const UInt128 TMP(xmm);
+
+		*this -= UInt128::ONE();
+
+		return TMP;
 	}
 
 	/// <summary>
diff --git a/CEX/UInt256.h b/CEX/UInt256.h
index be2612f..2e22347 100644
--- a/CEX/UInt256.h
+++ b/CEX/UInt256.h
@@ -446,7 +446,9 @@ public:
 	/// </summary>
 	inline UInt256 operator ++ ()
 	{
-		return UInt256(ymm) + UInt256::ONE();
+		*this += UInt256::ONE();
+
+		return UInt256(ymm);
 	}
 
 	/// <summary>
@@ -454,7 +456,11 @@ public:
 	/// </summary>
 	inline UInt256 operator ++ (int32_t)
 	{
-		return UInt256(ymm) + UInt256::ONE();
+		const UInt256 TMP(ymm);
+
+		*this += UInt256::ONE();
+
+		return TMP;
 	}
 
 	/// <summary>
@@ -482,7 +488,9 @@ public:
 	/// </summary>
 	inline UInt256 operator -- ()
 	{
-		return UInt256(ymm) - UInt256::ONE();
+		*this -= UInt256::ONE();
+
+		return UInt256(ymm);
 	}
 
 	/// <summary>
@@ -490,7 +498,11 @@ public:
 	/// </summary>
 	inline UInt256 operator -- (int32_t)
 	{
-		return UInt256(ymm) - UInt256::ONE();
+		const UInt256 TMP(ymm);
+
+		*this -= UInt256::ONE();
+
+		return TMP;
 	}
 
 	/// <summary>
diff --git a/CEX/ULong256.h b/CEX/ULong256.h
index 45818bf..9a0b369 100644
--- a/CEX/ULong256.h
+++ b/CEX/ULong256.h
@@ -355,7 +355,9 @@ public:
 	/// </summary>
 	inline ULong256 operator ++ ()
 	{
-		return ULong256(ymm) + ULong256::ONE();
+		*this += ULong256::ONE();
+
+		return ULong256(ymm);
 	}
 
 	/// <summary>
@@ -363,7 +365,11 @@ public:
 	/// </summary>
 	inline ULong256 operator ++ (int32_t)
 	{
-		return ULong256(ymm) + ULong256::ONE();
+		const ULong256 TMP(ymm);
+
+		*this += ULong256::ONE();
+
+		return TMP;
 	}
 
 	/// <summary>
diff --git a/CEX/UShort128.h b/CEX/UShort128.h
index b1e06c8..59af679 100644
--- a/CEX/UShort128.h
+++ b/CEX/UShort128.h
@@ -384,7 +384,9 @@ public:
 	/// </summary>
 	inline UShort128 operator ++ ()
 	{
-		return UShort128(xmm) + ONE();
+		*this += ONE();
+
+		return UShort128(xmm);
 	}
 
 	/// <summary>
@@ -392,7 +394,11 @@ public:
 	/// </summary>
 	inline UShort128 operator ++ (int32_t)
 	{
-		return UShort128(xmm) + ONE();
+		const UShort128 TMP(xmm);
+
+		*this += ONE();
+
+		return TMP;
 	}
 
 	/// <summary>
@@ -420,7 +426,9 @@ public:
 	/// </summary>
 	inline UShort128 operator -- ()
 	{
-		return UShort128(xmm) - ONE();
+		*this -= ONE();
+
+		return UShort128(xmm);
 	}
 
 	/// <summary>
@@ -428,7 +436,11 @@ public:
 	/// </summary>
 	inline UShort128 operator -- (int32_t)
 	{
-		return UShort128(xmm) - ONE();
+		const UShort128 TMP(xmm);
+
+		*this -= ONE();
+
+		return TMP;
 	}
 
 	/// <summary>
-- 
2.43.0


From 7ed9ec234e874a8f433a3bbcbe7575f4cddda574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:13 +0000
Subject: [PATCH 012/155] fix: ULong256 multiplication multiplies 32-bit halves
 instead of 64-bit lanes

---
 CEX/ULong256.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/CEX/ULong256.h b/CEX/ULong256.h
index 9a0b369..8e54a05 100644
--- a/CEX/ULong256.h
+++ b/CEX/ULong256.h
@@ -404,8 +404,8 @@ public:
 		ymm = _mm256_mullo_epi64(ymm, X.ymm);
 #else
 		__m256i tmp1 = _mm256_mul_epu32(ymm, X.ymm);
-		__m256i tmp2 = _mm256_mul_epu32(_mm256_srli_si256(ymm, 4), _mm256_srli_si256(X.ymm, 4));
-		ymm = _mm256_unpacklo_epi32(_mm256_shuffle_epi32(tmp1, _MM_SHUFFLE(0, 0, 2, 0)), _mm256_shuffle_epi32(tmp2, _MM_SHUFFLE(0, 0, 2, 0)));
+		__m256i tmp2 = _mm256_add_epi64(_mm256_mul_epu32(_mm256_srli_epi64(ymm, 32), X.ymm), _mm256_mul_epu32(ymm, _mm256_srli_epi64(X.ymm, 32)));
+		ymm = _mm256_add_epi64(tmp1, _mm256_slli_epi64(tmp2, 32));
 #endif
 	}
 
@@ -420,8 +420,8 @@ public:
 		return ULong256(_mm256_mullo_epi64(ymm, X.ymm));
 #else
 		__m256i tmp1 = _mm256_mul_epu32(ymm, X.ymm);
-		__m256i tmp2 = _mm256_mul_epu32(_mm256_srli_si256(ymm, 4), _mm256_srli_si256(X.ymm, 4));
-		return ULong256(_mm256_unpacklo_epi32(_mm256_shuffle_epi32(tmp1, _MM_SHUFFLE(0, 0, 2, 0)), _mm256_shuffle_epi32(tmp2, _MM_SHUFFLE(0, 0, 2, 0))));
+		__m256i tmp2 = _mm256_add_epi64(_mm256_mul_epu32(_mm256_srli_epi64(ymm, 32), X.ymm), _mm256_mul_epu32(ymm, _mm256_srli_epi64(X.ymm, 32)));
+		return ULong256(_mm256_add_epi64(tmp1, _mm256_slli_epi64(tmp2, 32)));
 #endif
 	}
 
-- 
2.43.0


From 7fa2a707ee5255b59c5f4241d9b8456412be8765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:13 +0000
Subject: [PATCH 013/155] fix: ULong256 absolute value treats its lanes as
 32-bit integers

---
 CEX/ULong256.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/CEX/ULong256.h b/CEX/ULong256.h
index 8e54a05..bab05e2 100644
--- a/CEX/ULong256.h
+++ b/CEX/ULong256.h
@@ -221,7 +221,9 @@ public:
 	/// <returns>The processed ULong256</returns>
 	inline static ULong256 Abs(const ULong256 &Value)
 	{
-		return ULong256(_mm256_abs_epi32(Value.ymm));
+		const __m256i SGN = _mm256_cmpgt_epi64(_mm256_setzero_si256(), Value.ymm);
+
+		return ULong256(_mm256_sub_epi64(_mm256_xor_si256(Value.ymm, SGN), SGN));
 	}
 
 	/// <summary>
-- 
2.43.0


From 2157d4f2fc67108a0298d63839e47c0669cb6fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:13 +0000
Subject: [PATCH 014/155] fix: byte swap of 64-bit and 16-bit lane vectors
 swaps within 32-bit words

---
 CEX/ULong256.h  | 8 ++++----
 CEX/UShort128.h | 6 ------
 2 files changed, 4 insertions(+), 10 deletions(-)

diff --git a/CEX/ULong256.h b/CEX/ULong256.h
index bab05e2..de21556 100644
--- a/CEX/ULong256.h
+++ b/CEX/ULong256.h
@@ -307,8 +307,8 @@ public:
 	{
 		__m256i tmpX = ymm;
 
-		tmpX = _mm256_shufflehi_epi16(tmpX, _MM_SHUFFLE(2, 3, 0, 1));
-		tmpX = _mm256_shufflelo_epi16(tmpX, _MM_SHUFFLE(2, 3, 0, 1));
+		tmpX = _mm256_shufflehi_epi16(tmpX, _MM_SHUFFLE(0, 1, 2, 3));
+		tmpX = _mm256_shufflelo_epi16(tmpX, _MM_SHUFFLE(0, 1, 2, 3));
 
 		return ULong256(_mm256_or_si256(_mm256_srli_epi16(tmpX, 8), _mm256_slli_epi16(tmpX, 8)));
 	}
@@ -324,8 +324,8 @@ public:
 	{
 		__m256i tmpX = X.ymm;
 
-		tmpX = _mm256_shufflehi_epi16(tmpX, _MM_SHUFFLE(2, 3, 0, 1));
-		tmpX = _mm256_shufflelo_epi16(tmpX, _MM_SHUFFLE(2, 3, 0, 1));
+		tmpX = _mm256_shufflehi_epi16(tmpX, _MM_SHUFFLE(0, 1, 2, 3));
+		tmpX = _mm256_shufflelo_epi16(tmpX, _MM_SHUFFLE(0, 1, 2, 3));
 
 		return ULong256(_mm256_or_si256(_mm256_srli_epi16(tmpX, 8), _mm256_slli_epi16(tmpX, 8)));
 	}
diff --git a/CEX/UShort128.h b/CEX/UShort128.h
index 59af679..45a202d 100644
--- a/CEX/UShort128.h
+++ b/CEX/UShort128.h
@@ -274,9 +274,6 @@ public:
 	{
 		__m128i tmpX = xmm;
 
-		tmpX = _mm_shufflehi_epi16(tmpX, _MM_SHUFFLE(2, 3, 0, 1)); // ?
-		tmpX = _mm_shufflelo_epi16(tmpX, _MM_SHUFFLE(2, 3, 0, 1));
-
 		return UShort128(_mm_or_si128(_mm_srli_epi16(tmpX, 8), _mm_slli_epi16(tmpX, 8)));
 	}
 
@@ -291,9 +288,6 @@ public:
 	{
 		__m128i tmpX = X.xmm;
 
-		tmpX = _mm_shufflehi_epi16(tmpX, _MM_SHUFFLE(2, 3, 0, 1));
-		tmpX = _mm_shufflelo_epi16(tmpX, _MM_SHUFFLE(2, 3, 0, 1));
-
 		return UShort128(_mm_or_si128(_mm_srli_epi16(tmpX, 8), _mm_slli_epi16(tmpX, 8)));
 	}
 
-- 
2.43.0


From 4060247664a900d91e507f3ef524190a26c64fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:13 +0000
Subject: [PATCH 015/155] fix: ULong256 LoadULL does not compile and truncates
 its lanes

---
 CEX/ULong256.h | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/CEX/ULong256.h b/CEX/ULong256.h
index de21556..401f246 100644
--- a/CEX/ULong256.h
+++ b/CEX/ULong256.h
@@ -169,12 +169,7 @@ public:
 	template<typename Array>
 	inline void LoadULL(const Array &Input, size_t Offset)
 	{
-		CEXASSERT(sizeof(uint32_t) <= sizeof(Array::value_type), "The input array integer size must be less or equal to uint32");
-
-		zmm = _mm256_set_epi64x(static_cast<uint32_t>(Input[Offset]),
-			static_cast<uint32_t>(Input[Offset + (sizeof(uint32_t) / sizeof(Array::value_type))]),
-			static_cast<uint32_t>(Input[Offset + (sizeof(uint32_t) / sizeof(Array::value_type) * 2)]),
-			static_cast<uint32_t>(Input[Offset + (sizeof(uint32_t) / sizeof(Array::value_type) * 3)]));
+		ymm = _mm256_set_epi64x(static_cast<uint64_t>(Input[Offset]), static_cast<uint64_t>(Input[Offset + 1]), static_cast<uint64_t>(Input[Offset + 2]), static_cast<uint64_t>(Input[Offset + 3]));
 	}
 
 	/// <summary>
-- 
2.43.0


From 37046348a9a8a281170a447c67ed9a1a14340ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:13 +0000
Subject: [PATCH 016/155] fix: order comparisons of the unsigned integer
 vectors compare their lanes as signed

---
 CEX/UInt128.h   | 10 ++++++++--
 CEX/UInt256.h   | 10 ++++++++--
 CEX/ULong256.h  | 10 ++++++++--
 CEX/UShort128.h | 10 ++++++++--
 4 files changed, 32 insertions(+), 8 deletions(-)

diff --git a/CEX/UInt128.h b/CEX/UInt128.h
index f89433a..6977cf9 100644
--- a/CEX/UInt128.h
+++ b/CEX/UInt128.h
@@ -657,7 +657,10 @@ public:
 	/// <param name="X">The values to compare</param>
 	inline UInt128 operator > (UInt128 const &X) const
 	{
-		return UInt128(_mm_cmpgt_epi32(xmm, X.xmm));
+		// the lanes are unsigned, bias them to the signed range of the comparison
+		const __m128i BIAS = _mm_set1_epi32(static_cast<int32_t>(0x80000000UL));
+
+		return UInt128(_mm_cmpgt_epi32(_mm_xor_si128(xmm, BIAS), _mm_xor_si128(X.xmm, BIAS)));
 	}
 
 	/// <summary>
@@ -667,7 +670,10 @@ public:
 	/// <param name="X">The values to compare</param>
 	inline UInt128 operator < (UInt128 const &X) const
 	{
-		return UInt128(_mm_cmplt_epi32(xmm, X.xmm));
+		// the lanes are unsigned, bias them to the signed range of the comparison
+		const __m128i BIAS = _mm_set1_epi32(static_cast<int32_t>(0x80000000UL));
+
+		return UInt128(_mm_cmpgt_epi32(_mm_xor_si128(X.xmm, BIAS), _mm_xor_si128(xmm, BIAS)));
 	}
 
 	/// <summary>
diff --git a/CEX/UInt256.h b/CEX/UInt256.h
index 2e22347..36e5add 100644
--- a/CEX/UInt256.h
+++ b/CEX/UInt256.h
@@ -720,7 +720,10 @@ public:
 	/// <param name="X">The values to compare</param>
 	inline UInt256 operator > (UInt256 const &X) const
 	{
-		return UInt256(_mm256_cmpgt_epi32(ymm, X.ymm));
+		// the lanes are unsigned, bias them to the signed range of the comparison
+		const __m256i BIAS = _mm256_set1_epi32(static_cast<int32_t>(0x80000000UL));
+
+		return UInt256(_mm256_cmpgt_epi32(_mm256_xor_si256(ymm, BIAS), _mm256_xor_si256(X.ymm, BIAS)));
 	}
 
 	/// <summary>
@@ -730,7 +733,10 @@ public:
 	/// <param name="X">The values to compare</param>
 	inline UInt256 operator < (UInt256 const &X) const
 	{
-		return UInt256(_mm256_cmpgt_epi32(X.ymm, ymm));
+		// the lanes are unsigned, bias them to the signed range of the comparison
+		const __m256i BIAS = _mm256_set1_epi32(static_cast<int32_t>(0x80000000UL));
+
+		return UInt256(_mm256_cmpgt_epi32(_mm256_xor_si256(X.ymm, BIAS), _mm256_xor_si256(ymm, BIAS)));
 	}
 
 	/// <summary>
diff --git a/CEX/ULong256.h b/CEX/ULong256.h
index 401f246..6258f15 100644
--- a/CEX/ULong256.h
+++ b/CEX/ULong256.h
@@ -609,7 +609,10 @@ public:
 	/// <param name="X">The values to compare</param>
 	inline ULong256 operator > (ULong256 const &X) const
 	{
-		return ULong256(_mm256_cmpgt_epi64(ymm, X.ymm));
+		// the lanes are unsigned, bias them to the signed range of the comparison
+		const __m256i BIAS = _mm256_set1_epi64x(static_cast<int64_t>(0x8000000000000000ULL));
+
+		return ULong256(_mm256_cmpgt_epi64(_mm256_xor_si256(ymm, BIAS), _mm256_xor_si256(X.ymm, BIAS)));
 	}
 
 	/// <summary>
@@ -619,7 +622,10 @@ public:
 	/// <param name="X">The values to compare</param>
 	inline ULong256 operator < (ULong256 const &X) const
 	{
-		return ULong256(_mm256_cmpgt_epi64(X.ymm, ymm));
+		// the lanes are unsigned, bias them to the signed range of the comparison
+		const __m256i BIAS = _mm256_set1_epi64x(static_cast<int64_t>(0x8000000000000000ULL));
+
+		return ULong256(_mm256_cmpgt_epi64(_mm256_xor_si256(X.ymm, BIAS), _mm256_xor_si256(ymm, BIAS)));
 	}
 
 	/// <summary>
diff --git a/CEX/UShort128.h b/CEX/UShort128.h
index 45a202d..e1442a6 100644
--- a/CEX/UShort128.h
+++ b/CEX/UShort128.h
@@ -596,7 +596,10 @@ public:
 	/// <param name="X">The values to compare</param>
 	inline UShort128 operator > (UShort128 const &X) const
 	{
-		return UShort128(_mm_cmpgt_epi16(xmm, X.xmm));
+		// the lanes are unsigned, bias them to the signed range of the comparison
+		const __m128i BIAS = _mm_set1_epi16(-32768);
+
+		return UShort128(_mm_cmpgt_epi16(_mm_xor_si128(xmm, BIAS), _mm_xor_si128(X.xmm, BIAS)));
 	}
 
 	/// <summary>
@@ -606,7 +609,10 @@ public:
 	/// <param name="X">The values to compare</param>
 	inline UShort128 operator < (UShort128 const &X) const
 	{
-		return UShort128(_mm_cmplt_epi16(xmm, X.xmm));
+		// the lanes are unsigned, bias them to the signed range of the comparison
+		const __m128i BIAS = _mm_set1_epi16(-32768);
+
+		return UShort128(_mm_cmpgt_epi16(_mm_xor_si128(X.xmm, BIAS), _mm_xor_si128(xmm, BIAS)));
 	}
 
 	/// <summary>
-- 
2.43.0


From 3737d26514b42edd14731b0d976c3c5a35961fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:13 +0000
Subject: [PATCH 017/155] fix: UShort128 Transpose8 interleaves the rows in the
 wrong order

---
 CEX/UShort128.h | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/CEX/UShort128.h b/CEX/UShort128.h
index e1442a6..164e85f 100644
--- a/CEX/UShort128.h
+++ b/CEX/UShort128.h
@@ -315,7 +315,7 @@ public:
 	/// <param name="X7">Operand 7</param>
 	inline static void Transpose8(UShort128 &X0, UShort128 &X1, UShort128 &X2, UShort128 &X3, UShort128 &X4, UShort128 &X5, UShort128 &X6, UShort128 &X7)
 	{
-		__m128i T0 = _mm_unpacklo_epi16(X0.xmm, X1.xmm); // TODO: check this
+		__m128i T0 = _mm_unpacklo_epi16(X0.xmm, X1.xmm);
 		__m128i T1 = _mm_unpackhi_epi16(X0.xmm, X1.xmm);
 		__m128i T2 = _mm_unpacklo_epi16(X2.xmm, X3.xmm);
 		__m128i T3 = _mm_unpackhi_epi16(X2.xmm, X3.xmm);
@@ -324,23 +324,23 @@ public:
 		__m128i T6 = _mm_unpacklo_epi16(X6.xmm, X7.xmm);
 		__m128i T7 = _mm_unpackhi_epi16(X6.xmm, X7.xmm);
 
-		__m128i M0 = _mm_unpacklo_epi32(T0, T1);
-		__m128i M1 = _mm_unpackhi_epi32(T0, T1);
-		__m128i M2 = _mm_unpacklo_epi32(T2, T3);
-		__m128i M3 = _mm_unpackhi_epi32(T2, T3);
-		__m128i M4 = _mm_unpacklo_epi32(T4, T5);
-		__m128i M5 = _mm_unpackhi_epi32(T4, T5);
-		__m128i M6 = _mm_unpacklo_epi32(T6, T7);
-		__m128i M7 = _mm_unpackhi_epi32(T6, T7);
-
-		X0.xmm = _mm_unpacklo_epi64(M0, M1);
-		X1.xmm = _mm_unpackhi_epi64(M0, M1);
-		X2.xmm = _mm_unpacklo_epi64(M2, M3);
-		X3.xmm = _mm_unpackhi_epi64(M2, M3);
-		X4.xmm = _mm_unpacklo_epi64(M4, M5);
-		X5.xmm = _mm_unpackhi_epi64(M4, M5);
-		X6.xmm = _mm_unpacklo_epi64(M6, M7);
-		X7.xmm = _mm_unpackhi_epi64(M6, M7);
+		__m128i M0 = _mm_unpacklo_epi32(T0, T2);
+		__m128i M1 = _mm_unpackhi_epi32(T0, T2);
+		__m128i M2 = _mm_unpacklo_epi32(T1, T3);
+		__m128i M3 = _mm_unpackhi_epi32(T1, T3);
+		__m128i M4 = _mm_unpacklo_epi32(T4, T6);
+		__m128i M5 = _mm_unpackhi_epi32(T4, T6);
+		__m128i M6 = _mm_unpacklo_epi32(T5, T7);
+		__m128i M7 = _mm_unpackhi_epi32(T5, T7);
+
+		X0.xmm = _mm_unpacklo_epi64(M0, M4);
+		X1.xmm = _mm_unpackhi_epi64(M0, M4);
+		X2.xmm = _mm_unpacklo_epi64(M1, M5);
+		X3.xmm = _mm_unpackhi_epi64(M1, M5);
+		X4.xmm = _mm_unpacklo_epi64(M2, M6);
+		X5.xmm = _mm_unpackhi_epi64(M2, M6);
+		X6.xmm = _mm_unpacklo_epi64(M3, M7);
+		X7.xmm = _mm_unpackhi_epi64(M3, M7);
 	}
 
 	//~~~ Operators~~~//
-- 
2.43.0


From 0904cd6f151ee9a10efa4e28c00dfdbf40492cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:01 +0000
Subject: [PATCH 018/155] fix: ECDSAParameters.h shares its include guard with
 ECDHParameters.h

---
 CEX/ECDSAParameters.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CEX/ECDSAParameters.h b/CEX/ECDSAParameters.h
index 9dd02ec..a517c6f 100644
--- a/CEX/ECDSAParameters.h
+++ b/CEX/ECDSAParameters.h
@@ -1,5 +1,5 @@
-#ifndef CEX_ECDHPARAMETERS_H
-#define CEX_ECDHPARAMETERS_H
+#ifndef CEX_ECDSAPARAMETERS_H
+#define CEX_ECDSAPARAMETERS_H
 
 #include "CexDomain.h"
 #include "AsymmetricParameters.h"
-- 
2.43.0


From 0be9eda942975fa103fee7d1f4442ebbd902d3fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:28 +0000
Subject: [PATCH 019/155] fix: object copies advance by whole objects instead
 of bytes and run past the object

---
 CEX/MemoryTools.h | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/CEX/MemoryTools.h b/CEX/MemoryTools.h
index d18d6cd..87647a8 100644
--- a/CEX/MemoryTools.h
+++ b/CEX/MemoryTools.h
@@ -497,6 +497,7 @@ public:
 	inline static void CopyFromObject(const Object* Input, Array &Output, size_t OutOffset, size_t Length)
 	{
 		const size_t ELMLEN = sizeof(Array::value_type);
+		const uint8_t* inp = reinterpret_cast<const uint8_t*>(Input);
 		size_t pctr;
 
 		CEXASSERT((Output.size() - OutOffset) * ELMLEN >= Length, "Length is larger than output size");
@@ -521,11 +522,11 @@ public:
 				while (pctr != ALNLEN)
 				{
 #	if defined(CEX_HAS_AVX512)
-					COPY512FROMOBJECT(Input + pctr, Output, OutOffset + pctr);
+					COPY512FROMOBJECT(inp + (pctr * ELMLEN), Output, OutOffset + pctr);
 #	elif defined(CEX_HAS_AVX2)
-					COPY256FROMOBJECT(Input + pctr, Output, OutOffset + pctr);
+					COPY256FROMOBJECT(inp + (pctr * ELMLEN), Output, OutOffset + pctr);
 #	elif defined(CEX_HAS_AVX)
-					COPY128FROMOBJECT(Input + pctr, Output, OutOffset + pctr);
+					COPY128FROMOBJECT(inp + (pctr * ELMLEN), Output, OutOffset + pctr);
 #	endif
 					pctr += SMDBLK;
 				}
@@ -534,7 +535,7 @@ public:
 
 			if (pctr * ELMLEN != Length)
 			{
-				std::memcpy(&Output[OutOffset + pctr], Input + pctr, Length - (pctr * ELMLEN));
+				std::memcpy(&Output[OutOffset + pctr], inp + (pctr * ELMLEN), Length - (pctr * ELMLEN));
 			}
 		}
 	}
@@ -554,6 +555,7 @@ public:
 	inline static void CopyToObject(const Array &Input, size_t InOffset, Object* Output, size_t Length)
 	{
 		const size_t ELMLEN = sizeof(Array::value_type);
+		uint8_t* otp = reinterpret_cast<uint8_t*>(Output);
 		size_t pctr;
 
 		CEXASSERT((Input.size() - InOffset) * ELMLEN >= Length, "Length is larger than output size");
@@ -578,11 +580,11 @@ public:
 				while (pctr != ALNLEN)
 				{
 #	if defined(CEX_HAS_AVX512)
-					COPY512TOOBJECT(Input, InOffset + pctr, Output + pctr);
+					COPY512TOOBJECT(Input, InOffset + pctr, otp + (pctr * ELMLEN));
 #	elif defined(CEX_HAS_AVX2)
-					COPY256TOOBJECT(Input, InOffset + pctr, Output + pctr);
+					COPY256TOOBJECT(Input, InOffset + pctr, otp + (pctr * ELMLEN));
 #	elif defined(CEX_HAS_AVX)
-					COPY128TOOBJECT(Input, InOffset + pctr, Output + pctr);
+					COPY128TOOBJECT(Input, InOffset + pctr, otp + (pctr * ELMLEN));
 #	endif
 					pctr += SMDBLK;
 				}
@@ -591,7 +593,7 @@ public:
 
 			if (pctr * ELMLEN != Length)
 			{
-				std::memcpy(Output + pctr, &Input[InOffset + pctr], Length - (pctr * ELMLEN));
+				std::memcpy(otp + (pctr * ELMLEN), &Input[InOffset + pctr], Length - (pctr * ELMLEN));
 			}
 		}
 	}
-- 
2.43.0


From 55e6828b8502ef3ff03b95e3e5b14d5f15b2cfc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:15 +0000
Subject: [PATCH 020/155] fix: asymmetric parameter sets KYBERS1P1632,
 SPXPS6S512SHAKE and XMSSSHA2256H10 do not convert to and from their names

---
 CEX/AsymmetricParameters.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/CEX/AsymmetricParameters.cpp b/CEX/AsymmetricParameters.cpp
index 265801a..a28bd9f 100644
--- a/CEX/AsymmetricParameters.cpp
+++ b/CEX/AsymmetricParameters.cpp
@@ -29,6 +29,9 @@ std::string AsymmetricTransformConvert::ToName(AsymmetricParameters Enumeral)
 	case AsymmetricParameters::ECDSAS2P25519S:
 		name = std::string("ECDSAS2P25519S");
 		break;
+	case AsymmetricParameters::KYBERS1P1632:
+		name = std::string("KYBERS1P1632");
+		break;
 	case AsymmetricParameters::KYBERS3P2400:
 		name = std::string("KYBERS3P2400");
 		break;
@@ -59,6 +62,9 @@ std::string AsymmetricTransformConvert::ToName(AsymmetricParameters Enumeral)
 	case AsymmetricParameters::SPXPS5S256SHAKE:
 		name = std::string("SPXPS5S256SHAKE");
 		break;
+	case AsymmetricParameters::SPXPS6S512SHAKE:
+		name = std::string("SPXPS6S512SHAKE");
+		break;
 	case AsymmetricParameters::XMSSSHA2256H10:
 		name = std::string("XMSSSHA2256H10");
 		break;
@@ -231,6 +237,10 @@ AsymmetricParameters AsymmetricTransformConvert::FromName(std::string &Name)
 	{
 		tname = AsymmetricParameters::ECDSAS2P25519S;
 	}
+	else if (Name == std::string("KYBERS1P1632"))
+	{
+		tname = AsymmetricParameters::KYBERS1P1632;
+	}
 	else if (Name == std::string("KYBERS3P2400"))
 	{
 		tname = AsymmetricParameters::KYBERS3P2400;
@@ -271,9 +281,13 @@ AsymmetricParameters AsymmetricTransformConvert::FromName(std::string &Name)
 	{
 		tname = AsymmetricParameters::SPXPS5S256SHAKE;
 	}
+	else if (Name == std::string("SPXPS6S512SHAKE"))
+	{
+		tname = AsymmetricParameters::SPXPS6S512SHAKE;
+	}
 	else if (Name == std::string("XMSSSHA2256H10"))
 	{
-		tname = AsymmetricParameters::XMSSSHA2256H16;
+		tname = AsymmetricParameters::XMSSSHA2256H10;
 	}
 	else if (Name == std::string("XMSSSHA2256H16"))
 	{
-- 
2.43.0


From 7f088d67a87f79f1fe06ecb20f990f3ad891d19d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:15 +0000
Subject: [PATCH 021/155] fix: symmetric ciphers AES and TSXR96K512 do not
 convert to and from their names

---
 CEX/SymmetricCiphers.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/CEX/SymmetricCiphers.cpp b/CEX/SymmetricCiphers.cpp
index ad9e278..3abc3ef 100644
--- a/CEX/SymmetricCiphers.cpp
+++ b/CEX/SymmetricCiphers.cpp
@@ -83,6 +83,9 @@ std::string SymmetricCipherConvert::ToName(SymmetricCiphers Enumeral)
 		case SymmetricCiphers::TSX512:
 			name = std::string("TSX512");
 			break;
+		case SymmetricCiphers::TSXR96K512:
+			name = std::string("TSXR96K512");
+			break;
 		case SymmetricCiphers::TSX1024:
 			name = std::string("TSX1024");
 			break;
@@ -101,7 +104,7 @@ SymmetricCiphers SymmetricCipherConvert::FromName(std::string &Name)
 {
 	SymmetricCiphers tname;
 
-	if (Name == std::string("Rijndael"))
+	if (Name == std::string("AES") || Name == std::string("Rijndael"))
 	{
 		tname = SymmetricCiphers::AES;
 	}
-- 
2.43.0


From 1ff3339ffc3741ffd50b2ea47c87000f99098dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:15 +0000
Subject: [PATCH 022/155] fix: the SHAKE and HKDS key derivation members do not
 convert to and from their names

---
 CEX/Kdfs.cpp | 42 ++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 42 insertions(+)

diff --git a/CEX/Kdfs.cpp b/CEX/Kdfs.cpp
index 4f8b3c7..df5d409 100644
--- a/CEX/Kdfs.cpp
+++ b/CEX/Kdfs.cpp
@@ -26,6 +26,15 @@ std::string KdfConvert::ToName(Kdfs Enumeral)
 		case Kdfs::PBKDF2512:
 			name = std::string("PBKDF2512");
 			break;
+		case Kdfs::SHAKE128:
+			name = std::string("SHAKE128");
+			break;
+		case Kdfs::SHAKE256:
+			name = std::string("SHAKE256");
+			break;
+		case Kdfs::SHAKE512:
+			name = std::string("SHAKE512");
+			break;
 		case Kdfs::SCBKDF128:
 			name = std::string("SCBKDF128");
 			break;
@@ -38,6 +47,15 @@ std::string KdfConvert::ToName(Kdfs Enumeral)
 		case Kdfs::SCBKDF1024:
 			name = std::string("SCBKDF1024");
 			break;
+		case Kdfs::HKDS128:
+			name = std::string("HKDS128");
+			break;
+		case Kdfs::HKDS256:
+			name = std::string("HKDS256");
+			break;
+		case Kdfs::HKDS512:
+			name = std::string("HKDS512");
+			break;
 		default:
 			name = std::string("None");
 			break;
@@ -74,6 +92,18 @@ Kdfs KdfConvert::FromName(std::string &Name)
 	{
 		tname = Kdfs::PBKDF2512;
 	}
+	else if (Name == std::string("SHAKE128"))
+	{
+		tname = Kdfs::SHAKE128;
+	}
+	else if (Name == std::string("SHAKE256"))
+	{
+		tname = Kdfs::SHAKE256;
+	}
+	else if (Name == std::string("SHAKE512"))
+	{
+		tname = Kdfs::SHAKE512;
+	}
 	else if (Name == std::string("SCBKDF128"))
 	{
 		tname = Kdfs::SCBKDF128;
@@ -90,6 +120,18 @@ Kdfs KdfConvert::FromName(std::string &Name)
 	{
 		tname = Kdfs::SCBKDF1024;
 	}
+	else if (Name == std::string("HKDS128"))
+	{
+		tname = Kdfs::HKDS128;
+	}
+	else if (Name == std::string("HKDS256"))
+	{
+		tname = Kdfs::HKDS256;
+	}
+	else if (Name == std::string("HKDS512"))
+	{
+		tname = Kdfs::HKDS512;
+	}
 	else
 	{
 		tname = Kdfs::None;
-- 
2.43.0


From 2f8ee4b4b43a832be22525b2f50badc51eb9df08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:15 +0000
Subject: [PATCH 023/155] fix: the CryptoKmsException type does not convert to
 and from its name

---
 CEX/ExceptionTypes.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/CEX/ExceptionTypes.cpp b/CEX/ExceptionTypes.cpp
index 086dca2..c925318 100644
--- a/CEX/ExceptionTypes.cpp
+++ b/CEX/ExceptionTypes.cpp
@@ -29,6 +29,9 @@ std::string ExceptionTypeConvert::ToName(ExceptionTypes Enumeral)
 	case ExceptionTypes::CryptoKdfException:
 		name = std::string("CryptoKdfException");
 		break;
+	case ExceptionTypes::CryptoKmsException:
+		name = std::string("CryptoKmsException");
+		break;
 	case ExceptionTypes::CryptoMacException:
 		name = std::string("CryptoMacException");
 		break;
@@ -84,6 +87,10 @@ ExceptionTypes ExceptionTypeConvert::FromName(std::string &Name)
 	{
 		tname = ExceptionTypes::CryptoKdfException;
 	}
+	else if (Name == std::string("CryptoKmsException"))
+	{
+		tname = ExceptionTypes::CryptoKmsException;
+	}
 	else if (Name == std::string("CryptoMacException"))
 	{
 		tname = ExceptionTypes::CryptoMacException;
-- 
2.43.0


From 393f89fb175dede78adc5d062294a2a0d8c1a6fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:15 +0000
Subject: [PATCH 024/155] fix: stream authenticators KPA and KMAC are named
 after unrelated MACs

---
 CEX/StreamAuthenticators.cpp | 35 +++++++++++++++++++++++++++++++++--
 1 file changed, 33 insertions(+), 2 deletions(-)

diff --git a/CEX/StreamAuthenticators.cpp b/CEX/StreamAuthenticators.cpp
index ccf9d45..a24334b 100644
--- a/CEX/StreamAuthenticators.cpp
+++ b/CEX/StreamAuthenticators.cpp
@@ -4,12 +4,43 @@ NAMESPACE_ENUMERATION
 
 std::string StreamAuthenticatorConvert::ToName(StreamAuthenticators Enumeral)
 {
-	return MacConvert::ToName(static_cast<Macs>(Enumeral));
+	std::string name;
+
+	switch (Enumeral)
+	{
+		// these members share their values with unrelated mac members
+		case StreamAuthenticators::KPA:
+			name = std::string("KPA");
+			break;
+		case StreamAuthenticators::KMAC:
+			name = std::string("KMAC");
+			break;
+		default:
+			name = MacConvert::ToName(static_cast<Macs>(Enumeral));
+			break;
+	}
+
+	return name;
 }
 
 StreamAuthenticators StreamAuthenticatorConvert::FromName(std::string &Name)
 {
-	return static_cast<StreamAuthenticators>(MacConvert::FromName(Name));
+	StreamAuthenticators tname;
+
+	if (Name == std::string("KPA"))
+	{
+		tname = StreamAuthenticators::KPA;
+	}
+	else if (Name == std::string("KMAC"))
+	{
+		tname = StreamAuthenticators::KMAC;
+	}
+	else
+	{
+		tname = static_cast<StreamAuthenticators>(MacConvert::FromName(Name));
+	}
+
+	return tname;
 }
 
 NAMESPACE_ENUMERATIONEND
\ No newline at end of file
-- 
2.43.0


From d8d3e6a7d0c3421784125264944fbe237cfe23c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:15 +0000
Subject: [PATCH 025/155] fix: the stream cipher factory creates ChaChaP20 for
 the CSX512 members

---
 CEX/StreamCipherFromName.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CEX/StreamCipherFromName.cpp b/CEX/StreamCipherFromName.cpp
index 89c56b5..8112572 100644
--- a/CEX/StreamCipherFromName.cpp
+++ b/CEX/StreamCipherFromName.cpp
@@ -42,12 +42,12 @@ IStreamCipher* StreamCipherFromName::GetInstance(StreamCiphers StreamCipherType)
 			}
 			case StreamCiphers::CSX512:
 			{
-				cptr = new ChaChaP20(false);
+				cptr = new CSX512(false);
 				break;
 			}
 			case StreamCiphers::CSXR80K512:
 			{
-				cptr = new ChaChaP20(true);
+				cptr = new CSX512(true);
 				break;
 			}
 			case StreamCiphers::RCS:
-- 
2.43.0


From d451f968cd9d56721ae7dd41bda968f70441c5fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:15 +0000
Subject: [PATCH 026/155] fix: TSX512 and TSX1024 report the TSX256 enumeration
 member

---
 CEX/TSX1024.cpp | 2 +-
 CEX/TSX512.cpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/CEX/TSX1024.cpp b/CEX/TSX1024.cpp
index 757b156..1bb6e06 100644
--- a/CEX/TSX1024.cpp
+++ b/CEX/TSX1024.cpp
@@ -107,7 +107,7 @@ const StreamCiphers TSX1024::Enumeral()
 	auth = IsAuthenticator() ? 
 		StreamAuthenticators::KMAC512 : 
 		StreamAuthenticators::None;
-	tmpn = Enumeration::StreamCipherConvert::FromDescription(StreamCiphers::TSX256, auth);
+	tmpn = Enumeration::StreamCipherConvert::FromDescription(StreamCiphers::TSX1024, auth);
 
 	return tmpn;
 }
diff --git a/CEX/TSX512.cpp b/CEX/TSX512.cpp
index 5ea5385..2b704ad 100644
--- a/CEX/TSX512.cpp
+++ b/CEX/TSX512.cpp
@@ -107,7 +107,7 @@ const StreamCiphers TSX512::Enumeral()
 	auth = IsAuthenticator() ? 
 		StreamAuthenticators::KMAC512 : 
 		StreamAuthenticators::None;
-	tmpn = Enumeration::StreamCipherConvert::FromDescription(StreamCiphers::TSX256, auth);
+	tmpn = Enumeration::StreamCipherConvert::FromDescription(StreamCiphers::TSX512, auth);
 
 	return tmpn;
 }
-- 
2.43.0


From cc2157b91c45aafc2043c8a341e4f241ce2d963e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:15 +0000
Subject: [PATCH 027/155] fix: the prng factory creates an HCR with SHA2-256
 for the SHA2-512 member

---
 CEX/PrngFromName.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CEX/PrngFromName.cpp b/CEX/PrngFromName.cpp
index 41c0cba..567eafa 100644
--- a/CEX/PrngFromName.cpp
+++ b/CEX/PrngFromName.cpp
@@ -48,7 +48,7 @@ IPrng* PrngFromName::GetInstance(Prngs PrngType, Providers ProviderType)
 			}
 			case Prngs::HCRS512:
 			{
-				rptr = new HCR(SHA2Digests::SHA2256, ProviderType);
+				rptr = new HCR(SHA2Digests::SHA2512, ProviderType);
 				break;
 			}
 			default:
-- 
2.43.0


From b28f6898146589c2df78fb42d5aae5dbff97cce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:15 +0000
Subject: [PATCH 028/155] fix: the Dilithium, ECDSA and SphincsPlus signers
 report the identity of another signer

---
 CEX/Dilithium.cpp   | 2 +-
 CEX/ECDSA.cpp       | 2 +-
 CEX/SphincsPlus.cpp | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/CEX/Dilithium.cpp b/CEX/Dilithium.cpp
index c99e577..b0ef97a 100644
--- a/CEX/Dilithium.cpp
+++ b/CEX/Dilithium.cpp
@@ -89,7 +89,7 @@ Dilithium::~Dilithium()
 
 const AsymmetricPrimitives Dilithium::Enumeral()
 {
-	return AsymmetricPrimitives::SphincsPlus;
+	return AsymmetricPrimitives::Dilithium;
 }
 
 const bool Dilithium::IsInitialized()
diff --git a/CEX/ECDSA.cpp b/CEX/ECDSA.cpp
index 3af96b7..daf8016 100644
--- a/CEX/ECDSA.cpp
+++ b/CEX/ECDSA.cpp
@@ -105,7 +105,7 @@ ECDSA::~ECDSA()
 
 const AsymmetricPrimitives ECDSA::Enumeral()
 {
-	return AsymmetricPrimitives::SphincsPlus;
+	return AsymmetricPrimitives::ECDSA;
 }
 
 const bool ECDSA::IsInitialized()
diff --git a/CEX/SphincsPlus.cpp b/CEX/SphincsPlus.cpp
index a77a0aa..3e6fb83 100644
--- a/CEX/SphincsPlus.cpp
+++ b/CEX/SphincsPlus.cpp
@@ -103,7 +103,7 @@ const std::string SphincsPlus::Name()
 {
 	std::string ret;
 
-	ret = AsymmetricPrimitiveConvert::ToName(AsymmetricPrimitives::Dilithium) + std::string("") + 
+	ret = AsymmetricPrimitiveConvert::ToName(AsymmetricPrimitives::SphincsPlus) + std::string("-") + 
 		SphincsPlusParameterConvert::ToName(m_sphincsState->Parameters);
 
 	return ret;
-- 
2.43.0


From 4e464612bd6c94fe3e36dc916bd7e6e333fceae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:22 +0000
Subject: [PATCH 029/155] fix: RHX and SHX free a key-expansion KDF that the
 caller still owns

---
 CEX/RHX.cpp | 7 +++++++
 CEX/SHX.cpp | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/CEX/RHX.cpp b/CEX/RHX.cpp
index 81aa40e..a25af11 100644
--- a/CEX/RHX.cpp
+++ b/CEX/RHX.cpp
@@ -95,6 +95,13 @@ RHX::~RHX()
 			m_kdfGenerator.reset(nullptr);
 		}
 	}
+	else
+	{
+		if (m_kdfGenerator != nullptr)
+		{
+			m_kdfGenerator.release();
+		}
+	}
 }
 
 //~~~Accessors~~~//
diff --git a/CEX/SHX.cpp b/CEX/SHX.cpp
index 4cc145f..baad0f1 100644
--- a/CEX/SHX.cpp
+++ b/CEX/SHX.cpp
@@ -93,6 +93,13 @@ SHX::~SHX()
 			m_kdfGenerator.reset(nullptr);
 		}
 	}
+	else
+	{
+		if (m_kdfGenerator != nullptr)
+		{
+			m_kdfGenerator.release();
+		}
+	}
 }
 
 //~~~Accessors~~~//
-- 
2.43.0


From bf82dbe5b19f4e8272fc75d48a8f260021faf131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:22 +0000
Subject: [PATCH 030/155] fix: standard AES accepts a 512-bit key of which it
 uses only 128 bits, leaving round keys zero

---
 CEX/RHX.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/CEX/RHX.cpp b/CEX/RHX.cpp
index a25af11..c367be2 100644
--- a/CEX/RHX.cpp
+++ b/CEX/RHX.cpp
@@ -40,6 +40,11 @@ public:
 		Extension(CipherExtension),
 		Destroyed(IsDestroyed)
 	{
+		// the standard rijndael key schedule has no 512-bit form
+		if (Extension == BlockCipherExtensions::None)
+		{
+			LegalKeySizes.pop_back();
+		}
 	}
 
 	~RhxState()
-- 
2.43.0


From 0d4ec193569ff227286c15a692bcf7a29c1a736d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:37 +0000
Subject: [PATCH 031/155] fix: HKDF, KDF2 and PBKDF2 write past a temporary
 when filling a secure vector at an offset

---
 CEX/HKDF.cpp   | 2 +-
 CEX/KDF2.cpp   | 2 +-
 CEX/PBKDF2.cpp | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/CEX/HKDF.cpp b/CEX/HKDF.cpp
index f367503..e7b5c30 100644
--- a/CEX/HKDF.cpp
+++ b/CEX/HKDF.cpp
@@ -303,7 +303,7 @@ void HKDF::Expand(std::vector<uint8_t> &Output, size_t OutOffset, size_t Length,
 void HKDF::Expand(SecureVector<uint8_t> &Output, size_t OutOffset, size_t Length, std::unique_ptr<HkdfState> &State, std::unique_ptr<HMAC> &Generator)
 {
 	std::vector<uint8_t> tmps(Length);
-	Expand(tmps, OutOffset, Length, State, Generator);
+	Expand(tmps, 0, Length, State, Generator);
 	SecureMove(tmps, 0, Output, OutOffset, Length);
 }
 
diff --git a/CEX/KDF2.cpp b/CEX/KDF2.cpp
index adb3217..142508e 100644
--- a/CEX/KDF2.cpp
+++ b/CEX/KDF2.cpp
@@ -301,7 +301,7 @@ void KDF2::Expand(std::vector<uint8_t> &Output, size_t OutOffset, size_t Length,
 void KDF2::Expand(SecureVector<uint8_t> &Output, size_t OutOffset, size_t Length, std::unique_ptr<Kdf2State> &State, std::unique_ptr<IDigest> &Generator)
 {
 	std::vector<uint8_t> tmps(Length);
-	Expand(tmps, OutOffset, Length, State, Generator);
+	Expand(tmps, 0, Length, State, Generator);
 	SecureMove(tmps, 0, Output, OutOffset, Length);
 }
 
diff --git a/CEX/PBKDF2.cpp b/CEX/PBKDF2.cpp
index 3f9c73b..fc04976 100644
--- a/CEX/PBKDF2.cpp
+++ b/CEX/PBKDF2.cpp
@@ -294,7 +294,7 @@ void PBKDF2::Expand(std::vector<uint8_t> &Output, size_t OutOffset, size_t Lengt
 void PBKDF2::Expand(SecureVector<uint8_t> &Output, size_t OutOffset, size_t Length, std::unique_ptr<Pbkdf2State> &State, std::unique_ptr<HMAC> &Generator)
 {
 	std::vector<uint8_t> tmps(Length);
-	Expand(tmps, OutOffset, Length, State, Generator);
+	Expand(tmps, 0, Length, State, Generator);
 	SecureMove(tmps, 0, Output, OutOffset, tmps.size());
 }
 
-- 
2.43.0


From 7bd416824973e49829573dd809859b774b7e289e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:37 +0000
Subject: [PATCH 032/155] fix: re-initialised HKDF, KDF2 and PBKDF2 keep a
 zeroed salt or info string of the previous size

---
 CEX/HKDF.cpp   | 4 +++-
 CEX/KDF2.cpp   | 2 ++
 CEX/PBKDF2.cpp | 2 ++
 3 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/CEX/HKDF.cpp b/CEX/HKDF.cpp
index e7b5c30..98290b6 100644
--- a/CEX/HKDF.cpp
+++ b/CEX/HKDF.cpp
@@ -33,6 +33,7 @@ public:
 	void Reset()
 	{
 		MemoryTools::Clear(Info, 0, Info.size());
+		Info.resize(0);
 		MemoryTools::Clear(State, 0, State.size());
 		IsDestroyed = false;
 		IsInitialized = false;
@@ -231,9 +232,10 @@ void HKDF::Initialize(ISymmetricKey &Parameters)
 		Reset();
 	}
 
+	m_hkdfState->Info.resize(Parameters.KeySizes().InfoSize());
+
 	if (Parameters.KeySizes().InfoSize() != 0)
 	{
-		m_hkdfState->Info.resize(Parameters.KeySizes().InfoSize());
 		MemoryTools::Copy(Parameters.Info(), 0, m_hkdfState->Info, 0, m_hkdfState->Info.size());
 	}
 
diff --git a/CEX/KDF2.cpp b/CEX/KDF2.cpp
index 142508e..28a02ae 100644
--- a/CEX/KDF2.cpp
+++ b/CEX/KDF2.cpp
@@ -42,7 +42,9 @@ public:
 		MemoryTools::Clear(Counter, 0, Counter.size() - sizeof(uint8_t));
 		Counter[Counter.size() - sizeof(uint8_t)] = 1;
 		MemoryTools::Clear(Salt, 0, Salt.size());
+		Salt.resize(0);
 		MemoryTools::Clear(State, 0, State.size());
+		State.resize(0);
 		IsInitialized = false;
 	}
 };
diff --git a/CEX/PBKDF2.cpp b/CEX/PBKDF2.cpp
index fc04976..d361a72 100644
--- a/CEX/PBKDF2.cpp
+++ b/CEX/PBKDF2.cpp
@@ -46,7 +46,9 @@ public:
 		MemoryTools::Clear(Counter, 0, Counter.size() - sizeof(uint8_t));
 		Counter[Counter.size() - sizeof(uint8_t)] = 1;
 		MemoryTools::Clear(Salt, 0, Salt.size());
+		Salt.resize(0);
 		MemoryTools::Clear(State, 0, State.size());
+		State.resize(0);
 		IsInitialized = false;
 	}
 };
-- 
2.43.0


From 3e02f7ecebf2d3d1fe1392f8d1e6e91d7e6dd137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:37 +0000
Subject: [PATCH 033/155] fix: HKDF wraps its block counter and repeats its
 output past 255 blocks

---
 CEX/HKDF.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/CEX/HKDF.cpp b/CEX/HKDF.cpp
index 98290b6..29b3781 100644
--- a/CEX/HKDF.cpp
+++ b/CEX/HKDF.cpp
@@ -162,7 +162,7 @@ void HKDF::Generate(std::vector<uint8_t> &Output)
 	{
 		throw CryptoKdfException(Name(), std::string("Generate"), std::string("The generator has not been initialized!"), ErrorCodes::NotInitialized);
 	}
-	if (m_hkdfState->State[m_hkdfGenerator->TagSize()] + (Output.size() / m_hkdfGenerator->TagSize()) > MAXGEN_REQUESTS)
+	if (m_hkdfState->State[m_hkdfGenerator->TagSize()] + ((Output.size() + m_hkdfGenerator->TagSize() - 1) / m_hkdfGenerator->TagSize()) > MAXGEN_REQUESTS)
 	{
 		throw CryptoKdfException(Name(), std::string("Generate"), std::string("Request exceeds maximum allowed output!"), ErrorCodes::MaxExceeded);
 	}
@@ -176,7 +176,7 @@ void HKDF::Generate(SecureVector<uint8_t> &Output)
 	{
 		throw CryptoKdfException(Name(), std::string("Generate"), std::string("The generator has not been initialized!"), ErrorCodes::NotInitialized);
 	}
-	if (m_hkdfState->State[m_hkdfGenerator->TagSize()] + (Output.size() / m_hkdfGenerator->TagSize()) > MAXGEN_REQUESTS)
+	if (m_hkdfState->State[m_hkdfGenerator->TagSize()] + ((Output.size() + m_hkdfGenerator->TagSize() - 1) / m_hkdfGenerator->TagSize()) > MAXGEN_REQUESTS)
 	{
 		throw CryptoKdfException(Name(), std::string("Generate"), std::string("Request exceeds maximum allowed output!"), ErrorCodes::MaxExceeded);
 	}
@@ -190,7 +190,7 @@ void HKDF::Generate(std::vector<uint8_t> &Output, size_t OutOffset, size_t Lengt
 	{
 		throw CryptoKdfException(Name(), std::string("Generate"), std::string("The generator has not been initialized!"), ErrorCodes::NotInitialized);
 	}
-	if (m_hkdfState->State[m_hkdfGenerator->TagSize()] + (Length / m_hkdfGenerator->TagSize()) > MAXGEN_REQUESTS)
+	if (m_hkdfState->State[m_hkdfGenerator->TagSize()] + ((Length + m_hkdfGenerator->TagSize() - 1) / m_hkdfGenerator->TagSize()) > MAXGEN_REQUESTS)
 	{
 		throw CryptoKdfException(Name(), std::string("Generate"), std::string("Request exceeds maximum allowed output!"), ErrorCodes::MaxExceeded);
 	}
@@ -208,7 +208,7 @@ void HKDF::Generate(SecureVector<uint8_t> &Output, size_t OutOffset, size_t Leng
 	{
 		throw CryptoKdfException(Name(), std::string("Generate"), std::string("The generator has not been initialized!"), ErrorCodes::NotInitialized);
 	}
-	if (m_hkdfState->State[m_hkdfGenerator->TagSize()] + (Length / m_hkdfGenerator->TagSize()) > MAXGEN_REQUESTS)
+	if (m_hkdfState->State[m_hkdfGenerator->TagSize()] + ((Length + m_hkdfGenerator->TagSize() - 1) / m_hkdfGenerator->TagSize()) > MAXGEN_REQUESTS)
 	{
 		throw CryptoKdfException(Name(), std::string("Generate"), std::string("Request exceeds maximum allowed output!"), ErrorCodes::MaxExceeded);
 	}
-- 
2.43.0


From 34fd1423778cecb43f9a0b643a3105e1c2920006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:37 +0000
Subject: [PATCH 034/155] fix: KDF2 and PBKDF2 read past the nonce when an info
 string is given

---
 CEX/KDF2.cpp   | 2 +-
 CEX/PBKDF2.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/CEX/KDF2.cpp b/CEX/KDF2.cpp
index 28a02ae..19405e2 100644
--- a/CEX/KDF2.cpp
+++ b/CEX/KDF2.cpp
@@ -224,7 +224,7 @@ void KDF2::Initialize(ISymmetricKey &Parameters)
 		m_kdf2State->Salt.resize(Parameters.KeySizes().IVSize() + Parameters.KeySizes().InfoSize());
 
 		// add nonce param to salt
-		MemoryTools::Copy(Parameters.IV(), 0, m_kdf2State->Salt, 0, m_kdf2State->Salt.size());
+		MemoryTools::Copy(Parameters.IV(), 0, m_kdf2State->Salt, 0, Parameters.KeySizes().IVSize());
 
 		// add info as extension of salt
 		if (Parameters.KeySizes().InfoSize() > 0)
diff --git a/CEX/PBKDF2.cpp b/CEX/PBKDF2.cpp
index d361a72..ce900da 100644
--- a/CEX/PBKDF2.cpp
+++ b/CEX/PBKDF2.cpp
@@ -236,7 +236,7 @@ void PBKDF2::Initialize(ISymmetricKey &Parameters)
 		// add the nonce param
 		if (Parameters.KeySizes().IVSize() != 0)
 		{
-			MemoryTools::Copy(Parameters.IV(), 0, m_pbkdf2State->Salt, 0, m_pbkdf2State->Salt.size());
+			MemoryTools::Copy(Parameters.IV(), 0, m_pbkdf2State->Salt, 0, Parameters.KeySizes().IVSize());
 		}
 
 		// add info as extension of salt
-- 
2.43.0


From adedcd15a5211c6608e6e0c18b01ba8f233ead70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:37 +0000
Subject: [PATCH 035/155] fix: KDF2 ignores the info string when the key fits
 one block

---
 CEX/KDF2.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/CEX/KDF2.cpp b/CEX/KDF2.cpp
index 19405e2..50f08cf 100644
--- a/CEX/KDF2.cpp
+++ b/CEX/KDF2.cpp
@@ -248,14 +248,14 @@ void KDF2::Initialize(ISymmetricKey &Parameters)
 			MemoryTools::Copy(Parameters.Key(), 0, m_kdf2State->State, 0, m_kdf2Generator->BlockSize());
 			m_kdf2State->Salt.resize(Parameters.KeySizes().KeySize() - m_kdf2Generator->BlockSize());
 			MemoryTools::Copy(Parameters.Key(), m_kdf2Generator->BlockSize(), m_kdf2State->Salt, 0, m_kdf2State->Salt.size());
+		}
 
-			// add info as extension of salt
-			if (Parameters.KeySizes().InfoSize() > 0)
-			{
-				const size_t SLTLEN = m_kdf2State->Salt.size();
-				m_kdf2State->Salt.resize(SLTLEN + Parameters.KeySizes().InfoSize());
-				MemoryTools::Copy(Parameters.Info(), 0, m_kdf2State->Salt, SLTLEN, Parameters.KeySizes().InfoSize());
-			}
+		// add info as extension of salt
+		if (Parameters.KeySizes().InfoSize() > 0)
+		{
+			const size_t SLTLEN = m_kdf2State->Salt.size();
+			m_kdf2State->Salt.resize(SLTLEN + Parameters.KeySizes().InfoSize());
+			MemoryTools::Copy(Parameters.Info(), 0, m_kdf2State->Salt, SLTLEN, Parameters.KeySizes().InfoSize());
 		}
 	}
 
-- 
2.43.0


From bde8aa8156fdb5b057e4656cb66ea781ec9e6d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:37 +0000
Subject: [PATCH 036/155] fix: SCBKDF grows its cache without regard to the
 memory cost

---
 CEX/SCBKDF.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CEX/SCBKDF.cpp b/CEX/SCBKDF.cpp
index a15e6e0..6303c1b 100644
--- a/CEX/SCBKDF.cpp
+++ b/CEX/SCBKDF.cpp
@@ -211,7 +211,7 @@ void SCBKDF::Expand(std::unique_ptr<ScbkdfState> &State)
 		Keccak::Absorb(State->Cache, 0, State->Cache.size(), State->Rate, State->Domain, State->State);
 
 		// increase the cache size up to memory cost
-		if (State->State.size() < State->MemoryCost * MB1)
+		if (State->Cache.size() < State->MemoryCost * MB1)
 		{
 			const size_t CLEN = State->Cache.size();
 			State->Cache.resize(CLEN + State->Rate);
-- 
2.43.0


From ae1adf67ef763ae9e45c6f224b19881c87d710bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:37 +0000
Subject: [PATCH 037/155] fix: PBKDF2 with an iteration count of zero never
 returns

---
 CEX/PBKDF2.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/CEX/PBKDF2.cpp b/CEX/PBKDF2.cpp
index ce900da..00dcf47 100644
--- a/CEX/PBKDF2.cpp
+++ b/CEX/PBKDF2.cpp
@@ -214,6 +214,11 @@ void PBKDF2::Initialize(ISymmetricKey &Parameters)
 	}
 #endif
 
+	if (m_pbkdf2State->Iterations == 0)
+	{
+		throw CryptoKdfException(Name(), std::string("Initialize"), std::string("The iterations count can not be zero!"), ErrorCodes::InvalidParam);
+	}
+
 	if (IsInitialized() == true)
 	{
 		Reset();
@@ -276,7 +281,7 @@ void PBKDF2::Expand(std::vector<uint8_t> &Output, size_t OutOffset, size_t Lengt
 		Generator->Finalize(tmps, 0);
 		MemoryTools::Copy(tmps, 0, Output, OutOffset, PRCRMD);
 
-		for (i = 1; i != State->Iterations; ++i)
+		for (i = 1; i < State->Iterations; ++i)
 		{
 			// mac previous state
 			Generator->Initialize(kp);
-- 
2.43.0


From b3a35c0c529362a50aab63893f44a2d0685938d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:55 +0000
Subject: [PATCH 038/155] fix: cSHAKE customization overruns its block when the
 encoded length meets the rate boundary

---
 CEX/Keccak.h | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/CEX/Keccak.h b/CEX/Keccak.h
index 677892d..fb6b203 100644
--- a/CEX/Keccak.h
+++ b/CEX/Keccak.h
@@ -391,7 +391,22 @@ public:
 			}
 		}
 
-		offset += LeftEncode(pad, offset, static_cast<uint64_t>(Customization.size()) * 8);
+		// the encoded length can straddle the rate boundary
+		std::array<uint8_t, sizeof(uint64_t) + 1> enc = { 0 };
+		const size_t ENCLEN = LeftEncode(enc, 0, static_cast<uint64_t>(Customization.size()) * 8);
+
+		for (i = 0; i < ENCLEN; ++i)
+		{
+			if (offset == Rate)
+			{
+				FastAbsorb(pad, 0, Rate, State);
+				Permute(State, Rounds);
+				offset = 0;
+			}
+
+			pad[offset] = enc[i];
+			++offset;
+		}
 
 		if (Customization.size() != 0)
 		{
-- 
2.43.0


From 7df0c5648b1c051dc14bfc6691b9f4a9272f10f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:56 +0000
Subject: [PATCH 039/155] fix: the kdfs accept an output offset beyond the end
 of the array

---
 CEX/HKDF.cpp   | 4 ++--
 CEX/KDF2.cpp   | 4 ++--
 CEX/PBKDF2.cpp | 4 ++--
 CEX/SCBKDF.cpp | 4 ++--
 CEX/SHAKE.cpp  | 4 ++--
 5 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/CEX/HKDF.cpp b/CEX/HKDF.cpp
index 29b3781..d93d13b 100644
--- a/CEX/HKDF.cpp
+++ b/CEX/HKDF.cpp
@@ -194,7 +194,7 @@ void HKDF::Generate(std::vector<uint8_t> &Output, size_t OutOffset, size_t Lengt
 	{
 		throw CryptoKdfException(Name(), std::string("Generate"), std::string("Request exceeds maximum allowed output!"), ErrorCodes::MaxExceeded);
 	}
-	if (Output.size() - OutOffset < Length)
+	if (OutOffset > Output.size() || Output.size() - OutOffset < Length)
 	{
 		throw CryptoKdfException(Name(), std::string("Generate"), std::string("The output buffer is too int16_t!"), ErrorCodes::InvalidSize);
 	}
@@ -212,7 +212,7 @@ void HKDF::Generate(SecureVector<uint8_t> &Output, size_t OutOffset, size_t Leng
 	{
 		throw CryptoKdfException(Name(), std::string("Generate"), std::string("Request exceeds maximum allowed output!"), ErrorCodes::MaxExceeded);
 	}
-	if (Output.size() - OutOffset < Length)
+	if (OutOffset > Output.size() || Output.size() - OutOffset < Length)
 	{
 		throw CryptoKdfException(Name(), std::string("Generate"), std::string("The output buffer is too int16_t!"), ErrorCodes::InvalidSize);
 	}
diff --git a/CEX/KDF2.cpp b/CEX/KDF2.cpp
index 50f08cf..eed3933 100644
--- a/CEX/KDF2.cpp
+++ b/CEX/KDF2.cpp
@@ -164,7 +164,7 @@ void KDF2::Generate(std::vector<uint8_t> &Output, size_t OutOffset, size_t Lengt
 	{
 		throw CryptoKdfException(Name(), std::string("Generate"), std::string("Request exceeds maximum allowed output!"), ErrorCodes::MaxExceeded);
 	}
-	if (Output.size() - OutOffset < Length)
+	if (OutOffset > Output.size() || Output.size() - OutOffset < Length)
 	{
 		throw CryptoKdfException(Name(), std::string("Generate"), std::string("The output buffer is too int16_t!"), ErrorCodes::InvalidSize);
 	}
@@ -182,7 +182,7 @@ void KDF2::Generate(SecureVector<uint8_t> &Output, size_t OutOffset, size_t Leng
 	{
 		throw CryptoKdfException(Name(), std::string("Generate"), std::string("Request exceeds maximum allowed output!"), ErrorCodes::MaxExceeded);
 	}
-	if (Output.size() - OutOffset < Length)
+	if (OutOffset > Output.size() || Output.size() - OutOffset < Length)
 	{
 		throw CryptoKdfException(Name(), std::string("Generate"), std::string("The output buffer is too int16_t!"), ErrorCodes::InvalidSize);
 	}
diff --git a/CEX/PBKDF2.cpp b/CEX/PBKDF2.cpp
index 00dcf47..05ea879 100644
--- a/CEX/PBKDF2.cpp
+++ b/CEX/PBKDF2.cpp
@@ -170,7 +170,7 @@ void PBKDF2::Generate(std::vector<uint8_t> &Output, size_t OutOffset, size_t Len
 	{
 		throw CryptoKdfException(Name(), std::string("Generate"), std::string("The generator has not been initialized!"), ErrorCodes::NotInitialized);
 	}
-	if (Output.size() - OutOffset < Length)
+	if (OutOffset > Output.size() || Output.size() - OutOffset < Length)
 	{
 		throw CryptoKdfException(Name(), std::string("Generate"), std::string("The output buffer is too int16_t!"), ErrorCodes::InvalidSize);
 	}
@@ -188,7 +188,7 @@ void PBKDF2::Generate(SecureVector<uint8_t> &Output, size_t OutOffset, size_t Le
 	{
 		throw CryptoKdfException(Name(), std::string("Generate"), std::string("The generator has not been initialized!"), ErrorCodes::NotInitialized);
 	}
-	if (Output.size() - OutOffset < Length)
+	if (OutOffset > Output.size() || Output.size() - OutOffset < Length)
 	{
 		throw CryptoKdfException(Name(), std::string("Generate"), std::string("The output buffer is too int16_t!"), ErrorCodes::InvalidSize);
 	}
diff --git a/CEX/SCBKDF.cpp b/CEX/SCBKDF.cpp
index 6303c1b..2343261 100644
--- a/CEX/SCBKDF.cpp
+++ b/CEX/SCBKDF.cpp
@@ -131,7 +131,7 @@ void SCBKDF::Generate(std::vector<uint8_t> &Output, size_t OutOffset, size_t Len
 	{
 		throw CryptoKdfException(Name(), std::string("Generate"), std::string("The generator has not been initialized!"), ErrorCodes::NotInitialized);
 	}
-	if (Output.size() - OutOffset < Length)
+	if (OutOffset > Output.size() || Output.size() - OutOffset < Length)
 	{
 		throw CryptoKdfException(Name(), std::string("Generate"), std::string("The output buffer is too int16_t!"), ErrorCodes::InvalidSize);
 	}
@@ -146,7 +146,7 @@ void SCBKDF::Generate(SecureVector<uint8_t> &Output, size_t OutOffset, size_t Le
 	{
 		throw CryptoKdfException(Name(), std::string("Generate"), std::string("The generator has not been initialized!"), ErrorCodes::NotInitialized);
 	}
-	if (Output.size() - OutOffset < Length)
+	if (OutOffset > Output.size() || Output.size() - OutOffset < Length)
 	{
 		throw CryptoKdfException(Name(), std::string("Generate"), std::string("The output buffer is too int16_t!"), ErrorCodes::InvalidSize);
 	}
diff --git a/CEX/SHAKE.cpp b/CEX/SHAKE.cpp
index 0cc36ea..144af57 100644
--- a/CEX/SHAKE.cpp
+++ b/CEX/SHAKE.cpp
@@ -130,7 +130,7 @@ void SHAKE::Generate(SecureVector<uint8_t> &Output)
 
 void SHAKE::Generate(std::vector<uint8_t> &Output, size_t OutOffset, size_t Length)
 {
-	if (Output.size() - OutOffset < Length)
+	if (OutOffset > Output.size() || Output.size() - OutOffset < Length)
 	{
 		throw CryptoKdfException(Name(), std::string("Generate"), std::string("The output buffer is too int16_t!"), ErrorCodes::InvalidSize);
 	}
@@ -147,7 +147,7 @@ void SHAKE::Generate(SecureVector<uint8_t> &Output, size_t OutOffset, size_t Len
 	{
 		throw CryptoKdfException(Name(), std::string("Generate"), std::string("The generator has not been initialized!"), ErrorCodes::NotInitialized);
 	}
-	if (Output.size() - OutOffset < Length)
+	if (OutOffset > Output.size() || Output.size() - OutOffset < Length)
 	{
 		throw CryptoKdfException(Name(), std::string("Generate"), std::string("The output buffer is too int16_t!"), ErrorCodes::InvalidSize);
 	}
-- 
2.43.0


From 193d3f9c27568b42788d61984d66b8d7f844455e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:08 +0000
Subject: [PATCH 040/155] fix: ParallelOptions ignores an explicit degree
 larger than the processor count

---
 CEX/ParallelOptions.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/CEX/ParallelOptions.cpp b/CEX/ParallelOptions.cpp
index 069398f..8505ff5 100644
--- a/CEX/ParallelOptions.cpp
+++ b/CEX/ParallelOptions.cpp
@@ -22,7 +22,7 @@ ParallelOptions::ParallelOptions(size_t BlockSize, bool SimdMultiply, size_t Res
 	m_isParallel(false),
 	m_l1DataCacheReserved(ReservedCache),
 	m_l1DataCacheTotal(0),
-	m_overrideMaxDegree(false),
+	m_overrideMaxDegree(ParallelMaxDegree != 0),
 	m_parallelBlockSize(0),
 	m_parallelMaxDegree(ParallelMaxDegree),
 	m_parallelMinimumSize(0),
@@ -52,7 +52,7 @@ ParallelOptions::ParallelOptions(size_t BlockSize, bool Parallel, bool SimdMulti
 	m_isParallel(Parallel),
 	m_l1DataCacheReserved(ReservedCache),
 	m_l1DataCacheTotal(0),
-	m_overrideMaxDegree(false),
+	m_overrideMaxDegree(ParallelMaxDegree != 0),
 	m_parallelBlockSize(0),
 	m_parallelMaxDegree(ParallelMaxDegree),
 	m_parallelMinimumSize(0),
@@ -85,7 +85,7 @@ ParallelOptions::ParallelOptions(size_t BlockSize, bool Parallel, size_t Paralle
 	m_isParallel(Parallel),
 	m_l1DataCacheReserved(ReservedCache),
 	m_l1DataCacheTotal(0),
-	m_overrideMaxDegree(false),
+	m_overrideMaxDegree(ParallelMaxDegree != 0),
 	m_parallelBlockSize(ParallelBlockSize),
 	m_parallelMaxDegree(ParallelMaxDegree),
 	m_parallelMinimumSize(0),
@@ -363,7 +363,7 @@ void ParallelOptions::Detect()
 		m_processorCount--;
 	}
 
-	if (m_parallelMaxDegree > m_processorCount)
+	if (m_parallelMaxDegree > m_processorCount && !m_overrideMaxDegree)
 	{
 		m_parallelMaxDegree = m_processorCount;
 	}
-- 
2.43.0


From 40f4940aa7504a0e4d7705660a85df80c6fe4f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:08 +0000
Subject: [PATCH 041/155] fix: SHA2, SHA3 and Skein tree hashing depends on the
 parallel profile and skips message lanes

---
 CEX/SHA2256.cpp   | 48 +++++++++++++++++------------------------------
 CEX/SHA2512.cpp   | 48 +++++++++++++++++------------------------------
 CEX/SHA3256.cpp   | 39 ++++++++++++++------------------------
 CEX/SHA3512.cpp   | 39 ++++++++++++++------------------------
 CEX/Skein1024.cpp | 35 ++++++++++------------------------
 CEX/Skein256.cpp  | 33 +++++++++-----------------------
 CEX/Skein512.cpp  | 35 ++++++++++------------------------
 7 files changed, 91 insertions(+), 186 deletions(-)

diff --git a/CEX/SHA2256.cpp b/CEX/SHA2256.cpp
index 024c3da..b3c6173 100644
--- a/CEX/SHA2256.cpp
+++ b/CEX/SHA2256.cpp
@@ -145,7 +145,7 @@ void SHA2256::Compute(const std::vector<uint8_t> &Input, std::vector<uint8_t> &O
 
 void SHA2256::Finalize(std::vector<uint8_t> &Output, size_t OutOffset)
 {
-	if (Output.size() - OutOffset < SHA2::SHA2256_DIGEST_SIZE)
+	if (OutOffset > Output.size() || Output.size() - OutOffset < SHA2::SHA2256_DIGEST_SIZE)
 	{
 		throw CryptoDigestException(Name(), std::string("Finalize"), std::string("The output vector is too small!"), ErrorCodes::InvalidSize);
 	}
@@ -154,7 +154,7 @@ void SHA2256::Finalize(std::vector<uint8_t> &Output, size_t OutOffset)
 	size_t boff;
 	size_t i;
 
-	if (m_parallelProfile.IsParallel())
+	if (m_dgtState.size() > 1)
 	{
 		// pad buffer with zeros
 		if (m_msgLength < m_msgBuffer.size())
@@ -183,7 +183,7 @@ void SHA2256::Finalize(std::vector<uint8_t> &Output, size_t OutOffset)
 		// add state blocks as contiguous message input
 		for (i = 0; i < m_dgtState.size(); ++i)
 		{
-			IntegerTools::BeUL256ToBlock(m_dgtState[i].H, 0, m_msgBuffer, i * SHA2::SHA2256_RATE_SIZE);
+			IntegerTools::BeUL256ToBlock(m_dgtState[i].H, 0, m_msgBuffer, i * SHA2::SHA2256_DIGEST_SIZE);
 			m_msgLength += SHA2::SHA2256_DIGEST_SIZE;
 		}
 
@@ -224,6 +224,10 @@ void SHA2256::ParallelMaxDegree(size_t Degree)
 	}
 
 	m_parallelProfile.SetMaxDegree(Degree);
+	m_dgtState.clear();
+	m_dgtState.resize(Degree);
+	m_msgBuffer.clear();
+	m_msgBuffer.resize(Degree * SHA2::SHA2256_RATE_SIZE);
 
 	Reset();
 }
@@ -232,17 +236,14 @@ void SHA2256::Reset()
 {
 	std::vector<uint8_t> params(SHA2::SHA2256_RATE_SIZE);
 
-	m_dgtState.clear();
-	m_dgtState.resize(m_parallelProfile.IsParallel() ? m_parallelProfile.ParallelMaxDegree() : 1);
-	m_msgBuffer.clear();
-	m_msgBuffer.resize(m_parallelProfile.IsParallel() ? m_parallelProfile.ParallelMaxDegree() * SHA2::SHA2256_RATE_SIZE : SHA2::SHA2256_RATE_SIZE);
+	MemoryTools::Clear(m_msgBuffer, 0, m_msgBuffer.size());
 	m_msgLength = 0;
 
 	for (size_t i = 0; i < m_dgtState.size(); ++i)
 	{
 		m_dgtState[i].Reset();
 
-		if (m_parallelProfile.IsParallel())
+		if (m_dgtState.size() > 1)
 		{
 			m_treeParams.NodeOffset() = static_cast<uint32_t>(i);
 			MemoryTools::Copy(m_treeParams.ToBytes(), 0, params, 0, params.size());
@@ -277,7 +278,7 @@ void SHA2256::Update(const std::vector<uint8_t> &Input, size_t InOffset, size_t
 
 	if (Length != 0)
 	{
-		if (m_parallelProfile.IsParallel())
+		if (m_dgtState.size() > 1)
 		{
 			if (m_msgLength != 0 && Length + m_msgLength >= m_msgBuffer.size())
 			{
@@ -290,7 +291,7 @@ void SHA2256::Update(const std::vector<uint8_t> &Input, size_t InOffset, size_t
 				}
 
 				// empty the message buffer
-				ParallelTools::ParallelFor(0, m_parallelProfile.ParallelMaxDegree(), [this, &Input, InOffset](size_t i)
+				ParallelTools::ParallelFor(0, m_dgtState.size(), [this, &Input, InOffset](size_t i)
 				{
 					Permute(m_msgBuffer, i * SHA2::SHA2256_RATE_SIZE, m_dgtState[i]);
 				});
@@ -300,26 +301,11 @@ void SHA2256::Update(const std::vector<uint8_t> &Input, size_t InOffset, size_t
 				InOffset += RMDLEN;
 			}
 
-			if (Length >= m_parallelProfile.ParallelBlockSize())
-			{
-				// calculate working set size
-				const size_t PRCLEN = Length - (Length % m_parallelProfile.ParallelBlockSize());
-
-				// process large blocks
-				ParallelTools::ParallelFor(0, m_parallelProfile.ParallelMaxDegree(), [this, &Input, InOffset, PRCLEN](size_t i)
-				{
-					ProcessLeaf(Input, InOffset + (i * SHA2::SHA2256_RATE_SIZE), m_dgtState[i], PRCLEN);
-				});
-
-				Length -= PRCLEN;
-				InOffset += PRCLEN;
-			}
-
-			if (Length >= m_parallelProfile.ParallelMinimumSize())
+			if (Length >= m_msgBuffer.size())
 			{
-				const size_t PRMLEN = Length - (Length % m_parallelProfile.ParallelMinimumSize());
+				const size_t PRMLEN = Length - (Length % m_msgBuffer.size());
 
-				ParallelTools::ParallelFor(0, m_parallelProfile.ParallelMaxDegree(), [this, &Input, InOffset, PRMLEN](size_t i)
+				ParallelTools::ParallelFor(0, m_dgtState.size(), [this, &Input, InOffset, PRMLEN](size_t i)
 				{
 					ProcessLeaf(Input, InOffset + (i * SHA2::SHA2256_RATE_SIZE), m_dgtState[i], PRMLEN);
 				});
@@ -387,7 +373,7 @@ void SHA2256::HashFinal(std::vector<uint8_t> &Input, size_t InOffset, size_t Len
 	if (Length > 56)
 	{
 		Permute(Input, InOffset, State);
-		MemoryTools::Clear(Input, 0, SHA2::SHA2256_RATE_SIZE);
+		MemoryTools::Clear(Input, InOffset, SHA2::SHA2256_RATE_SIZE);
 	}
 
 	// finalize state with counter and last compression
@@ -421,8 +407,8 @@ void SHA2256::ProcessLeaf(const std::vector<uint8_t> &Input, size_t InOffset, SH
 	do
 	{
 		Permute(Input, InOffset, State);
-		InOffset += m_parallelProfile.ParallelMinimumSize();
-		Length -= m_parallelProfile.ParallelMinimumSize();
+		InOffset += m_msgBuffer.size();
+		Length -= m_msgBuffer.size();
 	} 
 	while (Length > 0);
 }
diff --git a/CEX/SHA2512.cpp b/CEX/SHA2512.cpp
index e988939..11fadf5 100644
--- a/CEX/SHA2512.cpp
+++ b/CEX/SHA2512.cpp
@@ -70,7 +70,7 @@ SHA2512::SHA2512(SHA2Params &Params)
 	m_dgtState(Params.FanOut() != 0 && Params.FanOut() <= MAX_PRLDEGREE ? 
 		Params.FanOut() :
 		throw CryptoDigestException(DigestConvert::ToName(Digests::SHA2512), std::string("Constructor"), std::string("The FanOut parameter can not be zero or exceed the maximum of 64!"), ErrorCodes::IllegalOperation)),
-	m_msgBuffer(SHA2::SHA2512_RATE_SIZE),
+	m_msgBuffer(Params.FanOut() * SHA2::SHA2512_RATE_SIZE),
 	m_msgLength(0),
 	m_parallelProfile(SHA2::SHA2512_RATE_SIZE, static_cast<bool>(Params.FanOut() > 1), false, STATE_PRECACHED, false, Params.FanOut()),
 	m_treeParams(Params)
@@ -148,7 +148,7 @@ void SHA2512::Compute(const std::vector<uint8_t> &Input, std::vector<uint8_t> &O
 
 void SHA2512::Finalize(std::vector<uint8_t> &Output, size_t OutOffset)
 {
-	if (Output.size() - OutOffset < SHA2::SHA2512_DIGEST_SIZE)
+	if (OutOffset > Output.size() || Output.size() - OutOffset < SHA2::SHA2512_DIGEST_SIZE)
 	{
 		throw CryptoDigestException(Name(), std::string("Finalize"), std::string("The output vector is too small!"), ErrorCodes::InvalidSize);
 	}
@@ -157,7 +157,7 @@ void SHA2512::Finalize(std::vector<uint8_t> &Output, size_t OutOffset)
 	size_t boff;
 	size_t i;
 
-	if (m_parallelProfile.IsParallel())
+	if (m_dgtState.size() > 1)
 	{
 		// pad buffer with zeros
 		if (m_msgLength < m_msgBuffer.size())
@@ -186,7 +186,7 @@ void SHA2512::Finalize(std::vector<uint8_t> &Output, size_t OutOffset)
 		// add state blocks as contiguous message input
 		for (i = 0; i < m_dgtState.size(); ++i)
 		{
-			IntegerTools::BeULL512ToBlock(m_dgtState[i].H, 0, m_msgBuffer, i * SHA2::SHA2512_RATE_SIZE);
+			IntegerTools::BeULL512ToBlock(m_dgtState[i].H, 0, m_msgBuffer, i * SHA2::SHA2512_DIGEST_SIZE);
 			m_msgLength += SHA2::SHA2512_DIGEST_SIZE;
 		}
 
@@ -227,16 +227,17 @@ void SHA2512::ParallelMaxDegree(size_t Degree)
 	}
 
 	m_parallelProfile.SetMaxDegree(Degree);
+	m_dgtState.clear();
+	m_dgtState.resize(Degree);
+	m_msgBuffer.clear();
+	m_msgBuffer.resize(Degree * SHA2::SHA2512_RATE_SIZE);
 
 	Reset();
 }
 
 void SHA2512::Reset()
 {
-	m_dgtState.clear();
-	m_dgtState.resize(m_parallelProfile.IsParallel() ? m_parallelProfile.ParallelMaxDegree() : 1);
-	m_msgBuffer.clear();
-	m_msgBuffer.resize(m_parallelProfile.IsParallel() ? m_parallelProfile.ParallelMaxDegree() * SHA2::SHA2512_RATE_SIZE : SHA2::SHA2512_RATE_SIZE);
+	MemoryTools::Clear(m_msgBuffer, 0, m_msgBuffer.size());
 	m_msgLength = 0;
 	std::vector<uint8_t> params(SHA2::SHA2512_RATE_SIZE, 0x1F);
 
@@ -244,7 +245,7 @@ void SHA2512::Reset()
 	{
 		m_dgtState[i].Reset();
 
-		if (m_parallelProfile.IsParallel())
+		if (m_dgtState.size() > 1)
 		{
 			m_treeParams.NodeOffset() = static_cast<uint32_t>(i);
 			MemoryTools::Copy(m_treeParams.ToBytes(), 0, params, 0, m_treeParams.GetHeaderSize());
@@ -279,7 +280,7 @@ void SHA2512::Update(const std::vector<uint8_t> &Input, size_t InOffset, size_t
 
 	if (Length != 0)
 	{
-		if (m_parallelProfile.IsParallel())
+		if (m_dgtState.size() > 1)
 		{
 			if (m_msgLength != 0 && Length + m_msgLength >= m_msgBuffer.size())
 			{
@@ -291,7 +292,7 @@ void SHA2512::Update(const std::vector<uint8_t> &Input, size_t InOffset, size_t
 				}
 
 				// empty the message buffer
-				ParallelTools::ParallelFor(0, m_parallelProfile.ParallelMaxDegree(), [this, &Input, InOffset](size_t i)
+				ParallelTools::ParallelFor(0, m_dgtState.size(), [this, &Input, InOffset](size_t i)
 				{
 					Permute(m_msgBuffer, i * SHA2::SHA2512_RATE_SIZE, m_dgtState[i]);
 				});
@@ -301,25 +302,10 @@ void SHA2512::Update(const std::vector<uint8_t> &Input, size_t InOffset, size_t
 				InOffset += RMDLEN;
 			}
 
-			if (Length >= m_parallelProfile.ParallelBlockSize())
-			{
-				// calculate working set size
-				const size_t PRCLEN = Length - (Length % m_parallelProfile.ParallelBlockSize());
-
-				// process large blocks
-				ParallelTools::ParallelFor(0, m_parallelProfile.ParallelMaxDegree(), [this, &Input, InOffset, PRCLEN](size_t i)
-				{
-					ProcessLeaf(Input, InOffset + (i * SHA2::SHA2512_RATE_SIZE), m_dgtState[i], PRCLEN);
-				});
-
-				Length -= PRCLEN;
-				InOffset += PRCLEN;
-			}
-
-			if (Length >= m_parallelProfile.ParallelMinimumSize())
+			if (Length >= m_msgBuffer.size())
 			{
-				const size_t PRMLEN = Length - (Length % m_parallelProfile.ParallelMinimumSize());
-				ParallelTools::ParallelFor(0, m_parallelProfile.ParallelMaxDegree(), [this, &Input, InOffset, PRMLEN](size_t i)
+				const size_t PRMLEN = Length - (Length % m_msgBuffer.size());
+				ParallelTools::ParallelFor(0, m_dgtState.size(), [this, &Input, InOffset, PRMLEN](size_t i)
 				{
 					ProcessLeaf(Input, InOffset + (i * SHA2::SHA2512_RATE_SIZE), m_dgtState[i], PRMLEN);
 				});
@@ -412,8 +398,8 @@ void SHA2512::ProcessLeaf(const std::vector<uint8_t> &Input, size_t InOffset, SH
 	do
 	{
 		Permute(Input, InOffset, State);
-		InOffset += m_parallelProfile.ParallelMinimumSize();
-		Length -= m_parallelProfile.ParallelMinimumSize();
+		InOffset += m_msgBuffer.size();
+		Length -= m_msgBuffer.size();
 	} 
 	while (Length > 0);
 }
diff --git a/CEX/SHA3256.cpp b/CEX/SHA3256.cpp
index 2ce4ef9..e9aced2 100644
--- a/CEX/SHA3256.cpp
+++ b/CEX/SHA3256.cpp
@@ -132,7 +132,7 @@ void SHA3256::Compute(const std::vector<uint8_t> &Input, std::vector<uint8_t> &O
 
 void SHA3256::Finalize(std::vector<uint8_t> &Output, size_t OutOffset)
 {
-	if (Output.size() - OutOffset < Keccak::KECCAK256_DIGEST_SIZE)
+	if (OutOffset > Output.size() || Output.size() - OutOffset < Keccak::KECCAK256_DIGEST_SIZE)
 	{
 		throw CryptoDigestException(Name(), std::string("Finalize"), std::string("The output vector is too small!"), ErrorCodes::InvalidSize);
 	}
@@ -141,7 +141,7 @@ void SHA3256::Finalize(std::vector<uint8_t> &Output, size_t OutOffset)
 	size_t boft;
 	size_t i;
 
-	if (m_parallelProfile.IsParallel())
+	if (m_dgtState.size() > 1)
 	{
 		// pad buffer with zeros
 		if (m_msgLength < m_msgBuffer.size())
@@ -216,6 +216,10 @@ void SHA3256::ParallelMaxDegree(size_t Degree)
 	}
 
 	m_parallelProfile.SetMaxDegree(Degree);
+	m_dgtState.clear();
+	m_dgtState.resize(Degree);
+	m_msgBuffer.clear();
+	m_msgBuffer.resize(Degree * Keccak::KECCAK256_RATE_SIZE);
 
 	Reset();
 }
@@ -231,7 +235,7 @@ void SHA3256::Reset()
 	{
 		m_dgtState[i].Reset();
 
-		if (m_parallelProfile.IsParallel())
+		if (m_dgtState.size() > 1)
 		{
 			m_treeParams.NodeOffset() = static_cast<uint32_t>(i);
 			Keccak::FastAbsorb(m_treeParams.ToBytes(), 0, Keccak::KECCAK256_RATE_SIZE, m_dgtState[i].H);
@@ -266,7 +270,7 @@ void SHA3256::Update(const std::vector<uint8_t> &Input, size_t InOffset, size_t
 
 	if (Length != 0)
 	{
-		if (m_parallelProfile.IsParallel())
+		if (m_dgtState.size() > 1)
 		{
 			if (m_msgLength != 0 && Length + m_msgLength >= m_msgBuffer.size())
 			{
@@ -278,7 +282,7 @@ void SHA3256::Update(const std::vector<uint8_t> &Input, size_t InOffset, size_t
 				}
 
 				// empty the message buffer
-				ParallelTools::ParallelFor(0, m_parallelProfile.ParallelMaxDegree(), [this, &Input, InOffset](size_t i)
+				ParallelTools::ParallelFor(0, m_dgtState.size(), [this, &Input, InOffset](size_t i)
 				{
 					Keccak::FastAbsorb(m_msgBuffer, i * Keccak::KECCAK256_RATE_SIZE, Keccak::KECCAK256_RATE_SIZE, m_dgtState[i].H);
 					Permute(m_dgtState[i].H);
@@ -289,26 +293,11 @@ void SHA3256::Update(const std::vector<uint8_t> &Input, size_t InOffset, size_t
 				InOffset += RMDLEN;
 			}
 
-			if (Length >= m_parallelProfile.ParallelBlockSize())
+			if (Length >= m_msgBuffer.size())
 			{
-				// calculate working set size
-				const size_t PRCLEN = Length - (Length % m_parallelProfile.ParallelBlockSize());
+				const size_t PRMLEN = Length - (Length % m_msgBuffer.size());
 
-				// process large blocks
-				ParallelTools::ParallelFor(0, m_parallelProfile.ParallelMaxDegree(), [this, &Input, InOffset, PRCLEN](size_t i)
-				{
-					ProcessLeaf(Input, InOffset + (i * Keccak::KECCAK256_RATE_SIZE), m_dgtState[i], PRCLEN);
-				});
-
-				Length -= PRCLEN;
-				InOffset += PRCLEN;
-			}
-
-			if (Length >= m_parallelProfile.ParallelMinimumSize())
-			{
-				const size_t PRMLEN = Length - (Length % m_parallelProfile.ParallelMinimumSize());
-
-				ParallelTools::ParallelFor(0, m_parallelProfile.ParallelMaxDegree(), [this, &Input, InOffset, PRMLEN](size_t i)
+				ParallelTools::ParallelFor(0, m_dgtState.size(), [this, &Input, InOffset, PRMLEN](size_t i)
 				{
 					ProcessLeaf(Input, InOffset + (i * Keccak::KECCAK256_RATE_SIZE), m_dgtState[i], PRMLEN);
 				});
@@ -377,8 +366,8 @@ void SHA3256::ProcessLeaf(const std::vector<uint8_t> &Input, size_t InOffset, SH
 	{
 		Keccak::FastAbsorb(Input, InOffset, Keccak::KECCAK256_RATE_SIZE, State.H);
 		Permute(State.H);
-		InOffset += m_parallelProfile.ParallelMinimumSize();
-		Length -= m_parallelProfile.ParallelMinimumSize();
+		InOffset += m_msgBuffer.size();
+		Length -= m_msgBuffer.size();
 	} 
 	while (Length > 0);
 }
diff --git a/CEX/SHA3512.cpp b/CEX/SHA3512.cpp
index 430b0eb..62ff6d9 100644
--- a/CEX/SHA3512.cpp
+++ b/CEX/SHA3512.cpp
@@ -132,7 +132,7 @@ void SHA3512::Compute(const std::vector<uint8_t> &Input, std::vector<uint8_t> &O
 
 void SHA3512::Finalize(std::vector<uint8_t> &Output, size_t OutOffset)
 {
-	if (Output.size() - OutOffset < Keccak::KECCAK512_DIGEST_SIZE)
+	if (OutOffset > Output.size() || Output.size() - OutOffset < Keccak::KECCAK512_DIGEST_SIZE)
 	{
 		throw CryptoDigestException(Name(), std::string("Finalize"), std::string("The output vector is too small!"), ErrorCodes::InvalidSize);
 	}
@@ -141,7 +141,7 @@ void SHA3512::Finalize(std::vector<uint8_t> &Output, size_t OutOffset)
 	size_t boft;
 	size_t i;
 
-	if (m_parallelProfile.IsParallel())
+	if (m_dgtState.size() > 1)
 	{
 		// pad buffer with zeros
 		if (m_msgLength < m_msgBuffer.size())
@@ -216,6 +216,10 @@ void SHA3512::ParallelMaxDegree(size_t Degree)
 	}
 
 	m_parallelProfile.SetMaxDegree(Degree);
+	m_dgtState.clear();
+	m_dgtState.resize(Degree);
+	m_msgBuffer.clear();
+	m_msgBuffer.resize(Degree * Keccak::KECCAK512_RATE_SIZE);
 
 	Reset();
 }
@@ -231,7 +235,7 @@ void SHA3512::Reset()
 	{
 		m_dgtState[i].Reset();
 
-		if (m_parallelProfile.IsParallel())
+		if (m_dgtState.size() > 1)
 		{
 			m_treeParams.NodeOffset() = static_cast<uint32_t>(i);
 			Keccak::FastAbsorb(m_treeParams.ToBytes(), 0, Keccak::KECCAK512_RATE_SIZE, m_dgtState[i].H);
@@ -266,7 +270,7 @@ void SHA3512::Update(const std::vector<uint8_t> &Input, size_t InOffset, size_t
 
 	if (Length != 0)
 	{
-		if (m_parallelProfile.IsParallel())
+		if (m_dgtState.size() > 1)
 		{
 			if (m_msgLength != 0 && Length + m_msgLength >= m_msgBuffer.size())
 			{
@@ -279,7 +283,7 @@ void SHA3512::Update(const std::vector<uint8_t> &Input, size_t InOffset, size_t
 				}
 
 				// empty the message buffer
-				ParallelTools::ParallelFor(0, m_parallelProfile.ParallelMaxDegree(), [this, &Input, InOffset](size_t i)
+				ParallelTools::ParallelFor(0, m_dgtState.size(), [this, &Input, InOffset](size_t i)
 				{
 					Keccak::FastAbsorb(m_msgBuffer, i * Keccak::KECCAK512_RATE_SIZE, Keccak::KECCAK512_RATE_SIZE, m_dgtState[i].H);
 					Permute(m_dgtState[i].H);
@@ -290,26 +294,11 @@ void SHA3512::Update(const std::vector<uint8_t> &Input, size_t InOffset, size_t
 				InOffset += RMDLEN;
 			}
 
-			if (Length >= m_parallelProfile.ParallelBlockSize())
+			if (Length >= m_msgBuffer.size())
 			{
-				// calculate working set size
-				const size_t PRCLEN = Length - (Length % m_parallelProfile.ParallelBlockSize());
+				const size_t PRMLEN = Length - (Length % m_msgBuffer.size());
 
-				// process large blocks
-				ParallelTools::ParallelFor(0, m_parallelProfile.ParallelMaxDegree(), [this, &Input, InOffset, PRCLEN](size_t i)
-				{
-					ProcessLeaf(Input, InOffset + (i * Keccak::KECCAK512_RATE_SIZE), m_dgtState[i], PRCLEN);
-				});
-
-				Length -= PRCLEN;
-				InOffset += PRCLEN;
-			}
-
-			if (Length >= m_parallelProfile.ParallelMinimumSize())
-			{
-				const size_t PRMLEN = Length - (Length % m_parallelProfile.ParallelMinimumSize());
-
-				ParallelTools::ParallelFor(0, m_parallelProfile.ParallelMaxDegree(), [this, &Input, InOffset, PRMLEN](size_t i)
+				ParallelTools::ParallelFor(0, m_dgtState.size(), [this, &Input, InOffset, PRMLEN](size_t i)
 				{
 					ProcessLeaf(Input, InOffset + (i * Keccak::KECCAK512_RATE_SIZE), m_dgtState[i], PRMLEN);
 				});
@@ -378,8 +367,8 @@ void SHA3512::ProcessLeaf(const std::vector<uint8_t> &Input, size_t InOffset, SH
 	{
 		Keccak::FastAbsorb(Input, InOffset, Keccak::KECCAK512_RATE_SIZE, State.H);
 		Permute(State.H);
-		InOffset += m_parallelProfile.ParallelMinimumSize();
-		Length -= m_parallelProfile.ParallelMinimumSize();
+		InOffset += m_msgBuffer.size();
+		Length -= m_msgBuffer.size();
 	} 
 	while (Length > 0);
 }
diff --git a/CEX/Skein1024.cpp b/CEX/Skein1024.cpp
index 1472efd..545263f 100644
--- a/CEX/Skein1024.cpp
+++ b/CEX/Skein1024.cpp
@@ -68,7 +68,7 @@ Skein1024::Skein1024(SkeinParams &Params)
 	m_dgtState(Params.FanOut() != 0 && Params.FanOut() <= MAX_PRLDEGREE ? 
 		Params.FanOut() :
 		throw CryptoDigestException(DigestConvert::ToName(Digests::Skein1024), std::string("Constructor"), std::string("The FanOut parameter can not be zero or exceed the maximum of 64!"), ErrorCodes::IllegalOperation)),
-	m_msgBuffer(Skein::SKEIN1024_RATE_SIZE),
+	m_msgBuffer(Params.FanOut() * Skein::SKEIN1024_RATE_SIZE),
 	m_msgLength(0),
 	m_parallelProfile(Skein::SKEIN1024_RATE_SIZE, static_cast<bool>(Params.FanOut() > 1), false, STATE_PRECACHED, false, Params.FanOut()),
 	m_treeParams(Params)
@@ -146,7 +146,7 @@ void Skein1024::Compute(const std::vector<uint8_t> &Input, std::vector<uint8_t>
 
 void Skein1024::Finalize(std::vector<uint8_t> &Output, size_t OutOffset)
 {
-	if (Output.size() - OutOffset < Skein::SKEIN1024_DIGEST_SIZE)
+	if (OutOffset > Output.size() || Output.size() - OutOffset < Skein::SKEIN1024_DIGEST_SIZE)
 	{
 		throw CryptoDigestException(Name(), std::string("Finalize"), std::string("The output vector is too small!"), ErrorCodes::InvalidSize);
 	}
@@ -154,7 +154,7 @@ void Skein1024::Finalize(std::vector<uint8_t> &Output, size_t OutOffset)
 	size_t bctr;
 	size_t i;
 
-	if (m_parallelProfile.IsParallel())
+	if (m_dgtState.size() > 1)
 	{
 		// pad buffer with zeros
 		if (m_msgLength < m_msgBuffer.size())
@@ -270,7 +270,7 @@ void Skein1024::Update(const std::vector<uint8_t> &Input, size_t InOffset, size_
 
 	if (Length != 0)
 	{
-		if (m_parallelProfile.IsParallel())
+		if (m_dgtState.size() > 1)
 		{
 			if (m_msgLength != 0 && Length + m_msgLength >= m_msgBuffer.size())
 			{
@@ -282,7 +282,7 @@ void Skein1024::Update(const std::vector<uint8_t> &Input, size_t InOffset, size_
 				}
 
 				// empty the message buffer
-				ParallelTools::ParallelFor(0, m_parallelProfile.ParallelMaxDegree(), [this, &Input, InOffset](size_t i)
+				ParallelTools::ParallelFor(0, m_dgtState.size(), [this, &Input, InOffset](size_t i)
 				{
 					ProcessBlock(m_msgBuffer, i * Skein::SKEIN1024_RATE_SIZE, m_dgtState[i], Skein::SKEIN1024_RATE_SIZE);
 				});
@@ -292,26 +292,11 @@ void Skein1024::Update(const std::vector<uint8_t> &Input, size_t InOffset, size_
 				InOffset += RMDLEN;
 			}
 
-			if (Length >= m_parallelProfile.ParallelBlockSize())
+			if (Length >= m_msgBuffer.size())
 			{
-				// calculate working set size
-				const size_t PRCLEN = Length - (Length % m_parallelProfile.ParallelBlockSize());
+				const size_t PRMLEN = Length - (Length % m_msgBuffer.size());
 
-				// process large blocks
-				ParallelTools::ParallelFor(0, m_parallelProfile.ParallelMaxDegree(), [this, &Input, InOffset, PRCLEN](size_t i)
-				{
-					ProcessLeaf(Input, InOffset + (i * Skein::SKEIN1024_RATE_SIZE), m_dgtState[i], PRCLEN);
-				});
-
-				Length -= PRCLEN;
-				InOffset += PRCLEN;
-			}
-
-			if (Length >= m_parallelProfile.ParallelMinimumSize())
-			{
-				const size_t PRMLEN = Length - (Length % m_parallelProfile.ParallelMinimumSize());
-
-				ParallelTools::ParallelFor(0, m_parallelProfile.ParallelMaxDegree(), [this, &Input, InOffset, PRMLEN](size_t i)
+				ParallelTools::ParallelFor(0, m_dgtState.size(), [this, &Input, InOffset, PRMLEN](size_t i)
 				{
 					ProcessLeaf(Input, InOffset + (i * Skein::SKEIN1024_RATE_SIZE), m_dgtState[i], PRMLEN);
 				});
@@ -459,8 +444,8 @@ void Skein1024::ProcessLeaf(const std::vector<uint8_t> &Input, size_t InOffset,
 	{
 		// process message offset by lane size
 		ProcessBlock(Input, InOffset, State, Skein::SKEIN1024_RATE_SIZE);
-		InOffset += m_parallelProfile.ParallelMinimumSize();
-		Length -= m_parallelProfile.ParallelMinimumSize();
+		InOffset += m_msgBuffer.size();
+		Length -= m_msgBuffer.size();
 	} 
 	while (Length > 0);
 }
diff --git a/CEX/Skein256.cpp b/CEX/Skein256.cpp
index c46e84d..3d0a1fd 100644
--- a/CEX/Skein256.cpp
+++ b/CEX/Skein256.cpp
@@ -145,7 +145,7 @@ void Skein256::Compute(const std::vector<uint8_t> &Input, std::vector<uint8_t> &
 
 void Skein256::Finalize(std::vector<uint8_t> &Output, size_t OutOffset)
 {
-	if (Output.size() - OutOffset < Skein::SKEIN256_DIGEST_SIZE)
+	if (OutOffset > Output.size() || Output.size() - OutOffset < Skein::SKEIN256_DIGEST_SIZE)
 	{
 		throw CryptoDigestException(Name(), std::string("Finalize"), std::string("The output vector is too small!"), ErrorCodes::InvalidSize);
 	}
@@ -153,7 +153,7 @@ void Skein256::Finalize(std::vector<uint8_t> &Output, size_t OutOffset)
 	size_t bctr;
 	size_t i;
 
-	if (m_parallelProfile.IsParallel())
+	if (m_dgtState.size() > 1)
 	{
 		// pad buffer with zeros
 		if (m_msgLength < m_msgBuffer.size())
@@ -265,7 +265,7 @@ void Skein256::Update(const std::vector<uint8_t> &Input, size_t InOffset, size_t
 
 	if (Length != 0)
 	{
-		if (m_parallelProfile.IsParallel())
+		if (m_dgtState.size() > 1)
 		{
 			if (m_msgLength != 0 && Length + m_msgLength >= m_msgBuffer.size())
 			{
@@ -277,7 +277,7 @@ void Skein256::Update(const std::vector<uint8_t> &Input, size_t InOffset, size_t
 				}
 
 				// empty the message buffer
-				ParallelTools::ParallelFor(0, m_parallelProfile.ParallelMaxDegree(), [this, &Input, InOffset](size_t i)
+				ParallelTools::ParallelFor(0, m_dgtState.size(), [this, &Input, InOffset](size_t i)
 				{
 					ProcessBlock(m_msgBuffer, i * Skein::SKEIN256_RATE_SIZE, m_dgtState[i], Skein::SKEIN256_RATE_SIZE);
 				});
@@ -287,26 +287,11 @@ void Skein256::Update(const std::vector<uint8_t> &Input, size_t InOffset, size_t
 				InOffset += RMDLEN;
 			}
 
-			if (Length >= m_parallelProfile.ParallelBlockSize())
+			if (Length >= m_msgBuffer.size())
 			{
-				// calculate working set size
-				const size_t PRCLEN = Length - (Length % m_parallelProfile.ParallelBlockSize());
+				const size_t PRMLEN = Length - (Length % m_msgBuffer.size());
 
-				// process large blocks
-				ParallelTools::ParallelFor(0, m_parallelProfile.ParallelMaxDegree(), [this, &Input, InOffset, PRCLEN](size_t i)
-				{
-					ProcessLeaf(Input, InOffset + (i * Skein::SKEIN256_RATE_SIZE), m_dgtState[i], PRCLEN);
-				});
-
-				Length -= PRCLEN;
-				InOffset += PRCLEN;
-			}
-
-			if (Length >= m_parallelProfile.ParallelMinimumSize())
-			{
-				const size_t PRMLEN = Length - (Length % m_parallelProfile.ParallelMinimumSize());
-
-				ParallelTools::ParallelFor(0, m_parallelProfile.ParallelMaxDegree(), [this, &Input, InOffset, PRMLEN](size_t i)
+				ParallelTools::ParallelFor(0, m_dgtState.size(), [this, &Input, InOffset, PRMLEN](size_t i)
 				{
 					ProcessLeaf(Input, InOffset + (i * Skein::SKEIN256_RATE_SIZE), m_dgtState[i], PRMLEN);
 				});
@@ -445,8 +430,8 @@ void Skein256::ProcessLeaf(const std::vector<uint8_t> &Input, size_t InOffset, S
 	{
 		// process message offset by lane size
 		ProcessBlock(Input, InOffset, State, Skein::SKEIN256_RATE_SIZE);
-		InOffset += m_parallelProfile.ParallelMinimumSize();
-		Length -= m_parallelProfile.ParallelMinimumSize();
+		InOffset += m_msgBuffer.size();
+		Length -= m_msgBuffer.size();
 	} 
 	while (Length > 0);
 }
diff --git a/CEX/Skein512.cpp b/CEX/Skein512.cpp
index 74ebd39..2f1ba1e 100644
--- a/CEX/Skein512.cpp
+++ b/CEX/Skein512.cpp
@@ -68,7 +68,7 @@ Skein512::Skein512(SkeinParams &Params)
 	m_dgtState(Params.FanOut() != 0 && Params.FanOut() <= MAX_PRLDEGREE ? 
 		Params.FanOut() :
 		throw CryptoDigestException(DigestConvert::ToName(Digests::Skein512), std::string("Constructor"), std::string("The FanOut parameter can not be zero or exceed the maximum of 64!"), ErrorCodes::IllegalOperation)),
-	m_msgBuffer(Skein::SKEIN512_RATE_SIZE),
+	m_msgBuffer(Params.FanOut() * Skein::SKEIN512_RATE_SIZE),
 	m_msgLength(0),
 	m_parallelProfile(Skein::SKEIN512_RATE_SIZE, static_cast<bool>(Params.FanOut() > 1), false, STATE_PRECACHED, false, Params.FanOut()),
 	m_treeParams(Params)
@@ -146,7 +146,7 @@ void Skein512::Compute(const std::vector<uint8_t> &Input, std::vector<uint8_t> &
 
 void Skein512::Finalize(std::vector<uint8_t> &Output, size_t OutOffset)
 {
-	if (Output.size() - OutOffset < Skein::SKEIN512_DIGEST_SIZE)
+	if (OutOffset > Output.size() || Output.size() - OutOffset < Skein::SKEIN512_DIGEST_SIZE)
 	{
 		throw CryptoDigestException(Name(), std::string("Finalize"), std::string("The output vector is too small!"), ErrorCodes::InvalidSize);
 	}
@@ -154,7 +154,7 @@ void Skein512::Finalize(std::vector<uint8_t> &Output, size_t OutOffset)
 	size_t bctr;
 	size_t i;
 
-	if (m_parallelProfile.IsParallel())
+	if (m_dgtState.size() > 1)
 	{
 		// pad buffer with zeros
 		if (m_msgLength < m_msgBuffer.size())
@@ -270,7 +270,7 @@ void Skein512::Update(const std::vector<uint8_t> &Input, size_t InOffset, size_t
 
 	if (Length != 0)
 	{
-		if (m_parallelProfile.IsParallel())
+		if (m_dgtState.size() > 1)
 		{
 			if (m_msgLength != 0 && Length + m_msgLength >= m_msgBuffer.size())
 			{
@@ -282,7 +282,7 @@ void Skein512::Update(const std::vector<uint8_t> &Input, size_t InOffset, size_t
 				}
 
 				// empty the message buffer
-				ParallelTools::ParallelFor(0, m_parallelProfile.ParallelMaxDegree(), [this, &Input, InOffset](size_t i)
+				ParallelTools::ParallelFor(0, m_dgtState.size(), [this, &Input, InOffset](size_t i)
 				{
 					ProcessBlock(m_msgBuffer, i * Skein::SKEIN512_RATE_SIZE, m_dgtState[i], Skein::SKEIN512_RATE_SIZE);
 				});
@@ -292,26 +292,11 @@ void Skein512::Update(const std::vector<uint8_t> &Input, size_t InOffset, size_t
 				InOffset += RMDLEN;
 			}
 
-			if (Length >= m_parallelProfile.ParallelBlockSize())
+			if (Length >= m_msgBuffer.size())
 			{
-				// calculate working set size
-				const size_t PRCLEN = Length - (Length % m_parallelProfile.ParallelBlockSize());
+				const size_t PRMLEN = Length - (Length % m_msgBuffer.size());
 
-				// process large blocks
-				ParallelTools::ParallelFor(0, m_parallelProfile.ParallelMaxDegree(), [this, &Input, InOffset, PRCLEN](size_t i)
-				{
-					ProcessLeaf(Input, InOffset + (i * Skein::SKEIN512_RATE_SIZE), m_dgtState[i], PRCLEN);
-				});
-
-				Length -= PRCLEN;
-				InOffset += PRCLEN;
-			}
-
-			if (Length >= m_parallelProfile.ParallelMinimumSize())
-			{
-				const size_t PRMLEN = Length - (Length % m_parallelProfile.ParallelMinimumSize());
-
-				ParallelTools::ParallelFor(0, m_parallelProfile.ParallelMaxDegree(), [this, &Input, InOffset, PRMLEN](size_t i)
+				ParallelTools::ParallelFor(0, m_dgtState.size(), [this, &Input, InOffset, PRMLEN](size_t i)
 				{
 					ProcessLeaf(Input, InOffset + (i * Skein::SKEIN512_RATE_SIZE), m_dgtState[i], PRMLEN);
 				});
@@ -465,8 +450,8 @@ void Skein512::ProcessLeaf(const std::vector<uint8_t> &Input, size_t InOffset, S
 	{
 		// process message offset by lane size
 		ProcessBlock(Input, InOffset, State, Skein::SKEIN512_RATE_SIZE);
-		InOffset += m_parallelProfile.ParallelMinimumSize();
-		Length -= m_parallelProfile.ParallelMinimumSize();
+		InOffset += m_msgBuffer.size();
+		Length -= m_msgBuffer.size();
 	} 
 	while (Length > 0);
 }
-- 
2.43.0


From 4ff693308ef8557d0e2d659145fb5e9ccc1fff3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:08 +0000
Subject: [PATCH 042/155] fix: Blake parameters overwrite the salt and
 personalization of a keyed instance

---
 CEX/BlakeParams.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/CEX/BlakeParams.h b/CEX/BlakeParams.h
index 1b6b4c3..2767448 100644
--- a/CEX/BlakeParams.h
+++ b/CEX/BlakeParams.h
@@ -196,7 +196,7 @@ public:
 
 			for (size_t i = 3; i < Config.size(); ++i)
 			{
-				Config[i] = IntegerTools::LeBytesTo64(m_dstCode, (i - 3) * sizeof(uint64_t));
+				Config[i] |= IntegerTools::LeBytesTo64(m_dstCode, (i - 3) * sizeof(uint64_t));
 			}
 		}
 		else
@@ -209,11 +209,11 @@ public:
 			Config[2] = m_nodeOffset;
 			Config[3] |= (static_cast<uint32_t>(m_nodeDepth) << 16);
 			Config[3] |= (static_cast<uint32_t>(m_innerLen) << 24);
-			Config[4] = m_reserved;
+			Config[4] |= m_reserved;
 
 			for (size_t i = 5; i < Config.size(); ++i)
 			{
-				Config[i] = IntegerTools::LeBytesTo32(m_dstCode, (i - 5) * sizeof(uint32_t));
+				Config[i] |= IntegerTools::LeBytesTo32(m_dstCode, (i - 5) * sizeof(uint32_t));
 			}
 		}
 	}
-- 
2.43.0


From 58adf96dcd08410698e058783c5964dabccd26d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:08 +0000
Subject: [PATCH 043/155] fix: Blake tree hashing drops half of the buffer and
 miscounts long messages

---
 CEX/Blake256.cpp | 28 +++++++++++++++++-----------
 CEX/Blake512.cpp | 39 +++++++++++++++++++++++----------------
 2 files changed, 40 insertions(+), 27 deletions(-)

diff --git a/CEX/Blake256.cpp b/CEX/Blake256.cpp
index e16a007..92e315b 100644
--- a/CEX/Blake256.cpp
+++ b/CEX/Blake256.cpp
@@ -163,7 +163,7 @@ void Blake256::Compute(const std::vector<uint8_t> &Input, std::vector<uint8_t> &
 
 void Blake256::Finalize(std::vector<uint8_t> &Output, size_t OutOffset)
 {
-	if (Output.size() - OutOffset < Blake::BLAKE256_DIGEST_SIZE)
+	if (OutOffset > Output.size() || Output.size() - OutOffset < Blake::BLAKE256_DIGEST_SIZE)
 	{
 		throw CryptoDigestException(Name(), std::string("Finalize"), std::string("The output vector is too small!"), ErrorCodes::InvalidSize);
 	}
@@ -235,7 +235,7 @@ void Blake256::Finalize(std::vector<uint8_t> &Output, size_t OutOffset)
 
 			IntegerTools::LeIncreaseW(m_dgtState[i].T, m_dgtState[i].T, blen);
 			Permute(m_msgBuffer, i * Blake::BLAKE256_RATE_SIZE, m_dgtState[i]);
-			m_msgLength -= Blake::BLAKE256_RATE_SIZE;
+			m_msgLength -= IntegerTools::Min(m_msgLength, static_cast<size_t>(Blake::BLAKE256_RATE_SIZE));
 
 			IntegerTools::LeUL256ToBlock(m_dgtState[i].H, 0, codes, i * Blake::BLAKE256_DIGEST_SIZE);
 		}
@@ -334,7 +334,7 @@ void Blake256::Initialize(Cipher::ISymmetricKey &MacKey)
 			m_treeParams.NodeOffset() = static_cast<uint8_t>(i);
 			LoadState( m_treeParams, config, m_dgtState[i]);
 		}
-		m_msgLength = m_parallelProfile.ParallelMinimumSize();
+		m_msgLength = m_treeParams.FanOut() * Blake::BLAKE256_RATE_SIZE;
 		m_treeParams.NodeOffset() = 0;
 	}
 	else
@@ -356,7 +356,7 @@ void Blake256::ParallelMaxDegree(size_t Degree)
 	m_dgtState.clear();
 	m_dgtState.resize(Degree);
 	m_msgBuffer.clear();
-	m_msgBuffer.resize(Degree * Blake::BLAKE256_RATE_SIZE);
+	m_msgBuffer.resize(2 * Degree * Blake::BLAKE256_RATE_SIZE);
 
 	if (Degree > 1 && m_parallelProfile.ProcessorCount() > 1)
 	{
@@ -379,6 +379,8 @@ void Blake256::Reset()
 	std::vector<uint32_t> config(CONFIG_SIZE);
 	size_t i;
 
+	m_treeParams.KeyLength() = 0;
+
 	if (m_treeParams.FanOut() > 1)
 	{
 		for (i = 0; i < m_treeParams.FanOut(); ++i)
@@ -431,7 +433,8 @@ void Blake256::Update(const std::vector<uint8_t> &Input, size_t InOffset, size_t
 		if (m_treeParams.FanOut() > 1)
 		{
 			tlen = Length + m_msgLength;
-			const size_t PRLMIN = m_msgBuffer.size() + (m_parallelProfile.ParallelMinimumSize() - Blake::BLAKE256_RATE_SIZE);
+			const size_t MINPRL = m_treeParams.FanOut() * Blake::BLAKE256_RATE_SIZE;
+			const size_t PRLMIN = m_msgBuffer.size() + (MINPRL - Blake::BLAKE256_RATE_SIZE);
 
 			// input larger than min parallel; process buffer and loop-in remainder
 			if (tlen > PRLMIN)
@@ -453,17 +456,19 @@ void Blake256::Update(const std::vector<uint8_t> &Input, size_t InOffset, size_t
 				{
 					IntegerTools::LeIncreaseW(m_dgtState[i].T, m_dgtState[i].T, Blake::BLAKE256_RATE_SIZE);
 					Permute(m_msgBuffer, i * Blake::BLAKE256_RATE_SIZE, m_dgtState[i]);
+					IntegerTools::LeIncreaseW(m_dgtState[i].T, m_dgtState[i].T, Blake::BLAKE256_RATE_SIZE);
+					Permute(m_msgBuffer, (m_treeParams.FanOut() + i) * Blake::BLAKE256_RATE_SIZE, m_dgtState[i]);
 				});
 
 				// loop in the remainder (no buffering)
 				if (Length > PRLMIN)
 				{
 					// calculate working set size
-					plen = Length - m_parallelProfile.ParallelMinimumSize();
+					plen = Length - MINPRL;
 
-					if (plen % m_parallelProfile.ParallelMinimumSize() != 0)
+					if (plen % MINPRL != 0)
 					{
-						plen -= (plen % m_parallelProfile.ParallelMinimumSize());
+						plen -= (plen % MINPRL);
 					}
 
 					// process large blocks
@@ -500,7 +505,7 @@ void Blake256::Update(const std::vector<uint8_t> &Input, size_t InOffset, size_t
 				});
 
 				// left rotate the buffer
-				m_msgLength -= m_parallelProfile.ParallelMinimumSize();
+				m_msgLength -= MINPRL;
 				const size_t FNLLEN = m_msgBuffer.size() / 2;
 				MemoryTools::Copy(m_msgBuffer, FNLLEN, m_msgBuffer, 0, FNLLEN);
 			}
@@ -580,9 +585,10 @@ void Blake256::ProcessLeaf(const std::vector<uint8_t> &Input, size_t InOffset, s
 {
 	do
 	{
+		IntegerTools::LeIncreaseW(State.T, State.T, Blake::BLAKE256_RATE_SIZE);
 		Permute(Input, InOffset, State);
-		InOffset += m_parallelProfile.ParallelMinimumSize();
-		Length -= m_parallelProfile.ParallelMinimumSize();
+		InOffset += m_treeParams.FanOut() * Blake::BLAKE256_RATE_SIZE;
+		Length -= m_treeParams.FanOut() * Blake::BLAKE256_RATE_SIZE;
 	} 
 	while (Length > 0);
 }
diff --git a/CEX/Blake512.cpp b/CEX/Blake512.cpp
index 067c8ef..d067b5b 100644
--- a/CEX/Blake512.cpp
+++ b/CEX/Blake512.cpp
@@ -167,7 +167,7 @@ void Blake512::Compute(const std::vector<uint8_t> &Input, std::vector<uint8_t> &
 
 void Blake512::Finalize(std::vector<uint8_t> &Output, size_t OutOffset)
 {
-	if (Output.size() - OutOffset < Blake::BLAKE512_DIGEST_SIZE)
+	if (OutOffset > Output.size() || Output.size() - OutOffset < Blake::BLAKE512_DIGEST_SIZE)
 	{
 		throw CryptoDigestException(Name(), std::string("Finalize"), std::string("The output vector is too small!"), ErrorCodes::InvalidSize);
 	}
@@ -183,20 +183,21 @@ void Blake512::Finalize(std::vector<uint8_t> &Output, size_t OutOffset)
 
 		// clear the unused buffer
 		MemoryTools::Clear(m_msgBuffer, m_msgLength, m_msgBuffer.size() - m_msgLength);
+		const size_t MINPRL = m_treeParams.FanOut() * Blake::BLAKE512_RATE_SIZE;
 		pblk = 0xFFFFFFFFFFFFFFFFULL;
 
 		// process unaligned blocks
-		if (m_msgLength > m_parallelProfile.ParallelMinimumSize())
+		if (m_msgLength > MINPRL)
 		{
-			bcnt = (m_msgLength % Blake::BLAKE512_RATE_SIZE != 0) ? ((m_msgLength - m_parallelProfile.ParallelMinimumSize()) / Blake::BLAKE512_RATE_SIZE) + 1 :
-				((m_msgLength - m_parallelProfile.ParallelMinimumSize()) / Blake::BLAKE512_RATE_SIZE);
+			bcnt = (m_msgLength % Blake::BLAKE512_RATE_SIZE != 0) ? ((m_msgLength - MINPRL) / Blake::BLAKE512_RATE_SIZE) + 1 :
+				((m_msgLength - MINPRL) / Blake::BLAKE512_RATE_SIZE);
 
 			for (i = 0; i < bcnt; ++i)
 			{
 				// process partial block set
 				IntegerTools::LeIncreaseW(m_dgtState[i].T, m_dgtState[i].T, Blake::BLAKE512_RATE_SIZE);
 				Permute(m_msgBuffer, (i * Blake::BLAKE512_RATE_SIZE), m_dgtState[i]);
-				MemoryTools::Copy(m_msgBuffer, m_parallelProfile.ParallelMinimumSize() + (i * Blake::BLAKE512_RATE_SIZE), m_msgBuffer, i * Blake::BLAKE512_RATE_SIZE, Blake::BLAKE512_RATE_SIZE);
+				MemoryTools::Copy(m_msgBuffer, MINPRL + (i * Blake::BLAKE512_RATE_SIZE), m_msgBuffer, i * Blake::BLAKE512_RATE_SIZE, Blake::BLAKE512_RATE_SIZE);
 				m_msgLength -= Blake::BLAKE512_RATE_SIZE;
 			}
 
@@ -237,7 +238,7 @@ void Blake512::Finalize(std::vector<uint8_t> &Output, size_t OutOffset)
 
 			IntegerTools::LeIncreaseW(m_dgtState[i].T, m_dgtState[i].T, blen);
 			Permute(m_msgBuffer, i * Blake::BLAKE512_RATE_SIZE, m_dgtState[i]);
-			m_msgLength -= Blake::BLAKE512_RATE_SIZE;
+			m_msgLength -= IntegerTools::Min(m_msgLength, static_cast<size_t>(Blake::BLAKE512_RATE_SIZE));
 			IntegerTools::LeULL512ToBlock(m_dgtState[i].H, 0, codes, i * Blake::BLAKE512_DIGEST_SIZE);
 		}
 
@@ -270,7 +271,7 @@ void Blake512::Finalize(std::vector<uint8_t> &Output, size_t OutOffset)
 		IntegerTools::LeIncreaseW(m_dgtState[0].T, m_dgtState[0].T, Blake::BLAKE512_RATE_SIZE);
 		Permute(m_msgBuffer, m_msgLength - Blake::BLAKE512_RATE_SIZE, m_dgtState[0]);
 		// output the code
-		IntegerTools::LeULL512ToBlock(m_dgtState[0].H, 0, Output, 0);
+		IntegerTools::LeULL512ToBlock(m_dgtState[0].H, 0, Output, OutOffset);
 	}
 	else
 	{
@@ -335,7 +336,7 @@ void Blake512::Initialize(Cipher::ISymmetricKey &MacKey)
 			m_treeParams.NodeOffset() = static_cast<uint8_t>(i);
 			LoadState(m_dgtState[i], m_treeParams, config);
 		}
-		m_msgLength = m_parallelProfile.ParallelMinimumSize();
+		m_msgLength = m_treeParams.FanOut() * Blake::BLAKE512_RATE_SIZE;
 		m_treeParams.NodeOffset() = 0;
 	}
 	else
@@ -357,7 +358,7 @@ void Blake512::ParallelMaxDegree(size_t Degree)
 	m_dgtState.clear();
 	m_dgtState.resize(Degree);
 	m_msgBuffer.clear();
-	m_msgBuffer.resize(Degree * Blake::BLAKE512_RATE_SIZE);
+	m_msgBuffer.resize(2 * Degree * Blake::BLAKE512_RATE_SIZE);
 
 	if (Degree > 1 && m_parallelProfile.ProcessorCount() > 1)
 	{
@@ -380,6 +381,8 @@ void Blake512::Reset()
 	std::vector<uint64_t> config(CONFIG_SIZE);
 	size_t i;
 
+	m_treeParams.KeyLength() = 0;
+
 	if (m_treeParams.FanOut() > 1)
 	{
 		for (i = 0; i < m_treeParams.FanOut(); ++i)
@@ -431,7 +434,8 @@ void Blake512::Update(const std::vector<uint8_t> &Input, size_t InOffset, size_t
 		if (m_treeParams.FanOut() > 1)
 		{
 			tlen = Length + m_msgLength;
-			const size_t PRLMIN = m_msgBuffer.size() + (m_parallelProfile.ParallelMinimumSize() - Blake::BLAKE512_RATE_SIZE);
+			const size_t MINPRL = m_treeParams.FanOut() * Blake::BLAKE512_RATE_SIZE;
+			const size_t PRLMIN = m_msgBuffer.size() + (MINPRL - Blake::BLAKE512_RATE_SIZE);
 
 			// input larger than min parallel; process buffer and loop-in remainder
 			if (tlen > PRLMIN)
@@ -454,16 +458,18 @@ void Blake512::Update(const std::vector<uint8_t> &Input, size_t InOffset, size_t
 				{
 					IntegerTools::LeIncreaseW(m_dgtState[i].T, m_dgtState[i].T, Blake::BLAKE512_RATE_SIZE);
 					Permute(m_msgBuffer, i * Blake::BLAKE512_RATE_SIZE, m_dgtState[i]);
+					IntegerTools::LeIncreaseW(m_dgtState[i].T, m_dgtState[i].T, Blake::BLAKE512_RATE_SIZE);
+					Permute(m_msgBuffer, (m_treeParams.FanOut() + i) * Blake::BLAKE512_RATE_SIZE, m_dgtState[i]);
 				});
 
 				// loop in the remainder (no buffering)
 				if (Length > PRLMIN)
 				{
 					// calculate working set size
-					plen = Length - m_parallelProfile.ParallelMinimumSize();
-					if (plen % m_parallelProfile.ParallelMinimumSize() != 0)
+					plen = Length - MINPRL;
+					if (plen % MINPRL != 0)
 					{
-						plen -= (plen % m_parallelProfile.ParallelMinimumSize());
+						plen -= (plen % MINPRL);
 					}
 
 					// process large blocks
@@ -501,7 +507,7 @@ void Blake512::Update(const std::vector<uint8_t> &Input, size_t InOffset, size_t
 				});
 
 				// left rotate the buffer
-				m_msgLength -= m_parallelProfile.ParallelMinimumSize();
+				m_msgLength -= MINPRL;
 				const size_t FNLLEN = m_msgBuffer.size() / 2;
 				MemoryTools::Copy(m_msgBuffer, FNLLEN, m_msgBuffer, 0, FNLLEN);
 			}
@@ -581,9 +587,10 @@ void Blake512::ProcessLeaf(const std::vector<uint8_t> &Input, size_t InOffset, u
 {
 	do
 	{
+		IntegerTools::LeIncreaseW(State.T, State.T, Blake::BLAKE512_RATE_SIZE);
 		Permute(Input, InOffset, State);
-		InOffset += m_parallelProfile.ParallelMinimumSize();
-		Length -= m_parallelProfile.ParallelMinimumSize();
+		InOffset += m_treeParams.FanOut() * Blake::BLAKE512_RATE_SIZE;
+		Length -= m_treeParams.FanOut() * Blake::BLAKE512_RATE_SIZE;
 	}
 	while (Length > 0);
 }
-- 
2.43.0


From a96b5c925e5bef41e63ff773fedcf12335ca4b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:20 +0000
Subject: [PATCH 044/155] fix: KPA declares the wrong 512-bit tag size and
 ignores its output offset

---
 CEX/KPA.cpp | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/CEX/KPA.cpp b/CEX/KPA.cpp
index 018104f..651661d 100644
--- a/CEX/KPA.cpp
+++ b/CEX/KPA.cpp
@@ -72,7 +72,7 @@ public:
 
 		for (size_t i = 0; i < State.size(); ++i)
 		{
-			MemoryTools::Clear(State[i], 0, State[i].size());
+			MemoryTools::Clear(State[i], 0, State[i].size() * sizeof(uint64_t));
 		}
 
 		MemoryTools::Clear(Buffer, 0, Buffer.size());
@@ -92,7 +92,7 @@ public:
 
 		for (size_t i = 0; i < State.size(); ++i)
 		{
-			MemoryTools::Clear(State[i], 0, State[i].size());
+			MemoryTools::Clear(State[i], 0, State[i].size() * sizeof(uint64_t));
 		}
 
 		MemoryTools::Clear(Buffer, 0, Buffer.size());
@@ -117,7 +117,7 @@ KPA::KPA(KpaModes KbaModeType)
 		0,
 		(KbaModeType == KpaModes::KPA128 ? Keccak::KECCAK128_DIGEST_SIZE :
 			KbaModeType == KpaModes::KPA256 ? Keccak::KECCAK256_DIGEST_SIZE :
-			KbaModeType == KpaModes::KPA512)),
+			Keccak::KECCAK512_DIGEST_SIZE)),
 	m_kbaState(KbaModeType != KpaModes::None ? new KpaState(BlockSize(), TagSize(), KbaModeType) :
 		throw CryptoMacException(std::string("KPA"), std::string("Constructor"), std::string("The kmac mode type is not supported!"), ErrorCodes::InvalidParam))
 {
@@ -167,6 +167,11 @@ KPA::KPA(KpaModes KbaModeType)
 
 	size_t KPA::Finalize(std::vector<uint8_t> &Output, size_t OutOffset)
 	{
+		if (OutOffset > Output.size() || Output.size() - OutOffset < TagSize())
+		{
+			throw CryptoMacException(Name(), std::string("Finalize"), std::string("The Output buffer is too int16_t!"), ErrorCodes::InvalidSize);
+		}
+
 		SecureVector<uint8_t> tmph(Output.size() - OutOffset);
 
 		Finalize(tmph, 0);
@@ -181,7 +186,7 @@ KPA::KPA(KpaModes KbaModeType)
 		{
 			throw CryptoMacException(Name(), std::string("Finalize"), std::string("The MAC has not been initialized!"), ErrorCodes::NotInitialized);
 		}
-		if ((Output.size() - OutOffset) < TagSize())
+		if (OutOffset > Output.size() || Output.size() - OutOffset < TagSize())
 		{
 			throw CryptoMacException(Name(), std::string("Finalize"), std::string("The Output buffer is too int16_t!"), ErrorCodes::InvalidSize);
 		}
@@ -202,8 +207,9 @@ KPA::KPA(KpaModes KbaModeType)
 		size_t outlen;
 		size_t outoft;
 
-		outlen = Output.size();
-		outoft = 0;
+		const size_t MACLEN = Output.size() - OutOffset;
+		outlen = MACLEN;
+		outoft = OutOffset;
 
 		// clear unused buffer
 		if (m_kbaState->Position != 0)
@@ -234,7 +240,7 @@ KPA::KPA(KpaModes KbaModeType)
 		MemoryTools::Clear(m_kbaState->Buffer, 0, m_kbaState->Buffer.size());
 
 		// add total processed bytes and output length to padding string
-		bitlen = Keccak::RightEncode(prcb, 0, 8ULL * Output.size());
+		bitlen = Keccak::RightEncode(prcb, 0, 8ULL * MACLEN);
 		bitlen += Keccak::RightEncode(prcb, bitlen, 8ULL * m_kbaState->Processed);
 		// copy to buffer
 		MemoryTools::Copy(prcb, 0, m_kbaState->Buffer, 0, bitlen);
@@ -268,7 +274,7 @@ KPA::KPA(KpaModes KbaModeType)
 		m_kbaState->Position = 0;
 		m_kbaState->Processed = 0;
 
-		return Output.size();
+		return MACLEN;
 	}
 
 	void KPA::Initialize(ISymmetricKey &Parameters)
@@ -316,7 +322,7 @@ KPA::KPA(KpaModes KbaModeType)
 		{
 			for (i = 0; i < m_kbaState->State.size(); ++i)
 			{
-				MemoryTools::Clear(m_kbaState->State[i], 0, m_kbaState->State[i].size());
+				MemoryTools::Clear(m_kbaState->State[i], 0, m_kbaState->State[i].size() * sizeof(uint64_t));
 			}
 
 			MemoryTools::Clear(m_kbaState->Buffer, 0, sizeof(m_kbaState->Buffer));
@@ -463,7 +469,7 @@ KPA::KPA(KpaModes KbaModeType)
 		{
 			throw CryptoMacException(Name(), std::string("Update"), std::string("The MAC has not been initialized!"), ErrorCodes::NotInitialized);
 		}
-		if ((Input.size() - InOffset) < Length)
+		if (InOffset > Input.size() || Input.size() - InOffset < Length)
 		{
 			throw CryptoMacException(Name(), std::string("Update"), std::string("The Input buffer is too int16_t!"), ErrorCodes::InvalidSize);
 		}
-- 
2.43.0


From 7c9d2e2ae6359f59233ba417e71ebee164854ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:20 +0000
Subject: [PATCH 045/155] fix: KMAC drops part of the encoded output length at
 a block boundary

---
 CEX/KMAC.cpp | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/CEX/KMAC.cpp b/CEX/KMAC.cpp
index e82c5c1..b1f6a3a 100644
--- a/CEX/KMAC.cpp
+++ b/CEX/KMAC.cpp
@@ -131,6 +131,11 @@ void KMAC::Compute(const std::vector<uint8_t> &Input, std::vector<uint8_t> &Outp
 
 size_t KMAC::Finalize(std::vector<uint8_t> &Output, size_t OutOffset)
 {
+	if (OutOffset > Output.size() || Output.size() - OutOffset < TagSize())
+	{
+		throw CryptoMacException(Name(), std::string("Finalize"), std::string("The Output buffer is too int16_t!"), ErrorCodes::InvalidSize);
+	}
+
 	SecureVector<uint8_t> tmph(Output.size() - OutOffset);
 
 	Finalize(tmph, 0);
@@ -150,7 +155,7 @@ size_t KMAC::Finalize(SecureVector<uint8_t> &Output, size_t OutOffset)
 	{
 		throw CryptoMacException(Name(), std::string("Finalize"), std::string("The MAC has not been initialized!"), ErrorCodes::NotInitialized);
 	}
-	if ((Output.size() - OutOffset) < TagSize())
+	if (OutOffset > Output.size() || Output.size() - OutOffset < TagSize())
 	{
 		throw CryptoMacException(Name(), std::string("Finalize"), std::string("The Output buffer is too int16_t!"), ErrorCodes::InvalidSize);
 	}
@@ -164,10 +169,19 @@ size_t KMAC::Finalize(SecureVector<uint8_t> &Output, size_t OutOffset)
 
 	for (i = 0; i < blen; i++)
 	{
-		m_kmacState->Buffer[m_kmacState->Position + i] = buf[i];
+		m_kmacState->Buffer[m_kmacState->Position] = buf[i];
+		++m_kmacState->Position;
+
+		// the encoded length spans a block boundary
+		if (m_kmacState->Position == m_kmacState->Rate)
+		{
+			Keccak::FastAbsorb(m_kmacState->Buffer, 0, m_kmacState->Rate, m_kmacState->State);
+			Permute(m_kmacState);
+			MemoryTools::Clear(m_kmacState->Buffer, 0, m_kmacState->Buffer.size());
+			m_kmacState->Position = 0;
+		}
 	}
 
-	m_kmacState->Position += blen;
 	m_kmacState->Buffer[m_kmacState->Position] = Keccak::KECCAK_KMAC_DOMAIN;
 	m_kmacState->Buffer[m_kmacState->Rate - 1] |= 128;
 
@@ -232,7 +246,7 @@ void KMAC::Update(const std::vector<uint8_t> &Input, size_t InOffset, size_t Len
 	{
 		throw CryptoMacException(Name(), std::string("Update"), std::string("The MAC has not been initialized!"), ErrorCodes::NotInitialized);
 	}
-	if ((Input.size() - InOffset) < Length)
+	if (InOffset > Input.size() || Input.size() - InOffset < Length)
 	{
 		throw CryptoMacException(Name(), std::string("Update"), std::string("The Input buffer is too int16_t!"), ErrorCodes::InvalidSize);
 	}
-- 
2.43.0


From 78e733ee937a8c90ddd52ffcc2935badc9a09efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:20 +0000
Subject: [PATCH 046/155] fix: the MACs accept offsets beyond the end of the
 input or output array

---
 CEX/CMAC.cpp     | 9 +++++++--
 CEX/GMAC.cpp     | 9 +++++++--
 CEX/HMAC.cpp     | 9 +++++++--
 CEX/Poly1305.cpp | 9 +++++++--
 4 files changed, 28 insertions(+), 8 deletions(-)

diff --git a/CEX/CMAC.cpp b/CEX/CMAC.cpp
index ceb5d9f..5da16e2 100644
--- a/CEX/CMAC.cpp
+++ b/CEX/CMAC.cpp
@@ -155,7 +155,7 @@ size_t CMAC::Finalize(std::vector<uint8_t> &Output, size_t OutOffset)
 	{
 		throw CryptoMacException(Name(), std::string("Finalize"), std::string("The MAC has not been initialized!"), ErrorCodes::NotInitialized);
 	}
-	if ((Output.size() - OutOffset) < TagSize())
+	if (OutOffset > Output.size() || Output.size() - OutOffset < TagSize())
 	{
 		throw CryptoMacException(Name(), std::string("Finalize"), std::string("The Output buffer is too int16_t!"), ErrorCodes::InvalidSize);
 	}
@@ -179,6 +179,11 @@ size_t CMAC::Finalize(std::vector<uint8_t> &Output, size_t OutOffset)
 
 size_t CMAC::Finalize(SecureVector<uint8_t> &Output, size_t OutOffset)
 {
+	if (OutOffset > Output.size() || Output.size() - OutOffset < TagSize())
+	{
+		throw CryptoMacException(Name(), std::string("Finalize"), std::string("The Output buffer is too int16_t!"), ErrorCodes::InvalidSize);
+	}
+
 	std::vector<uint8_t> tag(TagSize());
 
 	Finalize(tag, 0);
@@ -249,7 +254,7 @@ void CMAC::Update(const std::vector<uint8_t> &Input, size_t InOffset, size_t Len
 	{
 		throw CryptoMacException(Name(), std::string("Update"), std::string("The MAC has not been initialized!"), ErrorCodes::NotInitialized);
 	}
-	if ((Input.size() - InOffset) < Length)
+	if (InOffset > Input.size() || Input.size() - InOffset < Length)
 	{
 		throw CryptoMacException(Name(), std::string("Update"), std::string("The Input buffer is too int16_t!"), ErrorCodes::InvalidSize);
 	}
diff --git a/CEX/GMAC.cpp b/CEX/GMAC.cpp
index 5f8b7ee..50c6a19 100644
--- a/CEX/GMAC.cpp
+++ b/CEX/GMAC.cpp
@@ -171,7 +171,7 @@ size_t GMAC::Finalize(std::vector<uint8_t> &Output, size_t OutOffset)
 	{
 		throw CryptoMacException(Name(), std::string("Finalize"), std::string("The MAC has not been initialized!"), ErrorCodes::NotInitialized);
 	}
-	if ((Output.size() - OutOffset) < TagSize())
+	if (OutOffset > Output.size() || Output.size() - OutOffset < TagSize())
 	{
 		throw CryptoMacException(Name(), std::string("Finalize"), std::string("The Output buffer is too int16_t!"), ErrorCodes::InvalidSize);
 	}
@@ -186,6 +186,11 @@ size_t GMAC::Finalize(std::vector<uint8_t> &Output, size_t OutOffset)
 
 size_t GMAC::Finalize(SecureVector<uint8_t> &Output, size_t OutOffset)
 {
+	if (OutOffset > Output.size() || Output.size() - OutOffset < TagSize())
+	{
+		throw CryptoMacException(Name(), std::string("Finalize"), std::string("The Output buffer is too int16_t!"), ErrorCodes::InvalidSize);
+	}
+
 	std::vector<uint8_t> tag(TagSize());
 
 	Finalize(tag, 0);
@@ -280,7 +285,7 @@ void GMAC::Update(const std::vector<uint8_t> &Input, size_t InOffset, size_t Len
 	{
 		throw CryptoMacException(Name(), std::string("Update"), std::string("The MAC has not been initialized!"), ErrorCodes::NotInitialized);
 	}
-	if ((Input.size() - InOffset) < Length)
+	if (InOffset > Input.size() || Input.size() - InOffset < Length)
 	{
 		throw CryptoMacException(Name(), std::string("Update"), std::string("The Input buffer is too int16_t!"), ErrorCodes::InvalidSize);
 	}
diff --git a/CEX/HMAC.cpp b/CEX/HMAC.cpp
index ae456cc..bbe1e60 100644
--- a/CEX/HMAC.cpp
+++ b/CEX/HMAC.cpp
@@ -173,7 +173,7 @@ size_t HMAC::Finalize(std::vector<uint8_t> &Output, size_t OutOffset)
 	{
 		throw CryptoMacException(Name(), std::string("Finalize"), std::string("The MAC has not been initialized!"), ErrorCodes::NotInitialized);
 	}
-	if ((Output.size() - OutOffset) < TagSize())
+	if (OutOffset > Output.size() || Output.size() - OutOffset < TagSize())
 	{
 		throw CryptoMacException(Name(), std::string("Finalize"), std::string("The Output buffer is too int16_t!"), ErrorCodes::InvalidSize);
 	}
@@ -189,6 +189,11 @@ size_t HMAC::Finalize(std::vector<uint8_t> &Output, size_t OutOffset)
 
 size_t HMAC::Finalize(SecureVector<uint8_t> &Output, size_t OutOffset)
 {
+	if (OutOffset > Output.size() || Output.size() - OutOffset < TagSize())
+	{
+		throw CryptoMacException(Name(), std::string("Finalize"), std::string("The Output buffer is too int16_t!"), ErrorCodes::InvalidSize);
+	}
+
 	std::vector<uint8_t> tag(TagSize());
 
 	Finalize(tag, 0);
@@ -257,7 +262,7 @@ void HMAC::Update(const std::vector<uint8_t> &Input, size_t InOffset, size_t Len
 	{
 		throw CryptoMacException(Name(), std::string("Update"), std::string("The MAC has not been initialized!"), ErrorCodes::NotInitialized);
 	}
-	if ((Input.size() - InOffset) < Length)
+	if (InOffset > Input.size() || Input.size() - InOffset < Length)
 	{
 		throw CryptoMacException(Name(), std::string("Update"), std::string("The Input buffer is too int16_t!"), ErrorCodes::InvalidSize);
 	}
diff --git a/CEX/Poly1305.cpp b/CEX/Poly1305.cpp
index 1d5f692..69cf8fd 100644
--- a/CEX/Poly1305.cpp
+++ b/CEX/Poly1305.cpp
@@ -103,7 +103,7 @@ size_t Poly1305::Finalize(std::vector<uint8_t> &Output, size_t OutOffset)
 	{
 		throw CryptoMacException(Name(), std::string("Finalize"), std::string("The MAC has not been initialized!"), ErrorCodes::NotInitialized);
 	}
-	if ((Output.size() - OutOffset) < TagSize())
+	if (OutOffset > Output.size() || Output.size() - OutOffset < TagSize())
 	{
 		throw CryptoMacException(Name(), std::string("Finalize"), std::string("The Output buffer is too int16_t!"), ErrorCodes::InvalidSize);
 	}
@@ -184,6 +184,11 @@ size_t Poly1305::Finalize(std::vector<uint8_t> &Output, size_t OutOffset)
 
 size_t Poly1305::Finalize(SecureVector<uint8_t> &Output, size_t OutOffset)
 {
+	if (OutOffset > Output.size() || Output.size() - OutOffset < TagSize())
+	{
+		throw CryptoMacException(Name(), std::string("Finalize"), std::string("The Output buffer is too int16_t!"), ErrorCodes::InvalidSize);
+	}
+
 	std::vector<uint8_t> tag(TagSize());
 
 	Finalize(tag, 0);
@@ -233,7 +238,7 @@ void Poly1305::Update(const std::vector<uint8_t> &Input, size_t InOffset, size_t
 	{
 		throw CryptoMacException(Name(), std::string("Update"), std::string("The MAC has not been initialized!"), ErrorCodes::NotInitialized);
 	}
-	if ((Input.size() - InOffset) < Length)
+	if (InOffset > Input.size() || Input.size() - InOffset < Length)
 	{
 		throw CryptoMacException(Name(), std::string("Update"), std::string("The Input buffer is too int16_t!"), ErrorCodes::InvalidSize);
 	}
-- 
2.43.0


From ec026a7d32f69c29c9d48b7cfd5a54b9edaebb63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:24 +0000
Subject: [PATCH 047/155] fix: XOFR48P1600 calls a function that does not exist

---
 CEX/Keccak.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CEX/Keccak.h b/CEX/Keccak.h
index fb6b203..90cfc2b 100644
--- a/CEX/Keccak.h
+++ b/CEX/Keccak.h
@@ -8588,7 +8588,7 @@ public:
 #endif
 
 		blkcnt = OutLength / Rate;
-		SqueezeR48(state, Output, OutOffset, blkcnt, Rate);
+		Squeeze(state, Output, OutOffset, blkcnt, Rate, PermutationRounds::RX48);
 		OutOffset += blkcnt * Rate;
 		OutLength -= blkcnt * Rate;
 
-- 
2.43.0


From 8c0d3841685ed590bae0a35a8540cc03ee91a8e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:24 +0000
Subject: [PATCH 048/155] fix: Keccak::Finalize ignores its rounds parameter

---
 CEX/Keccak.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CEX/Keccak.h b/CEX/Keccak.h
index 90cfc2b..100a653 100644
--- a/CEX/Keccak.h
+++ b/CEX/Keccak.h
@@ -513,7 +513,7 @@ public:
 
 		while (Length >= Rate)
 		{
-			Squeeze(State, pad, 0, 1, Rate);
+			Squeeze(State, pad, 0, 1, Rate, Rounds);
 			MemoryTools::Copy(pad, 0, Output, Offset, Rate);
 			Offset += Rate;
 			Length -= Rate;
@@ -521,7 +521,7 @@ public:
 
 		if (Length > 0)
 		{
-			Squeeze(State, pad, 0, 1, Rate);
+			Squeeze(State, pad, 0, 1, Rate, Rounds);
 			MemoryTools::Copy(pad, 0, Output, Offset, Length);
 		}
 	}
-- 
2.43.0


From 34858e3b1dfbe3ca3f58b0079e189f68977a9829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:25 +0000
Subject: [PATCH 049/155] fix: Keccak::Incremental absorbs stale bytes with the
 trailing bytes of an update

---
 CEX/Keccak.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/CEX/Keccak.h b/CEX/Keccak.h
index 100a653..6a14b2b 100644
--- a/CEX/Keccak.h
+++ b/CEX/Keccak.h
@@ -309,6 +309,8 @@ public:
 
 		if (InLength > 0)
 		{
+			MemoryTools::Clear(t, 0, t.size());
+
 			for (i = 0; i < InLength; ++i)
 			{
 				t[i] = Input[InOffset + i];
-- 
2.43.0


From dbd5ec6f33e90d58b7e556a0d372309eaa7d4d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:25 +0000
Subject: [PATCH 050/155] fix: Keccak::MACP1600 pads with key bytes or drops
 the encoded length at a block boundary

---
 CEX/Keccak.h | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/CEX/Keccak.h b/CEX/Keccak.h
index 6a14b2b..95ceace 100644
--- a/CEX/Keccak.h
+++ b/CEX/Keccak.h
@@ -628,16 +628,32 @@ public:
 			Offset += Rate;
 		}
 
+		MemoryTools::Clear(pad, 0, pad.size());
+
 		if (Length != 0)
 		{
 			MemoryTools::Copy(Message, Offset, pad, 0, Length);
-			MemoryTools::Clear(pad, Length, pad.size() - Length);
 		}
 
 		// add the remaining message bytes to the state and finalize
-		blen = RightEncode(pad, Length, static_cast<uint64_t>(Output.size()) * sizeof(uint64_t));
+		std::array<uint8_t, sizeof(uint64_t) + 1> enc = { 0 };
+		blen = RightEncode(enc, 0, static_cast<uint64_t>(Output.size()) * 8);
+
+		for (i = 0; i < blen; ++i)
+		{
+			// the encoded length can straddle the rate boundary
+			pad[Length] = enc[i];
+			++Length;
+
+			if (Length == Rate)
+			{
+				FastAbsorb(pad, 0, Rate, state);
+				Permute(state, Rounds);
+				MemoryTools::Clear(pad, 0, pad.size());
+				Length = 0;
+			}
+		}
 
-		Length += blen;
 		pad[Length] = KECCAK_KMAC_DOMAIN;
 		pad[Rate - 1] |= 128;
 		FastAbsorb(pad, 0, Rate, state);
-- 
2.43.0


From 4c11f7346afeec4d142d5fd12a6fb3e0888b7f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:29 +0000
Subject: [PATCH 051/155] fix: ChaChaP20 and CSX512 ignore the output offset in
 the tail of a parallel transform

---
 CEX/CSX512.cpp    | 4 ++--
 CEX/ChaChaP20.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/CEX/CSX512.cpp b/CEX/CSX512.cpp
index 1b8d477..3e92d06 100644
--- a/CEX/CSX512.cpp
+++ b/CEX/CSX512.cpp
@@ -685,8 +685,8 @@ void CSX512::Process(const std::vector<uint8_t> &Input, size_t InOffset, std::ve
 		// last block processing
 		if (RNDLEN < PRCLEN)
 		{
-			const size_t FNLLEN = PRCLEN % RNDLEN;
-			Generate(m_csx512State, Output, RNDLEN, m_csx512State->Nonce, FNLLEN);
+			const size_t FNLLEN = PRCLEN - RNDLEN;
+			Generate(m_csx512State, Output, OutOffset + RNDLEN, m_csx512State->Nonce, FNLLEN);
 
 			for (size_t i = 0; i < FNLLEN; ++i)
 			{
diff --git a/CEX/ChaChaP20.cpp b/CEX/ChaChaP20.cpp
index a89e941..2ef56a4 100644
--- a/CEX/ChaChaP20.cpp
+++ b/CEX/ChaChaP20.cpp
@@ -747,8 +747,8 @@ void ChaChaP20::Process(const std::vector<uint8_t> &Input, size_t InOffset, std:
 		// last block processing
 		if (RNDLEN < PRCLEN)
 		{
-			const size_t FNLLEN = PRCLEN % RNDLEN;
-			Generate(m_csx256State, m_csx256State->Nonce, Output, RNDLEN, FNLLEN);
+			const size_t FNLLEN = PRCLEN - RNDLEN;
+			Generate(m_csx256State, m_csx256State->Nonce, Output, OutOffset + RNDLEN, FNLLEN);
 
 			for (size_t i = 0; i < FNLLEN; ++i)
 			{
-- 
2.43.0


From 0bd36d09e29b5da4acbe81bd3b2a58d9089b743f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:29 +0000
Subject: [PATCH 052/155] fix: BCG offsets its parallel counters as big endian
 while the counter is little endian

---
 CEX/BCG.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CEX/BCG.cpp b/CEX/BCG.cpp
index ec9824b..db394a5 100644
--- a/CEX/BCG.cpp
+++ b/CEX/BCG.cpp
@@ -557,7 +557,7 @@ void BCG::Process(SecureVector<uint8_t> &Output, size_t OutOffset, size_t Length
 			// thread level counter
 			SecureVector<uint8_t> thdCtr(BLOCK_SIZE);
 			// offset counter by chunk size / block size  
-			IntegerTools::BeIncrease8(m_bcgState->Nonce, thdCtr, static_cast<uint32_t>(CTRLEN * i));
+			IntegerTools::LeIncrease8(m_bcgState->Nonce, thdCtr, 0, 16, static_cast<uint32_t>(CTRLEN * i));
 			// generate random at output offset
 			this->Transform(Output, OutOffset + (i * CNKLEN), CNKLEN, thdCtr);
 			// store last counter
-- 
2.43.0


From a2baac9fe7f70f7081de50ec52f6c2fc5e11e65d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:29 +0000
Subject: [PATCH 053/155] fix: RCS and RWS carry their parallel counters past
 the 16 counter bytes

---
 CEX/RCS.cpp | 2 +-
 CEX/RWS.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/CEX/RCS.cpp b/CEX/RCS.cpp
index 3444fb1..e19a222 100644
--- a/CEX/RCS.cpp
+++ b/CEX/RCS.cpp
@@ -833,7 +833,7 @@ void RCS::ProcessParallel(const std::vector<uint8_t> &Input, size_t InOffset, st
 		// thread level counter
 		std::vector<uint8_t> thdc(BLOCK_SIZE);
 		// offset counter by chunk size / block size  
-		IntegerTools::LeIncrease8(m_rcsState->Nonce, thdc, static_cast<uint32_t>(CTRLEN * i));
+		IntegerTools::LeIncrease8(m_rcsState->Nonce, thdc, 0, 16, static_cast<uint32_t>(CTRLEN * i));
 		const size_t STMPOS = i * CNKLEN;
 		// generate random at output offset
 		this->Generate(Output, OutOffset + STMPOS, CNKLEN, thdc);
diff --git a/CEX/RWS.cpp b/CEX/RWS.cpp
index 1724c09..7ea2707 100644
--- a/CEX/RWS.cpp
+++ b/CEX/RWS.cpp
@@ -765,7 +765,7 @@ void RWS::ProcessParallel(const std::vector<uint8_t> &Input, size_t InOffset, st
 		// thread level counter
 		std::vector<uint8_t> thdc(BLOCK_SIZE);
 		// offset counter by chunk size / block size  
-		IntegerTools::LeIncrease8(m_rwsState->Nonce, thdc, static_cast<uint32_t>(CTRLEN * i));
+		IntegerTools::LeIncrease8(m_rwsState->Nonce, thdc, 0, 16, static_cast<uint32_t>(CTRLEN * i));
 		const size_t STMPOS = i * CNKLEN;
 		// generate random at output offset
 		this->Generate(Output, OutOffset + STMPOS, CNKLEN, thdc);
-- 
2.43.0


From 329cff31d840c5832de8fcfc05aa0b0c3660002e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:32 +0000
Subject: [PATCH 054/155] fix: stream ciphers restore a truncated or
 inconsistent serialized state by reading past it, and refuse an
 unauthenticated one

---
 CEX/CSX512.cpp    | 23 +++++++++++++++++++++++
 CEX/CSX512.h      |  2 +-
 CEX/ChaChaP20.cpp | 23 +++++++++++++++++++++++
 CEX/ChaChaP20.h   |  2 +-
 CEX/RCS.cpp       | 36 ++++++++++++++++++++++++++++++++++++
 CEX/RWS.cpp       | 36 ++++++++++++++++++++++++++++++++++++
 6 files changed, 120 insertions(+), 2 deletions(-)

diff --git a/CEX/CSX512.cpp b/CEX/CSX512.cpp
index 3e92d06..14c2a4a 100644
--- a/CEX/CSX512.cpp
+++ b/CEX/CSX512.cpp
@@ -70,32 +70,50 @@ public:
 		vlen = 0;
 		soff = 0;
 
+		// each field must lie inside the array
+		auto require = [&SecureState, &soff](size_t Length)
+		{
+			if (soff > SecureState.size() || SecureState.size() - soff < Length)
+			{
+				throw CryptoSymmetricException(std::string("CSX512"), std::string("DeSerialize"), std::string("The state array is invalid!"), ErrorCodes::InvalidKey);
+			}
+		};
+
 		vlen = static_cast<uint16_t>(State.size()) * sizeof(uint64_t);
+		require(vlen);
 		MemoryTools::Copy(SecureState, soff, State, 0, vlen);
 		soff = vlen;
 
+		require(sizeof(uint16_t));
 		MemoryTools::CopyToObject(SecureState, soff, &vlen, sizeof(uint16_t));
+		require(sizeof(uint16_t) + static_cast<size_t>(vlen));
 		Custom.resize(vlen);
 		soff += sizeof(uint16_t);
 		MemoryTools::Copy(SecureState, soff, Custom, 0, Custom.size());
 		soff += vlen;
 
+		require(sizeof(uint16_t));
 		MemoryTools::CopyToObject(SecureState, soff, &vlen, sizeof(uint16_t));
+		require(sizeof(uint16_t) + static_cast<size_t>(vlen));
 		MacKey.resize(vlen);
 		soff += sizeof(uint16_t);
 		MemoryTools::Copy(SecureState, soff, MacKey, 0, MacKey.size());
 		soff += vlen;
 
+		require(sizeof(uint16_t));
 		MemoryTools::CopyToObject(SecureState, soff, &vlen, sizeof(uint16_t));
+		require(sizeof(uint16_t) + static_cast<size_t>(vlen));
 		MacTag.resize(vlen);
 		soff += sizeof(uint16_t);
 		MemoryTools::Copy(SecureState, soff, MacTag, 0, MacTag.size());
 		soff += vlen;
 
 		vlen = static_cast<uint16_t>(Nonce.size()) * sizeof(uint64_t);
+		require(vlen);
 		MemoryTools::Copy(SecureState, soff, Nonce, 0, vlen);
 		soff += vlen;
 
+		require(sizeof(uint64_t) + (3 * sizeof(bool)));
 		MemoryTools::CopyToObject(SecureState, soff, &Counter, sizeof(uint64_t));
 		soff += sizeof(uint64_t);
 		MemoryTools::CopyToObject(SecureState, soff, &IsAuthenticated, sizeof(bool));
@@ -188,6 +206,11 @@ CSX512::CSX512(SecureVector<uint8_t> &State)
 {
 	if (m_csx512State->IsAuthenticated == true)
 	{
+		if (m_csx512State->MacTag.size() != m_macAuthenticator->TagSize())
+		{
+			throw CryptoSymmetricException(std::string("CSX512"), std::string("Constructor"), std::string("The State array is invalid!"), ErrorCodes::InvalidKey);
+		}
+
 		// initialize the mac
 		SymmetricKey kpm(m_csx512State->MacKey);
 		m_macAuthenticator->Initialize(kpm);
diff --git a/CEX/CSX512.h b/CEX/CSX512.h
index 1604bd0..b33a8fc 100644
--- a/CEX/CSX512.h
+++ b/CEX/CSX512.h
@@ -137,7 +137,7 @@ private:
 #endif
 	static const std::vector<uint8_t> SIGMA_INFO;
 	static const size_t STATE_PRECACHED = 2048;
-	static const size_t STATE_THRESHOLD = 243;
+	static const size_t STATE_THRESHOLD = 145;
 	static const size_t STATE_SIZE = 14;
 	static const size_t TAG_SIZE = 64;
 
diff --git a/CEX/ChaChaP20.cpp b/CEX/ChaChaP20.cpp
index 2ef56a4..9f1013a 100644
--- a/CEX/ChaChaP20.cpp
+++ b/CEX/ChaChaP20.cpp
@@ -80,32 +80,50 @@ public:
 		soff = 0;
 		vlen = 0;
 
+		// each field must lie inside the array
+		auto require = [&SecureState, &soff](size_t Length)
+		{
+			if (soff > SecureState.size() || SecureState.size() - soff < Length)
+			{
+				throw CryptoSymmetricException(std::string("ChaChaP20"), std::string("DeSerialize"), std::string("The state array is invalid!"), ErrorCodes::InvalidKey);
+			}
+		};
+
 		vlen = static_cast<uint16_t>(State.size()) * sizeof(uint32_t);
+		require(vlen);
 		MemoryTools::Copy(SecureState, soff, State, 0, vlen);
 		soff = vlen;
 
+		require(sizeof(uint16_t));
 		MemoryTools::CopyToObject(SecureState, soff, &vlen, sizeof(uint16_t));
+		require(sizeof(uint16_t) + static_cast<size_t>(vlen));
 		Custom.resize(vlen);
 		soff += sizeof(uint16_t);
 		MemoryTools::Copy(SecureState, soff, Custom, 0, Custom.size());
 		soff += vlen;
 
+		require(sizeof(uint16_t));
 		MemoryTools::CopyToObject(SecureState, soff, &vlen, sizeof(uint16_t));
+		require(sizeof(uint16_t) + static_cast<size_t>(vlen));
 		MacKey.resize(vlen);
 		soff += sizeof(uint16_t);
 		MemoryTools::Copy(SecureState, soff, MacKey, 0, MacKey.size());
 		soff += vlen;
 
+		require(sizeof(uint16_t));
 		MemoryTools::CopyToObject(SecureState, soff, &vlen, sizeof(uint16_t));
+		require(sizeof(uint16_t) + static_cast<size_t>(vlen));
 		MacTag.resize(vlen);
 		soff += sizeof(uint16_t);
 		MemoryTools::Copy(SecureState, soff, MacTag, 0, MacTag.size());
 		soff += vlen;
 
 		vlen = static_cast<uint16_t>(Nonce.size()) * sizeof(uint32_t);
+		require(vlen);
 		MemoryTools::Copy(SecureState, soff, Nonce, 0, vlen);
 		soff += vlen;
 
+		require(sizeof(uint64_t) + (3 * sizeof(bool)));
 		MemoryTools::CopyToObject(SecureState, soff, &Counter, sizeof(uint64_t));
 		soff += sizeof(uint64_t);
 		MemoryTools::CopyToObject(SecureState, soff, &IsAuthenticated, sizeof(bool));
@@ -195,6 +213,11 @@ ChaChaP20::ChaChaP20(SecureVector<uint8_t> &State)
 {
 	if (m_csx256State->IsAuthenticated == true)
 	{
+		if (m_csx256State->MacTag.size() != m_macAuthenticator->TagSize())
+		{
+			throw CryptoSymmetricException(std::string("ChaChaP20"), std::string("Constructor"), std::string("The State array is invalid!"), ErrorCodes::InvalidKey);
+		}
+
 		// initialize the mac
 		SymmetricKey kpm(m_csx256State->MacKey);
 		m_macAuthenticator->Initialize(kpm);
diff --git a/CEX/ChaChaP20.h b/CEX/ChaChaP20.h
index 2069422..9d43d05 100644
--- a/CEX/ChaChaP20.h
+++ b/CEX/ChaChaP20.h
@@ -136,7 +136,7 @@ private:
 	static const size_t NONCE_SIZE = 2;
 	static const size_t ROUND_COUNT = 20;
 	static const size_t STATE_PRECACHED = 2048;
-	static const size_t STATE_THRESHOLD = 155;
+	static const size_t STATE_THRESHOLD = 81;
 	static const std::vector<uint8_t> SIGMA_INFO;
 	static const size_t STATE_SIZE = 14;
 	static const size_t TAG_SIZE = 32;
diff --git a/CEX/RCS.cpp b/CEX/RCS.cpp
index e19a222..95e2662 100644
--- a/CEX/RCS.cpp
+++ b/CEX/RCS.cpp
@@ -112,7 +112,18 @@ public:
 		soff = 0;
 		vlen = 0;
 
+		// each field must lie inside the array
+		auto require = [&SecureState, &soff](size_t Length)
+		{
+			if (soff > SecureState.size() || SecureState.size() - soff < Length)
+			{
+				throw CryptoSymmetricException(std::string("RCS"), std::string("DeSerialize"), std::string("The state array is invalid!"), ErrorCodes::InvalidKey);
+			}
+		};
+
+		require(sizeof(uint16_t));
 		MemoryTools::CopyToObject(SecureState, soff, &vlen, sizeof(uint16_t));
+		require(sizeof(uint16_t) + static_cast<size_t>(vlen));
 #if defined(CEX_HAS_AVX)
 		RoundKeys.resize(vlen / sizeof(__m128i));
 #else
@@ -122,36 +133,47 @@ public:
 		MemoryTools::Copy(SecureState, soff, RoundKeys, 0, vlen);
 		soff += vlen;
 
+		require(sizeof(uint16_t));
 		MemoryTools::CopyToObject(SecureState, soff, &vlen, sizeof(uint16_t));
+		require(sizeof(uint16_t) + static_cast<size_t>(vlen));
 		Custom.resize(vlen);
 		soff += sizeof(uint16_t);
 		MemoryTools::Copy(SecureState, soff, Custom, 0, Custom.size());
 		soff += vlen;
 
+		require(sizeof(uint16_t));
 		MemoryTools::CopyToObject(SecureState, soff, &vlen, sizeof(uint16_t));
+		require(sizeof(uint16_t) + static_cast<size_t>(vlen));
 		MacKey.resize(vlen);
 		soff += sizeof(uint16_t);
 		MemoryTools::Copy(SecureState, soff, MacKey, 0, MacKey.size());
 		soff += vlen;
 
+		require(sizeof(uint16_t));
 		MemoryTools::CopyToObject(SecureState, soff, &vlen, sizeof(uint16_t));
+		require(sizeof(uint16_t) + static_cast<size_t>(vlen));
 		MacTag.resize(vlen);
 		soff += sizeof(uint16_t);
 		MemoryTools::Copy(SecureState, soff, MacTag, 0, MacTag.size());
 		soff += vlen;
 
+		require(sizeof(uint16_t));
 		MemoryTools::CopyToObject(SecureState, soff, &vlen, sizeof(uint16_t));
+		require(sizeof(uint16_t) + static_cast<size_t>(vlen));
 		Name.resize(vlen);
 		soff += sizeof(uint16_t);
 		MemoryTools::Copy(SecureState, soff, Name, 0, Name.size());
 		soff += vlen;
 
+		require(sizeof(uint16_t));
 		MemoryTools::CopyToObject(SecureState, soff, &vlen, sizeof(uint16_t));
+		require(sizeof(uint16_t) + static_cast<size_t>(vlen));
 		Nonce.resize(vlen);
 		soff += sizeof(uint16_t);
 		MemoryTools::Copy(SecureState, soff, Nonce, 0, Nonce.size());
 		soff += vlen;
 
+		require(sizeof(uint64_t) + sizeof(uint32_t) + sizeof(KmacModes) + sizeof(ShakeModes) + (3 * sizeof(bool)));
 		MemoryTools::CopyToObject(SecureState, soff, &Counter, sizeof(uint64_t));
 		soff += sizeof(uint64_t);
 		MemoryTools::CopyToObject(SecureState, soff, &Rounds, sizeof(uint32_t));
@@ -167,6 +189,15 @@ public:
 		MemoryTools::CopyToObject(SecureState, soff, &IsEncryption, sizeof(bool));
 		soff += sizeof(bool);
 		MemoryTools::CopyToObject(SecureState, soff, &IsInitialized, sizeof(bool));
+
+		// the fields must agree with one another
+		if ((Rounds != RK256_COUNT && Rounds != RK512_COUNT && Rounds != RK1024_COUNT) ||
+			RoundKeys.size() * sizeof(RoundKeys[0]) != BLOCK_SIZE * (static_cast<size_t>(Rounds) + 1) ||
+			Nonce.size() != BLOCK_SIZE ||
+			IsAuthenticated != (Authenticator != KmacModes::None))
+		{
+			throw CryptoSymmetricException(std::string("RCS"), std::string("DeSerialize"), std::string("The state array is invalid!"), ErrorCodes::InvalidKey);
+		}
 	}
 
 	void Reset()
@@ -279,6 +310,11 @@ RCS::RCS(SecureVector<uint8_t> &State)
 {
 	if (m_rcsState->Authenticator != KmacModes::None)
 	{
+		if (m_rcsState->MacTag.size() != m_macAuthenticator->TagSize())
+		{
+			throw CryptoSymmetricException(std::string("RCS"), std::string("Constructor"), std::string("The State array is invalid!"), ErrorCodes::InvalidKey);
+		}
+
 		// initialize the mac
 		SymmetricKey kpm(m_rcsState->MacKey);
 		m_macAuthenticator->Initialize(kpm);
diff --git a/CEX/RWS.cpp b/CEX/RWS.cpp
index 7ea2707..15239d2 100644
--- a/CEX/RWS.cpp
+++ b/CEX/RWS.cpp
@@ -83,42 +83,64 @@ public:
 		soff = 0;
 		vlen = 0;
 
+		// each field must lie inside the array
+		auto require = [&SecureState, &soff](size_t Length)
+		{
+			if (soff > SecureState.size() || SecureState.size() - soff < Length)
+			{
+				throw CryptoSymmetricException(std::string("RWS"), std::string("DeSerialize"), std::string("The state array is invalid!"), ErrorCodes::InvalidKey);
+			}
+		};
+
+		require(sizeof(uint16_t));
 		MemoryTools::CopyToObject(SecureState, soff, &vlen, sizeof(uint16_t));
+		require(sizeof(uint16_t) + static_cast<size_t>(vlen));
 		RoundKeys.resize(vlen / sizeof(uint32_t));
 		soff += sizeof(uint16_t);
 		MemoryTools::Copy(SecureState, soff, RoundKeys, 0, vlen);
 		soff += vlen;
 
+		require(sizeof(uint16_t));
 		MemoryTools::CopyToObject(SecureState, soff, &vlen, sizeof(uint16_t));
+		require(sizeof(uint16_t) + static_cast<size_t>(vlen));
 		Custom.resize(vlen);
 		soff += sizeof(uint16_t);
 		MemoryTools::Copy(SecureState, soff, Custom, 0, Custom.size());
 		soff += vlen;
 
+		require(sizeof(uint16_t));
 		MemoryTools::CopyToObject(SecureState, soff, &vlen, sizeof(uint16_t));
+		require(sizeof(uint16_t) + static_cast<size_t>(vlen));
 		MacKey.resize(vlen);
 		soff += sizeof(uint16_t);
 		MemoryTools::Copy(SecureState, soff, MacKey, 0, MacKey.size());
 		soff += vlen;
 
+		require(sizeof(uint16_t));
 		MemoryTools::CopyToObject(SecureState, soff, &vlen, sizeof(uint16_t));
+		require(sizeof(uint16_t) + static_cast<size_t>(vlen));
 		MacTag.resize(vlen);
 		soff += sizeof(uint16_t);
 		MemoryTools::Copy(SecureState, soff, MacTag, 0, MacTag.size());
 		soff += vlen;
 
+		require(sizeof(uint16_t));
 		MemoryTools::CopyToObject(SecureState, soff, &vlen, sizeof(uint16_t));
+		require(sizeof(uint16_t) + static_cast<size_t>(vlen));
 		Name.resize(vlen);
 		soff += sizeof(uint16_t);
 		MemoryTools::Copy(SecureState, soff, Name, 0, Name.size());
 		soff += vlen;
 
+		require(sizeof(uint16_t));
 		MemoryTools::CopyToObject(SecureState, soff, &vlen, sizeof(uint16_t));
+		require(sizeof(uint16_t) + static_cast<size_t>(vlen));
 		Nonce.resize(vlen);
 		soff += sizeof(uint16_t);
 		MemoryTools::Copy(SecureState, soff, Nonce, 0, Nonce.size());
 		soff += vlen;
 
+		require(sizeof(uint64_t) + sizeof(uint32_t) + sizeof(KmacModes) + sizeof(ShakeModes) + (3 * sizeof(bool)));
 		MemoryTools::CopyToObject(SecureState, soff, &Counter, sizeof(uint64_t));
 		soff += sizeof(uint64_t);
 		MemoryTools::CopyToObject(SecureState, soff, &Rounds, sizeof(uint32_t));
@@ -134,6 +156,15 @@ public:
 		MemoryTools::CopyToObject(SecureState, soff, &IsEncryption, sizeof(bool));
 		soff += sizeof(bool);
 		MemoryTools::CopyToObject(SecureState, soff, &IsInitialized, sizeof(bool));
+
+		// the fields must agree with one another
+		if ((Rounds != RK128_COUNT && Rounds != RK256_COUNT && Rounds != RK512_COUNT) ||
+			RoundKeys.size() * sizeof(RoundKeys[0]) != BLOCK_SIZE * (static_cast<size_t>(Rounds) + 1) ||
+			Nonce.size() != BLOCK_SIZE ||
+			IsAuthenticated != (Authenticator != KmacModes::None))
+		{
+			throw CryptoSymmetricException(std::string("RWS"), std::string("DeSerialize"), std::string("The state array is invalid!"), ErrorCodes::InvalidKey);
+		}
 	}
 
 	void Reset()
@@ -237,6 +268,11 @@ RWS::RWS(SecureVector<uint8_t> &State)
 {
 	if (m_rwsState->Authenticator != KmacModes::None)
 	{
+		if (m_rwsState->MacTag.size() != m_macAuthenticator->TagSize())
+		{
+			throw CryptoSymmetricException(std::string("RWS"), std::string("Constructor"), std::string("The State array is invalid!"), ErrorCodes::InvalidKey);
+		}
+
 		// initialize the mac
 		SymmetricKey kpm(m_rwsState->MacKey);
 		m_macAuthenticator->Initialize(kpm);
-- 
2.43.0


From 82fda387067d584f315b65bca256169cc96da0e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:17 +0000
Subject: [PATCH 055/155] fix: stream ciphers transform without being
 initialized and with arrays too small for the length

---
 CEX/CSX512.cpp    | 29 ++++++++++++++++++++++++-----
 CEX/ChaChaP20.cpp | 29 ++++++++++++++++++++++++-----
 CEX/RCS.cpp       | 30 +++++++++++++++++++++++-------
 CEX/RWS.cpp       | 30 +++++++++++++++++++++++-------
 CEX/TSX1024.cpp   | 29 ++++++++++++++++++++++++-----
 CEX/TSX256.cpp    | 29 ++++++++++++++++++++++++-----
 CEX/TSX512.cpp    | 29 ++++++++++++++++++++++++-----
 7 files changed, 166 insertions(+), 39 deletions(-)

diff --git a/CEX/CSX512.cpp b/CEX/CSX512.cpp
index 14c2a4a..8c4d9f0 100644
--- a/CEX/CSX512.cpp
+++ b/CEX/CSX512.cpp
@@ -446,6 +446,11 @@ void CSX512::SetAssociatedData(const std::vector<uint8_t> &Input, size_t Offset,
 		throw CryptoSymmetricException(Name(), std::string("SetAssociatedData"), std::string("The additional data array can not be zero sized!"), ErrorCodes::InvalidSize);
 	}
 
+	if (Offset > Input.size() || Input.size() - Offset < Length)
+	{
+		throw CryptoSymmetricException(Name(), std::string("SetAssociatedData"), std::string("The input array is too small!"), ErrorCodes::InvalidSize);
+	}
+
 	if (IsAuthenticator() == true)
 	{
 		std::vector<uint8_t> code(sizeof(uint32_t));
@@ -458,15 +463,29 @@ void CSX512::SetAssociatedData(const std::vector<uint8_t> &Input, size_t Offset,
 
 void CSX512::Transform(const std::vector<uint8_t> &Input, size_t InOffset, std::vector<uint8_t> &Output, size_t OutOffset, size_t Length)
 {
+	if (IsInitialized() == false)
+	{
+		throw CryptoSymmetricException(Name(), std::string("Transform"), std::string("The cipher has not been initialized!"), ErrorCodes::NotInitialized);
+	}
+
+	// the tag follows the cipher-text
+	const size_t TAGLEN = IsAuthenticator() ? TagSize() : 0;
+	const size_t INPTAG = IsEncryption() ? 0 : TAGLEN;
+	const size_t OTPTAG = IsEncryption() ? TAGLEN : 0;
+
+	if (InOffset > Input.size() || Input.size() - InOffset < Length || Input.size() - InOffset - Length < INPTAG)
+	{
+		throw CryptoSymmetricException(Name(), std::string("Transform"), std::string("The input array is too small!"), ErrorCodes::InvalidSize);
+	}
+	if (OutOffset > Output.size() || Output.size() - OutOffset < Length || Output.size() - OutOffset - Length < OTPTAG)
+	{
+		throw CryptoSymmetricException(Name(), std::string("Transform"), std::string("The output array is too small!"), ErrorCodes::InvalidSize);
+	}
+
 	if (IsEncryption() == true)
 	{
 		if (IsAuthenticator() == true)
 		{
-			if (Output.size() < Length + OutOffset + m_macAuthenticator->TagSize())
-			{
-				throw CryptoSymmetricException(Name(), std::string("Transform"), std::string("The vector is not int64_t enough to add the MAC code!"), ErrorCodes::InvalidSize);
-			}
-
 			// add the starting position of the nonce//506097522914230528 1084818905618843912
 			m_macAuthenticator->Update(IntegerTools::Le64ToBytes<std::vector<uint8_t>>(m_csx512State->Nonce[0]), 0, sizeof(uint64_t));
 			m_macAuthenticator->Update(IntegerTools::Le64ToBytes<std::vector<uint8_t>>(m_csx512State->Nonce[1]), 0, sizeof(uint64_t));
diff --git a/CEX/ChaChaP20.cpp b/CEX/ChaChaP20.cpp
index 9f1013a..4bfadb1 100644
--- a/CEX/ChaChaP20.cpp
+++ b/CEX/ChaChaP20.cpp
@@ -455,21 +455,40 @@ void ChaChaP20::SetAssociatedData(const std::vector<uint8_t> &Input, size_t Offs
 		throw CryptoSymmetricException(Name(), std::string("SetAssociatedData"), std::string("The cipher has not been configured for authentication!"), ErrorCodes::IllegalOperation);
 	}
 
+	if (Offset > Input.size() || Input.size() - Offset < Length)
+	{
+		throw CryptoSymmetricException(Name(), std::string("SetAssociatedData"), std::string("The input array is too small!"), ErrorCodes::InvalidSize);
+	}
+
 	// update the authenticator
 	m_macAuthenticator->Update(Input, Offset, Length);
 }
 
 void ChaChaP20::Transform(const std::vector<uint8_t> &Input, size_t InOffset, std::vector<uint8_t> &Output, size_t OutOffset, size_t Length)
 {
+	if (IsInitialized() == false)
+	{
+		throw CryptoSymmetricException(Name(), std::string("Transform"), std::string("The cipher has not been initialized!"), ErrorCodes::NotInitialized);
+	}
+
+	// the tag follows the cipher-text
+	const size_t TAGLEN = IsAuthenticator() ? TagSize() : 0;
+	const size_t INPTAG = IsEncryption() ? 0 : TAGLEN;
+	const size_t OTPTAG = IsEncryption() ? TAGLEN : 0;
+
+	if (InOffset > Input.size() || Input.size() - InOffset < Length || Input.size() - InOffset - Length < INPTAG)
+	{
+		throw CryptoSymmetricException(Name(), std::string("Transform"), std::string("The input array is too small!"), ErrorCodes::InvalidSize);
+	}
+	if (OutOffset > Output.size() || Output.size() - OutOffset < Length || Output.size() - OutOffset - Length < OTPTAG)
+	{
+		throw CryptoSymmetricException(Name(), std::string("Transform"), std::string("The output array is too small!"), ErrorCodes::InvalidSize);
+	}
+
 	if (IsEncryption() == true)
 	{
 		if (IsAuthenticator() == true)
 		{
-			if (Output.size() < Length + OutOffset + m_macAuthenticator->TagSize())
-			{
-				throw CryptoSymmetricException(Name(), std::string("Transform"), std::string("The vector is not int64_t enough to add the MAC code!"), ErrorCodes::InvalidSize);
-			}
-
 			// add the starting position of the nonce
 			m_macAuthenticator->Update(IntegerTools::Le32ToBytes<std::vector<uint8_t>>(m_csx256State->Nonce[0]), 0, sizeof(uint32_t));
 			m_macAuthenticator->Update(IntegerTools::Le32ToBytes<std::vector<uint8_t>>(m_csx256State->Nonce[1]), 0, sizeof(uint32_t));
diff --git a/CEX/RCS.cpp b/CEX/RCS.cpp
index 95e2662..a3413c1 100644
--- a/CEX/RCS.cpp
+++ b/CEX/RCS.cpp
@@ -595,6 +595,11 @@ void RCS::SetAssociatedData(const std::vector<uint8_t> &Input, size_t Offset, si
 		throw CryptoSymmetricException(Name(), std::string("SetAssociatedData"), std::string("The additional data array can not be zero sized!"), ErrorCodes::InvalidSize);
 	}
 
+	if (Offset > Input.size() || Input.size() - Offset < Length)
+	{
+		throw CryptoSymmetricException(Name(), std::string("SetAssociatedData"), std::string("The input array is too small!"), ErrorCodes::InvalidSize);
+	}
+
 	if (IsAuthenticator() == true)
 	{
 		std::vector<uint8_t> code(sizeof(uint32_t));
@@ -607,18 +612,29 @@ void RCS::SetAssociatedData(const std::vector<uint8_t> &Input, size_t Offset, si
 
 void RCS::Transform(const std::vector<uint8_t> &Input, size_t InOffset, std::vector<uint8_t> &Output, size_t OutOffset, size_t Length)
 {
-	CEXASSERT(IsInitialized(), "The cipher mode has not been initialized!");
-	CEXASSERT(IntegerTools::Min(Input.size() - InOffset, Output.size() - OutOffset) >= Length, "The data arrays are smaller than the block-size!");
+	if (IsInitialized() == false)
+	{
+		throw CryptoSymmetricException(Name(), std::string("Transform"), std::string("The cipher has not been initialized!"), ErrorCodes::NotInitialized);
+	}
+
+	// the tag follows the cipher-text
+	const size_t TAGLEN = IsAuthenticator() ? TagSize() : 0;
+	const size_t INPTAG = IsEncryption() ? 0 : TAGLEN;
+	const size_t OTPTAG = IsEncryption() ? TAGLEN : 0;
+
+	if (InOffset > Input.size() || Input.size() - InOffset < Length || Input.size() - InOffset - Length < INPTAG)
+	{
+		throw CryptoSymmetricException(Name(), std::string("Transform"), std::string("The input array is too small!"), ErrorCodes::InvalidSize);
+	}
+	if (OutOffset > Output.size() || Output.size() - OutOffset < Length || Output.size() - OutOffset - Length < OTPTAG)
+	{
+		throw CryptoSymmetricException(Name(), std::string("Transform"), std::string("The output array is too small!"), ErrorCodes::InvalidSize);
+	}
 
 	if (IsEncryption() == true)
 	{
 		if (IsAuthenticator() == true)
 		{
-			if (Output.size() < Length + OutOffset + m_macAuthenticator->TagSize())
-			{
-				throw CryptoSymmetricException(Name(), std::string("Transform"), std::string("The vector is not int64_t enough to add the MAC code!"), ErrorCodes::InvalidSize);
-			}
-
 			// add the starting position of the nonce
 			m_macAuthenticator->Update(m_rcsState->Nonce, 0, BLOCK_SIZE);
 			// encrypt the stream
diff --git a/CEX/RWS.cpp b/CEX/RWS.cpp
index 15239d2..ae24136 100644
--- a/CEX/RWS.cpp
+++ b/CEX/RWS.cpp
@@ -530,6 +530,11 @@ void RWS::SetAssociatedData(const std::vector<uint8_t> &Input, size_t Offset, si
 		throw CryptoSymmetricException(Name(), std::string("SetAssociatedData"), std::string("The additional data array can not be zero sized!"), ErrorCodes::InvalidSize);
 	}
 
+	if (Offset > Input.size() || Input.size() - Offset < Length)
+	{
+		throw CryptoSymmetricException(Name(), std::string("SetAssociatedData"), std::string("The input array is too small!"), ErrorCodes::InvalidSize);
+	}
+
 	if (IsAuthenticator() == true)
 	{
 		std::vector<uint8_t> code(sizeof(uint32_t));
@@ -542,18 +547,29 @@ void RWS::SetAssociatedData(const std::vector<uint8_t> &Input, size_t Offset, si
 
 void RWS::Transform(const std::vector<uint8_t> &Input, size_t InOffset, std::vector<uint8_t> &Output, size_t OutOffset, size_t Length)
 {
-	CEXASSERT(IsInitialized(), "The cipher mode has not been initialized!");
-	CEXASSERT(IntegerTools::Min(Input.size() - InOffset, Output.size() - OutOffset) >= Length, "The data arrays are smaller than the block-size!");
+	if (IsInitialized() == false)
+	{
+		throw CryptoSymmetricException(Name(), std::string("Transform"), std::string("The cipher has not been initialized!"), ErrorCodes::NotInitialized);
+	}
+
+	// the tag follows the cipher-text
+	const size_t TAGLEN = IsAuthenticator() ? TagSize() : 0;
+	const size_t INPTAG = IsEncryption() ? 0 : TAGLEN;
+	const size_t OTPTAG = IsEncryption() ? TAGLEN : 0;
+
+	if (InOffset > Input.size() || Input.size() - InOffset < Length || Input.size() - InOffset - Length < INPTAG)
+	{
+		throw CryptoSymmetricException(Name(), std::string("Transform"), std::string("The input array is too small!"), ErrorCodes::InvalidSize);
+	}
+	if (OutOffset > Output.size() || Output.size() - OutOffset < Length || Output.size() - OutOffset - Length < OTPTAG)
+	{
+		throw CryptoSymmetricException(Name(), std::string("Transform"), std::string("The output array is too small!"), ErrorCodes::InvalidSize);
+	}
 
 	if (IsEncryption() == true)
 	{
 		if (IsAuthenticator() == true)
 		{
-			if (Output.size() < Length + OutOffset + m_macAuthenticator->TagSize())
-			{
-				throw CryptoSymmetricException(Name(), std::string("Transform"), std::string("The vector is not int64_t enough to add the MAC code!"), ErrorCodes::InvalidSize);
-			}
-
 			// add the starting position of the nonce
 			m_macAuthenticator->Update(m_rwsState->Nonce, 0, BLOCK_SIZE);
 			// encrypt the stream
diff --git a/CEX/TSX1024.cpp b/CEX/TSX1024.cpp
index 1bb6e06..0606717 100644
--- a/CEX/TSX1024.cpp
+++ b/CEX/TSX1024.cpp
@@ -338,6 +338,11 @@ void TSX1024::SetAssociatedData(const std::vector<uint8_t> &Input, size_t Offset
 		throw CryptoSymmetricException(Name(), std::string("SetAssociatedData"), std::string("The additional data array can not be zero sized!"), ErrorCodes::InvalidSize);
 	}
 
+	if (Offset > Input.size() || Input.size() - Offset < Length)
+	{
+		throw CryptoSymmetricException(Name(), std::string("SetAssociatedData"), std::string("The input array is too small!"), ErrorCodes::InvalidSize);
+	}
+
 	if (IsAuthenticator() == true)
 	{
 		std::vector<uint8_t> code(sizeof(uint32_t));
@@ -350,15 +355,29 @@ void TSX1024::SetAssociatedData(const std::vector<uint8_t> &Input, size_t Offset
 
 void TSX1024::Transform(const std::vector<uint8_t> &Input, size_t InOffset, std::vector<uint8_t> &Output, size_t OutOffset, size_t Length)
 {
+	if (IsInitialized() == false)
+	{
+		throw CryptoSymmetricException(Name(), std::string("Transform"), std::string("The cipher has not been initialized!"), ErrorCodes::NotInitialized);
+	}
+
+	// the tag follows the cipher-text
+	const size_t TAGLEN = IsAuthenticator() ? TagSize() : 0;
+	const size_t INPTAG = IsEncryption() ? 0 : TAGLEN;
+	const size_t OTPTAG = IsEncryption() ? TAGLEN : 0;
+
+	if (InOffset > Input.size() || Input.size() - InOffset < Length || Input.size() - InOffset - Length < INPTAG)
+	{
+		throw CryptoSymmetricException(Name(), std::string("Transform"), std::string("The input array is too small!"), ErrorCodes::InvalidSize);
+	}
+	if (OutOffset > Output.size() || Output.size() - OutOffset < Length || Output.size() - OutOffset - Length < OTPTAG)
+	{
+		throw CryptoSymmetricException(Name(), std::string("Transform"), std::string("The output array is too small!"), ErrorCodes::InvalidSize);
+	}
+
 	if (IsEncryption() == true)
 	{
 		if (IsAuthenticator() == true)
 		{
-			if (Output.size() < Length + OutOffset + m_macAuthenticator->TagSize())
-			{
-				throw CryptoSymmetricException(Name(), std::string("Transform"), std::string("The vector is not int64_t enough to add the MAC code!"), ErrorCodes::InvalidSize);
-			}
-
 			// add the starting position of the nonce
 			m_macAuthenticator->Update(IntegerTools::Le64ToBytes<std::vector<uint8_t>>(m_tsx1024State->Nonce[0]), 0, sizeof(uint64_t));
 			m_macAuthenticator->Update(IntegerTools::Le64ToBytes<std::vector<uint8_t>>(m_tsx1024State->Nonce[1]), 0, sizeof(uint64_t));
diff --git a/CEX/TSX256.cpp b/CEX/TSX256.cpp
index b6b8171..1b41773 100644
--- a/CEX/TSX256.cpp
+++ b/CEX/TSX256.cpp
@@ -315,6 +315,11 @@ void TSX256::SetAssociatedData(const std::vector<uint8_t> &Input, size_t Offset,
 		throw CryptoSymmetricException(Name(), std::string("SetAssociatedData"), std::string("The additional data array can not be zero sized!"), ErrorCodes::InvalidSize);
 	}
 
+	if (Offset > Input.size() || Input.size() - Offset < Length)
+	{
+		throw CryptoSymmetricException(Name(), std::string("SetAssociatedData"), std::string("The input array is too small!"), ErrorCodes::InvalidSize);
+	}
+
 	if (IsAuthenticator() == true)
 	{
 		std::vector<uint8_t> code(sizeof(uint32_t));
@@ -327,15 +332,29 @@ void TSX256::SetAssociatedData(const std::vector<uint8_t> &Input, size_t Offset,
 
 void TSX256::Transform(const std::vector<uint8_t> &Input, size_t InOffset, std::vector<uint8_t> &Output, size_t OutOffset, size_t Length)
 {
+	if (IsInitialized() == false)
+	{
+		throw CryptoSymmetricException(Name(), std::string("Transform"), std::string("The cipher has not been initialized!"), ErrorCodes::NotInitialized);
+	}
+
+	// the tag follows the cipher-text
+	const size_t TAGLEN = IsAuthenticator() ? TagSize() : 0;
+	const size_t INPTAG = IsEncryption() ? 0 : TAGLEN;
+	const size_t OTPTAG = IsEncryption() ? TAGLEN : 0;
+
+	if (InOffset > Input.size() || Input.size() - InOffset < Length || Input.size() - InOffset - Length < INPTAG)
+	{
+		throw CryptoSymmetricException(Name(), std::string("Transform"), std::string("The input array is too small!"), ErrorCodes::InvalidSize);
+	}
+	if (OutOffset > Output.size() || Output.size() - OutOffset < Length || Output.size() - OutOffset - Length < OTPTAG)
+	{
+		throw CryptoSymmetricException(Name(), std::string("Transform"), std::string("The output array is too small!"), ErrorCodes::InvalidSize);
+	}
+
 	if (IsEncryption() == true)
 	{
 		if (IsAuthenticator() == true)
 		{
-			if (Output.size() < Length + OutOffset + m_macAuthenticator->TagSize())
-			{
-				throw CryptoSymmetricException(Name(), std::string("Transform"), std::string("The vector is not int64_t enough to add the MAC code!"), ErrorCodes::InvalidSize);
-			}
-
 			// add the starting position of the nonce
 			m_macAuthenticator->Update(IntegerTools::Le64ToBytes<std::vector<uint8_t>>(m_tsx256State->Nonce[0]), 0, sizeof(uint64_t));
 			m_macAuthenticator->Update(IntegerTools::Le64ToBytes<std::vector<uint8_t>>(m_tsx256State->Nonce[1]), 0, sizeof(uint64_t));
diff --git a/CEX/TSX512.cpp b/CEX/TSX512.cpp
index 2b704ad..7b8cd41 100644
--- a/CEX/TSX512.cpp
+++ b/CEX/TSX512.cpp
@@ -322,6 +322,11 @@ void TSX512::SetAssociatedData(const std::vector<uint8_t> &Input, size_t Offset,
 		throw CryptoSymmetricException(Name(), std::string("SetAssociatedData"), std::string("The additional data array can not be zero sized!"), ErrorCodes::InvalidSize);
 	}
 
+	if (Offset > Input.size() || Input.size() - Offset < Length)
+	{
+		throw CryptoSymmetricException(Name(), std::string("SetAssociatedData"), std::string("The input array is too small!"), ErrorCodes::InvalidSize);
+	}
+
 	if (IsAuthenticator() == true)
 	{
 		std::vector<uint8_t> code(sizeof(uint32_t));
@@ -334,15 +339,29 @@ void TSX512::SetAssociatedData(const std::vector<uint8_t> &Input, size_t Offset,
 
 void TSX512::Transform(const std::vector<uint8_t> &Input, size_t InOffset, std::vector<uint8_t> &Output, size_t OutOffset, size_t Length)
 {
+	if (IsInitialized() == false)
+	{
+		throw CryptoSymmetricException(Name(), std::string("Transform"), std::string("The cipher has not been initialized!"), ErrorCodes::NotInitialized);
+	}
+
+	// the tag follows the cipher-text
+	const size_t TAGLEN = IsAuthenticator() ? TagSize() : 0;
+	const size_t INPTAG = IsEncryption() ? 0 : TAGLEN;
+	const size_t OTPTAG = IsEncryption() ? TAGLEN : 0;
+
+	if (InOffset > Input.size() || Input.size() - InOffset < Length || Input.size() - InOffset - Length < INPTAG)
+	{
+		throw CryptoSymmetricException(Name(), std::string("Transform"), std::string("The input array is too small!"), ErrorCodes::InvalidSize);
+	}
+	if (OutOffset > Output.size() || Output.size() - OutOffset < Length || Output.size() - OutOffset - Length < OTPTAG)
+	{
+		throw CryptoSymmetricException(Name(), std::string("Transform"), std::string("The output array is too small!"), ErrorCodes::InvalidSize);
+	}
+
 	if (IsEncryption() == true)
 	{
 		if (IsAuthenticator() == true)
 		{
-			if (Output.size() < Length + OutOffset + m_macAuthenticator->TagSize())
-			{
-				throw CryptoSymmetricException(Name(), std::string("Transform"), std::string("The vector is not int64_t enough to add the MAC code!"), ErrorCodes::InvalidSize);
-			}
-
 			// add the starting position of the nonce
 			m_macAuthenticator->Update(IntegerTools::Le64ToBytes<std::vector<uint8_t>>(m_tsx512State->Nonce[0]), 0, sizeof(uint64_t));
 			m_macAuthenticator->Update(IntegerTools::Le64ToBytes<std::vector<uint8_t>>(m_tsx512State->Nonce[1]), 0, sizeof(uint64_t));
-- 
2.43.0


From 68c9fa1e1f97564c57f4fad540bdfbea4c49d8a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:17 +0000
Subject: [PATCH 056/155] fix: RCS and RWS keep the length of an earlier
 customization string when re-initialized without one

---
 CEX/RCS.cpp | 3 ++-
 CEX/RWS.cpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/CEX/RCS.cpp b/CEX/RCS.cpp
index a3413c1..c28d025 100644
--- a/CEX/RCS.cpp
+++ b/CEX/RCS.cpp
@@ -479,9 +479,10 @@ void RCS::Initialize(bool Encryption, ISymmetricKey &Parameters)
 	}
 
 	// store the customization string -v1.0d
+	m_rcsState->Custom.resize(Parameters.KeySizes().InfoSize());
+
 	if (Parameters.KeySizes().InfoSize() != 0)
 	{
-		m_rcsState->Custom.resize(Parameters.KeySizes().InfoSize());
 		// copy the user defined string to the customization parameter
 		MemoryTools::Copy(Parameters.Info(), 0, m_rcsState->Custom, 0, Parameters.KeySizes().InfoSize());
 	}
diff --git a/CEX/RWS.cpp b/CEX/RWS.cpp
index ae24136..54bef11 100644
--- a/CEX/RWS.cpp
+++ b/CEX/RWS.cpp
@@ -444,9 +444,10 @@ void RWS::Initialize(bool Encryption, ISymmetricKey &Parameters)
 	m_rwsState->Counter = 0;
 
 	// store the customization string
+	m_rwsState->Custom.resize(Parameters.KeySizes().InfoSize());
+
 	if (Parameters.KeySizes().InfoSize() != 0)
 	{
-		m_rwsState->Custom.resize(Parameters.KeySizes().InfoSize());
 		// copy the user defined string to the customization parameter
 		MemoryTools::Copy(Parameters.Info(), 0, m_rwsState->Custom, 0, Parameters.KeySizes().InfoSize());
 	}
-- 
2.43.0


From 0563361e2ca89bc2bae7fb3bd8b6d6d36fc6def6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:17 +0000
Subject: [PATCH 057/155] fix: HBA checks array sizes with expressions that
 wrap, and only after the MAC was updated

---
 CEX/HBA.cpp | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/CEX/HBA.cpp b/CEX/HBA.cpp
index 2af782f..80fc7fa 100644
--- a/CEX/HBA.cpp
+++ b/CEX/HBA.cpp
@@ -344,7 +344,7 @@ void HBA::SetAssociatedData(const std::vector<uint8_t> &Input, size_t Offset, si
 		throw CryptoCipherModeException(Name(), std::string("SetAssociatedData"), std::string("The cipher has not been initialized!"), ErrorCodes::NotInitialized);
 	}
 
-	if (Length - Offset > Input.size())
+	if (Offset > Input.size() || Input.size() - Offset < Length)
 	{
 		throw CryptoCipherModeException(Name(), std::string("SetAssociatedData"), std::string("The input array is too small!"), ErrorCodes::InvalidSize);
 	}
@@ -368,7 +368,7 @@ void HBA::SetAssociatedData(const SecureVector<uint8_t> &Input, size_t Offset, s
 		throw CryptoCipherModeException(Name(), std::string("SetAssociatedData"), std::string("The cipher has not been initialized!"), ErrorCodes::NotInitialized);
 	}
 
-	if (Length - Offset > Input.size())
+	if (Offset > Input.size() || Input.size() - Offset < Length)
 	{
 		throw CryptoCipherModeException(Name(), std::string("SetAssociatedData"), std::string("The input array is too small!"), ErrorCodes::InvalidSize);
 	}
@@ -392,16 +392,24 @@ void HBA::Transform(const std::vector<uint8_t> &Input, size_t InOffset, std::vec
 		throw CryptoCipherModeException(Name(), std::string("Transform"), std::string("The cipher mode has not been initialized!"), ErrorCodes::NotInitialized);
 	}
 
+	// the tag follows the cipher-text
+	const size_t INPTAG = IsEncryption() ? 0 : TagSize();
+	const size_t OTPTAG = IsEncryption() ? TagSize() : 0;
+
+	if (InOffset > Input.size() || Input.size() - InOffset < Length || Input.size() - InOffset - Length < INPTAG)
+	{
+		throw CryptoCipherModeException(Name(), std::string("Transform"), std::string("The input array is too small!"), ErrorCodes::InvalidSize);
+	}
+	if (OutOffset > Output.size() || Output.size() - OutOffset < Length || Output.size() - OutOffset - Length < OTPTAG)
+	{
+		throw CryptoCipherModeException(Name(), std::string("Transform"), std::string("The output array is too small!"), ErrorCodes::InvalidSize);
+	}
+
 	// add the starting position of the nonce to the mac
 	m_macAuthenticator->Update(m_cipherMode->Nonce(), 0, m_cipherMode->Nonce().size());
 
 	if (IsEncryption() == true)
 	{
-		if (Output.size() - OutOffset < Length + TagSize())
-		{
-			throw CryptoCipherModeException(Name(), std::string("Transform"), std::string("The output array is too small!"), ErrorCodes::InvalidSize);
-		}
-
 		// encrypt the plain-text
 		m_cipherMode->Transform(Input, InOffset, Output, OutOffset, Length);
 		// update the MAC with the cipher-text
@@ -414,11 +422,6 @@ void HBA::Transform(const std::vector<uint8_t> &Input, size_t InOffset, std::vec
 	}
 	else
 	{
-		if (Output.size() - OutOffset < Length)
-		{
-			throw CryptoCipherModeException(Name(), std::string("Transform"), std::string("The output array is too small!"), ErrorCodes::InvalidSize);
-		}
-
 		// update the MAC with the input cipher-text
 		m_macAuthenticator->Update(Input, InOffset, Length);
 		// update the mac counter
-- 
2.43.0


From 44797fe7b2c7c68fb9121def8a9550de8e1e98a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:17 +0000
Subject: [PATCH 058/155] fix: GCM re-initialization keeps associated data,
 nonce bytes and a zeroed hash key, and a refused one destroys the current
 state

---
 CEX/GCM.cpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/CEX/GCM.cpp b/CEX/GCM.cpp
index d0ec3e5..b0d6164 100644
--- a/CEX/GCM.cpp
+++ b/CEX/GCM.cpp
@@ -184,13 +184,6 @@ const size_t GCM::TagSize()
 
 void GCM::Initialize(bool Encryption, ISymmetricKey &Parameters)
 {
-	MemoryTools::Clear(m_gcmState->AAD, 0, m_gcmState->AAD.size());
-	m_macAuthenticator->Reset();
-	MemoryTools::Clear(m_gcmState->Buffer, 0, m_gcmState->Buffer.size());
-	m_gcmState->Counter = 0;
-
-	MemoryTools::Clear(m_gcmState->Tag, 0, m_gcmState->Tag.size());
-
 	if (Parameters.KeySizes().IVSize() < MIN_NONCESIZE)
 	{
 		throw CryptoCipherModeException(Name(), std::string("Initialize"), std::string("Requires a nonce of minimum 10 bytes in length!"), ErrorCodes::InvalidNonce);
@@ -210,7 +203,7 @@ void GCM::Initialize(bool Encryption, ISymmetricKey &Parameters)
 
 	if (Parameters.KeySizes().KeySize() == 0)
 	{
-		if (Parameters.SecureIV() == m_gcmState->Buffer)
+		if (Parameters.SecureIV() == m_gcmState->Buffer || Parameters.SecureIV() == SecureVector<uint8_t>(Parameters.KeySizes().IVSize(), 0x00))
 		{
 			throw CryptoCipherModeException(Name(), std::string("Initialize"), std::string("The nonce can not be zeroised or repeating!"), ErrorCodes::InvalidNonce);
 		}
@@ -218,6 +211,9 @@ void GCM::Initialize(bool Encryption, ISymmetricKey &Parameters)
 		{
 			throw CryptoCipherModeException(Name(), std::string("Initialize"), std::string("First initialization requires a key and nonce!"), ErrorCodes::IllegalOperation);
 		}
+
+		// the hash key is retained
+		m_macAuthenticator->Clear();
 	}
 	else
 	{
@@ -239,12 +235,20 @@ void GCM::Initialize(bool Encryption, ISymmetricKey &Parameters)
 		};
 
 		// initialize the ghash function
+		m_macAuthenticator->Reset();
 		m_macAuthenticator->Initialize(gkey);
 		// store the key in a secure-vector
 		m_gcmState->Key.resize(Parameters.KeySizes().KeySize());
 		MemoryTools::Copy(Parameters.SecureKey(), 0, m_gcmState->Key, 0, m_gcmState->Key.size());
 	}
 
+	// reset the state of the last message
+	MemoryTools::Clear(m_gcmState->AAD, 0, m_gcmState->AAD.size());
+	m_gcmState->AAD.resize(0);
+	MemoryTools::Clear(m_gcmState->Nonce, 0, m_gcmState->Nonce.size());
+	MemoryTools::Clear(m_gcmState->Tag, 0, m_gcmState->Tag.size());
+	m_gcmState->Counter = 0;
+
 	// load the state
 	m_gcmState->Encryption = Encryption;
 	m_gcmState->Buffer.resize(Parameters.KeySizes().IVSize());
-- 
2.43.0


From 8705daf48aa54f379e75e92195dbbc337e2ba512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:17 +0000
Subject: [PATCH 059/155] fix: GCM transforms without being initialized and
 with arrays too small for the length

---
 CEX/GCM.cpp | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/CEX/GCM.cpp b/CEX/GCM.cpp
index b0d6164..1652268 100644
--- a/CEX/GCM.cpp
+++ b/CEX/GCM.cpp
@@ -303,6 +303,11 @@ void GCM::SetAssociatedData(const std::vector<uint8_t> &Input, size_t Offset, si
 		throw CryptoCipherModeException(Name(), std::string("SetAssociatedData"), std::string("The associated data has already been set!"), ErrorCodes::IllegalOperation);
 	}
 
+	if (Offset > Input.size() || Input.size() - Offset < Length)
+	{
+		throw CryptoCipherModeException(Name(), std::string("SetAssociatedData"), std::string("The input array is too small!"), ErrorCodes::InvalidSize);
+	}
+
 	m_gcmState->AAD.resize(Length);
 	MemoryTools::Copy(Input, Offset, m_gcmState->AAD, 0, Length);
 	m_macAuthenticator->Multiply(m_gcmState->AAD, m_gcmState->Tag, Length);
@@ -319,6 +324,11 @@ void GCM::SetAssociatedData(const SecureVector<uint8_t> &Input, size_t Offset, s
 		throw CryptoCipherModeException(Name(), std::string("SetAssociatedData"), std::string("The associated data has already been set!"), ErrorCodes::IllegalOperation);
 	}
 
+	if (Offset > Input.size() || Input.size() - Offset < Length)
+	{
+		throw CryptoCipherModeException(Name(), std::string("SetAssociatedData"), std::string("The input array is too small!"), ErrorCodes::InvalidSize);
+	}
+
 	m_gcmState->AAD.resize(Length);
 	MemoryTools::Copy(Input, Offset, m_gcmState->AAD, 0, Length);
 	m_macAuthenticator->Multiply(m_gcmState->AAD, m_gcmState->Tag, Length);
@@ -326,8 +336,23 @@ void GCM::SetAssociatedData(const SecureVector<uint8_t> &Input, size_t Offset, s
 
 void GCM::Transform(const std::vector<uint8_t> &Input, size_t InOffset, std::vector<uint8_t> &Output, size_t OutOffset, size_t Length)
 {
-	CEXASSERT(IsInitialized(), "The cipher mode has not been initialized!");
-	CEXASSERT(IntegerTools::Min(Input.size() - InOffset, Output.size() - OutOffset) >= Length, "The data arrays are smaller than the the block-size!");
+	if (IsInitialized() == false)
+	{
+		throw CryptoCipherModeException(Name(), std::string("Transform"), std::string("The cipher mode has not been initialized!"), ErrorCodes::NotInitialized);
+	}
+
+	// the tag follows the cipher-text
+	const size_t INPTAG = IsEncryption() ? 0 : TagSize();
+	const size_t OTPTAG = IsEncryption() ? TagSize() : 0;
+
+	if (InOffset > Input.size() || Input.size() - InOffset < Length || Input.size() - InOffset - Length < INPTAG)
+	{
+		throw CryptoCipherModeException(Name(), std::string("Transform"), std::string("The input array is too small!"), ErrorCodes::InvalidSize);
+	}
+	if (OutOffset > Output.size() || Output.size() - OutOffset < Length || Output.size() - OutOffset - Length < OTPTAG)
+	{
+		throw CryptoCipherModeException(Name(), std::string("Transform"), std::string("The output array is too small!"), ErrorCodes::InvalidSize);
+	}
 
 	m_gcmState->Counter += Length;
 
-- 
2.43.0


From e2273cfe87a2686c3d97feaa2aa665c8e5b10660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:38 +0000
Subject: [PATCH 060/155] fix: CSG built on a provider instance has a rate of
 one byte in the 512 and 1024 modes

---
 CEX/CSG.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/CEX/CSG.cpp b/CEX/CSG.cpp
index be56a73..3b018e6 100644
--- a/CEX/CSG.cpp
+++ b/CEX/CSG.cpp
@@ -134,27 +134,27 @@ CSG::CSG(ShakeModes ShakeModeType, IProvider* Provider, bool Parallel)
 			SymmetricKeySize(
 				(ShakeModeType == ShakeModes::SHAKE128 ? Keccak::KECCAK128_DIGEST_SIZE :
 					ShakeModeType == ShakeModes::SHAKE256 ? Keccak::KECCAK256_DIGEST_SIZE :
-					ShakeModeType == ShakeModes::SHAKE512),
+					Keccak::KECCAK512_DIGEST_SIZE),
 				0,
 				0),
 			SymmetricKeySize(
 				(ShakeModeType == ShakeModes::SHAKE128 ? Keccak::KECCAK128_DIGEST_SIZE :
 					ShakeModeType == ShakeModes::SHAKE256 ? Keccak::KECCAK256_DIGEST_SIZE :
-					ShakeModeType == ShakeModes::SHAKE512),
+					Keccak::KECCAK512_DIGEST_SIZE),
 				0,
 				(ShakeModeType == ShakeModes::SHAKE128 ? Keccak::KECCAK128_DIGEST_SIZE :
 					ShakeModeType == ShakeModes::SHAKE256 ? Keccak::KECCAK256_DIGEST_SIZE :
-					ShakeModeType == ShakeModes::SHAKE512)),
+					Keccak::KECCAK512_DIGEST_SIZE)),
 			SymmetricKeySize(
 				(ShakeModeType == ShakeModes::SHAKE128 ? Keccak::KECCAK128_DIGEST_SIZE :
 					ShakeModeType == ShakeModes::SHAKE256 ? Keccak::KECCAK256_DIGEST_SIZE :
-					ShakeModeType == ShakeModes::SHAKE512),
+					Keccak::KECCAK512_DIGEST_SIZE),
 				(ShakeModeType == ShakeModes::SHAKE128 ? Keccak::KECCAK128_DIGEST_SIZE :
 					ShakeModeType == ShakeModes::SHAKE256 ? Keccak::KECCAK256_DIGEST_SIZE :
-					ShakeModeType == ShakeModes::SHAKE512),
+					Keccak::KECCAK512_DIGEST_SIZE),
 				(ShakeModeType == ShakeModes::SHAKE128 ? Keccak::KECCAK128_DIGEST_SIZE :
 					ShakeModeType == ShakeModes::SHAKE256 ? Keccak::KECCAK256_DIGEST_SIZE :
-					ShakeModeType == ShakeModes::SHAKE512))},
+					Keccak::KECCAK512_DIGEST_SIZE))},
 		MAX_OUTPUT,
 		MAX_REQUEST,
 		MAX_THRESHOLD),
@@ -164,7 +164,8 @@ CSG::CSG(ShakeModes ShakeModeType, IProvider* Provider, bool Parallel)
 			ShakeModeType,
 			((ShakeModeType == ShakeModes::SHAKE128) ? Keccak::KECCAK128_RATE_SIZE :
 				(ShakeModeType == ShakeModes::SHAKE256) ? Keccak::KECCAK256_RATE_SIZE :
-				(ShakeModeType == ShakeModes::SHAKE512)), 
+				(ShakeModeType == ShakeModes::SHAKE512) ? Keccak::KECCAK512_RATE_SIZE :
+				Keccak::KECCAK1024_RATE_SIZE), 
 			DEF_RESEED, 
 			false))
 {
-- 
2.43.0


From 448658fa5148326795d3fb1126bf5143d3b8c19b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:38 +0000
Subject: [PATCH 061/155] fix: CSG::Customize writes the encoded length past
 the rate and out of its buffer

---
 CEX/CSG.cpp | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/CEX/CSG.cpp b/CEX/CSG.cpp
index 3b018e6..4e01168 100644
--- a/CEX/CSG.cpp
+++ b/CEX/CSG.cpp
@@ -423,6 +423,8 @@ void CSG::Absorb(const SecureVector<uint8_t> &Input, size_t InOffset, size_t Len
 void CSG::Customize(const SecureVector<uint8_t> &Customization, const SecureVector<uint8_t> &Information, std::unique_ptr<CsgState> &State)
 {
 	std::array<uint8_t, BUFFER_SIZE> pad = { 0 };
+	std::array<uint8_t, sizeof(uint64_t) + 1> enc = { 0 };
+	size_t enclen;
 	size_t i;
 	size_t offset;
 
@@ -448,7 +450,21 @@ void CSG::Customize(const SecureVector<uint8_t> &Customization, const SecureVect
 		}
 	}
 
-	offset += Keccak::LeftEncode(pad, offset, static_cast<uint64_t>(Customization.size()) * 8);
+	enclen = Keccak::LeftEncode(enc, 0, static_cast<uint64_t>(Customization.size()) * 8);
+
+	// the encoded length can straddle two blocks
+	for (i = 0; i < enclen; ++i)
+	{
+		if (offset == State->Rate)
+		{
+			Keccak::FastAbsorb(pad, 0, State->Rate, State->State[State->Index]);
+			Permute(State);
+			offset = 0;
+		}
+
+		pad[offset] = enc[i];
+		++offset;
+	}
 
 	if (Customization.size() != 0)
 	{
-- 
2.43.0


From 6ce9a6b6d9f7fe4693a48f9159fb1d3732da1965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:20 +0000
Subject: [PATCH 062/155] fix: the generators accept an output offset beyond
 the end of the array

---
 CEX/BCG.cpp | 4 ++--
 CEX/BCR.cpp | 4 ++--
 CEX/CSG.cpp | 4 ++--
 CEX/CSR.cpp | 4 ++--
 CEX/HCG.cpp | 4 ++--
 CEX/HCR.cpp | 4 ++--
 6 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/CEX/BCG.cpp b/CEX/BCG.cpp
index db394a5..d2ebcff 100644
--- a/CEX/BCG.cpp
+++ b/CEX/BCG.cpp
@@ -198,7 +198,7 @@ void BCG::Generate(SecureVector<uint8_t> &Output, size_t OutOffset, size_t Lengt
 	{
 		throw CryptoGeneratorException(Name(), std::string("Generate"), std::string("The generator must be initialized before use!"), ErrorCodes::NotInitialized);
 	}
-	if ((Output.size() - OutOffset) < Length)
+	if (OutOffset > Output.size() || Output.size() - OutOffset < Length)
 	{
 		throw CryptoGeneratorException(Name(), std::string("Generate"), std::string("The output buffer is too small!"), ErrorCodes::InvalidSize);
 	}
@@ -244,7 +244,7 @@ void BCG::Generate(std::vector<uint8_t> &Output, size_t OutOffset, size_t Length
 	{
 		throw CryptoGeneratorException(Name(), std::string("Generate"), std::string("The generator must be initialized before use!"), ErrorCodes::NotInitialized);
 	}
-	if ((Output.size() - OutOffset) < Length)
+	if (OutOffset > Output.size() || Output.size() - OutOffset < Length)
 	{
 		throw CryptoGeneratorException(Name(), std::string("Generate"), std::string("The output buffer is too small!"), ErrorCodes::InvalidSize);
 	}
diff --git a/CEX/BCR.cpp b/CEX/BCR.cpp
index 6fe0564..feb47fd 100644
--- a/CEX/BCR.cpp
+++ b/CEX/BCR.cpp
@@ -80,7 +80,7 @@ void BCR::Generate(std::vector<uint8_t> &Output)
 
 void BCR::Generate(std::vector<uint8_t> &Output, size_t Offset, size_t Length)
 {
-	if ((Output.size() - Offset) < Length)
+	if (Offset > Output.size() || Output.size() - Offset < Length)
 	{
 		throw CryptoRandomException(Name(), std::string("Generate"), std::string("The output buffer is too small!"), ErrorCodes::InvalidSize);
 	}
@@ -98,7 +98,7 @@ void BCR::Generate(SecureVector<uint8_t> &Output)
 
 void BCR::Generate(SecureVector<uint8_t> &Output, size_t Offset, size_t Length)
 {
-	if ((Output.size() - Offset) < Length)
+	if (Offset > Output.size() || Output.size() - Offset < Length)
 	{
 		throw CryptoRandomException(Name(), std::string("Generate"), std::string("The output buffer is too small!"), ErrorCodes::InvalidSize);
 	}
diff --git a/CEX/CSG.cpp b/CEX/CSG.cpp
index 4e01168..412c16e 100644
--- a/CEX/CSG.cpp
+++ b/CEX/CSG.cpp
@@ -256,7 +256,7 @@ void CSG::Generate(SecureVector<uint8_t> &Output)
 
 void CSG::Generate(std::vector<uint8_t> &Output, size_t OutOffset, size_t Length)
 {
-	if ((Output.size() - OutOffset) < Length)
+	if (OutOffset > Output.size() || Output.size() - OutOffset < Length)
 	{
 		throw CryptoGeneratorException(Name(), std::string("Generate"), std::string("The output buffer is too small!"), ErrorCodes::InvalidSize);
 	}
@@ -272,7 +272,7 @@ void CSG::Generate(SecureVector<uint8_t> &Output, size_t OutOffset, size_t Lengt
 	{
 		throw CryptoGeneratorException(Name(), std::string("Generate"), std::string("The generator must be initialized before use!"), ErrorCodes::NotInitialized);
 	}
-	if ((Output.size() - OutOffset) < Length)
+	if (OutOffset > Output.size() || Output.size() - OutOffset < Length)
 	{
 		throw CryptoGeneratorException(Name(), std::string("Generate"), std::string("The output buffer is too small!"), ErrorCodes::InvalidSize);
 	}
diff --git a/CEX/CSR.cpp b/CEX/CSR.cpp
index 4386154..533556f 100644
--- a/CEX/CSR.cpp
+++ b/CEX/CSR.cpp
@@ -81,7 +81,7 @@ void CSR::Generate(std::vector<uint8_t> &Output)
 
 void CSR::Generate(std::vector<uint8_t> &Output, size_t Offset, size_t Length)
 {
-	if ((Output.size() - Offset) < Length)
+	if (Offset > Output.size() || Output.size() - Offset < Length)
 	{
 		throw CryptoRandomException(Name(), std::string("Generate"), std::string("The output buffer is too small!"), ErrorCodes::InvalidSize);
 	}
@@ -99,7 +99,7 @@ void CSR::Generate(SecureVector<uint8_t> &Output)
 
 void CSR::Generate(SecureVector<uint8_t> &Output, size_t Offset, size_t Length)
 {
-	if ((Output.size() - Offset) < Length)
+	if (Offset > Output.size() || Output.size() - Offset < Length)
 	{
 		throw CryptoRandomException(Name(), std::string("Generate"), std::string("The output buffer is too small!"), ErrorCodes::InvalidSize);
 	}
diff --git a/CEX/HCG.cpp b/CEX/HCG.cpp
index 9e11f7f..720e771 100644
--- a/CEX/HCG.cpp
+++ b/CEX/HCG.cpp
@@ -198,7 +198,7 @@ void HCG::Generate(std::vector<uint8_t> &Output, size_t OutOffset, size_t Length
 	{
 		throw CryptoGeneratorException(Name(), std::string("Generate"), std::string("The generator must be initialized before use!"), ErrorCodes::NotInitialized);
 	}
-	if ((Output.size() - OutOffset) < Length)
+	if (OutOffset > Output.size() || Output.size() - OutOffset < Length)
 	{
 		throw CryptoGeneratorException(Name(), std::string("Generate"), std::string("The output buffer is too small!"), ErrorCodes::InvalidSize);
 	}
@@ -235,7 +235,7 @@ void HCG::Generate(std::vector<uint8_t> &Output, size_t OutOffset, size_t Length
 
 void HCG::Generate(SecureVector<uint8_t> &Output, size_t OutOffset, size_t Length)
 {
-	if ((Output.size() - OutOffset) < Length)
+	if (OutOffset > Output.size() || Output.size() - OutOffset < Length)
 	{
 		throw CryptoGeneratorException(Name(), std::string("Generate"), std::string("The output buffer is too small!"), ErrorCodes::InvalidSize);
 	}
diff --git a/CEX/HCR.cpp b/CEX/HCR.cpp
index 16375ba..46ea9bd 100644
--- a/CEX/HCR.cpp
+++ b/CEX/HCR.cpp
@@ -84,7 +84,7 @@ void HCR::Generate(std::vector<uint8_t> &Output)
 
 void HCR::Generate(std::vector<uint8_t> &Output, size_t Offset, size_t Length)
 {
-	if ((Output.size() - Offset) < Length)
+	if (Offset > Output.size() || Output.size() - Offset < Length)
 	{
 		throw CryptoRandomException(Name(), std::string("Generate"), std::string("The output buffer is too small!"), ErrorCodes::InvalidSize);
 	}
@@ -102,7 +102,7 @@ void HCR::Generate(SecureVector<uint8_t> &Output)
 
 void HCR::Generate(SecureVector<uint8_t> &Output, size_t Offset, size_t Length)
 {
-	if ((Output.size() - Offset) < Length)
+	if (Offset > Output.size() || Output.size() - Offset < Length)
 	{
 		throw CryptoRandomException(Name(), std::string("Generate"), std::string("The output buffer is too small!"), ErrorCodes::InvalidSize);
 	}
-- 
2.43.0


From 565e638b1757b93ebaf31c3ff6d9608d4d16227d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:20 +0000
Subject: [PATCH 063/155] fix: CSR and HCR generate the size of the array into
 a buffer of the requested length

---
 CEX/CSR.cpp | 2 +-
 CEX/HCR.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/CEX/CSR.cpp b/CEX/CSR.cpp
index 533556f..bf8b880 100644
--- a/CEX/CSR.cpp
+++ b/CEX/CSR.cpp
@@ -88,7 +88,7 @@ void CSR::Generate(std::vector<uint8_t> &Output, size_t Offset, size_t Length)
 
 	SecureVector<uint8_t> tmp(Length);
 
-	Generate(tmp, 0, Output.size(), m_rngGenerator);
+	Generate(tmp, 0, Length, m_rngGenerator);
 	SecureMove(tmp, 0, Output, Offset, tmp.size());
 }
 
diff --git a/CEX/HCR.cpp b/CEX/HCR.cpp
index 46ea9bd..531dd50 100644
--- a/CEX/HCR.cpp
+++ b/CEX/HCR.cpp
@@ -91,7 +91,7 @@ void HCR::Generate(std::vector<uint8_t> &Output, size_t Offset, size_t Length)
 
 	SecureVector<uint8_t> tmp(Length);
 
-	Generate(tmp, 0, Output.size(), m_rngGenerator);
+	Generate(tmp, 0, Length, m_rngGenerator);
 	SecureMove(tmp, 0, Output, Offset, tmp.size());
 }
 
-- 
2.43.0


From cdbace3adfbb3f4bbbef8f6de021fcdef4d60264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:20 +0000
Subject: [PATCH 064/155] fix: updating a generator that has not been
 initialized is not refused

---
 CEX/BCG.cpp | 4 ++++
 CEX/CSG.cpp | 4 ++++
 CEX/HCG.cpp | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/CEX/BCG.cpp b/CEX/BCG.cpp
index d2ebcff..0fd72db 100644
--- a/CEX/BCG.cpp
+++ b/CEX/BCG.cpp
@@ -341,6 +341,10 @@ void BCG::Update(const std::vector<uint8_t> &Key)
 
 void BCG::Update(const SecureVector<uint8_t> &Key)
 {
+	if (IsInitialized() == false)
+	{
+		throw CryptoGeneratorException(Name(), std::string("Update"), std::string("The generator must be initialized before use!"), ErrorCodes::NotInitialized);
+	}
 #if defined(CEX_ENFORCE_LEGALKEY)
 	if (!SymmetricKeySize::Contains(LegalKeySizes(), Key.size()))
 	{
diff --git a/CEX/CSG.cpp b/CEX/CSG.cpp
index 412c16e..569b996 100644
--- a/CEX/CSG.cpp
+++ b/CEX/CSG.cpp
@@ -354,6 +354,10 @@ void CSG::Update(const std::vector<uint8_t> &Key)
 
 void CSG::Update(const SecureVector<uint8_t> &Key)
 {
+	if (IsInitialized() == false)
+	{
+		throw CryptoGeneratorException(Name(), std::string("Update"), std::string("The generator must be initialized before use!"), ErrorCodes::NotInitialized);
+	}
 #if defined(CEX_ENFORCE_LEGALKEY)
 	if (!SymmetricKeySize::Contains(LegalKeySizes(), Key.size()))
 	{
diff --git a/CEX/HCG.cpp b/CEX/HCG.cpp
index 720e771..15b9d94 100644
--- a/CEX/HCG.cpp
+++ b/CEX/HCG.cpp
@@ -292,6 +292,10 @@ void HCG::Initialize(ISymmetricKey &Parameters)
 
 void HCG::Update(const std::vector<uint8_t> &Key)
 {
+	if (IsInitialized() == false)
+	{
+		throw CryptoGeneratorException(Name(), std::string("Update"), std::string("The generator must be initialized before use!"), ErrorCodes::NotInitialized);
+	}
 #if defined(CEX_ENFORCE_LEGALKEY)
 	if (!SymmetricKeySize::Contains(LegalKeySizes(), Key.size()))
 	{
-- 
2.43.0


From 63114115e8a6bf41efe43328f7b66734edc6ef5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:20 +0000
Subject: [PATCH 065/155] fix: BCG counts a reseed twice, keeps the count after
 initialize, and gives up its provider

---
 CEX/BCG.cpp | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/CEX/BCG.cpp b/CEX/BCG.cpp
index 0fd72db..8708ab7 100644
--- a/CEX/BCG.cpp
+++ b/CEX/BCG.cpp
@@ -80,8 +80,8 @@ public:
 
 		Counter = 0;
 		KeySize = 0;
+		Reseed = 0;
 		Rounds = 0;
-		IsDestroyed = false;
 		IsInitialized = false;
 	}
 };
@@ -217,20 +217,11 @@ void BCG::Generate(SecureVector<uint8_t> &Output, size_t OutOffset, size_t Lengt
 		// generator must be re-seeded
 		if (m_bcgState->Counter >= ReseedThreshold() || CyclicReseed() == true)
 		{
-			// increment the reseed count
-			++m_bcgState->Reseed;
-
-			// if re-seeded more than legal maximum, throw an exception
-			if (m_bcgState->Reseed > MaxReseedCount())
-			{
-				throw CryptoGeneratorException(Name(), std::string("Generate"), std::string("The maximum reseed requests can not be exceeded, re-initialize the generator!"), ErrorCodes::MaxExceeded);
-			}
-
 			// the next unused block of output is key material
 			SecureVector<uint8_t> tmpk(GEN_STRENGTH / 8);
 			// fill the key with pseudo-random
 			Process(tmpk, 0, tmpk.size());
-			// re-initialize the generator
+			// re-initialize the generator; throws if re-seeded more than the legal maximum
 			Update(tmpk);
 			// reset the reseed counter
 			m_bcgState->Counter = 0;
@@ -377,7 +368,10 @@ void BCG::Update(const SecureVector<uint8_t> &Key)
 
 	// reinitialize the generator with the nonce and distribution codes preserved
 	SymmetricKey kp(tmpk, m_bcgState->Nonce, m_bcgState->Custom);
+	// initializing starts a new reseed count, an update continues it
+	const size_t RSDCNT = m_bcgState->Reseed;
 	Initialize(kp);
+	m_bcgState->Reseed = RSDCNT;
 	// reset the reseed counter
 	m_bcgState->Counter = 0;
 }
-- 
2.43.0


From 42dfaa0a8c1cecf55caf0c1e43440ebf667019b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:20 +0000
Subject: [PATCH 066/155] fix: HCG built on a digest instance uses the name of
 another generator and accepts any digest

---
 CEX/HCG.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CEX/HCG.cpp b/CEX/HCG.cpp
index 15b9d94..d1cc97c 100644
--- a/CEX/HCG.cpp
+++ b/CEX/HCG.cpp
@@ -106,7 +106,7 @@ HCG::HCG(IDigest* Digest, IProvider* Provider)
 	:
 	DrbgBase(
 		Drbgs::HCG,
-		(Digest != nullptr ? DrbgConvert::ToName(Drbgs::BCG) + std::string("-") + DigestConvert::ToName(Digest->Enumeral()) :
+		(Digest != nullptr ? DrbgConvert::ToName(Drbgs::HCG) + std::string("-") + DigestConvert::ToName(Digest->Enumeral()) :
 			throw CryptoGeneratorException(DrbgConvert::ToName(Drbgs::HCG), std::string("Constructor"), std::string("The digest can not be null!"), ErrorCodes::IllegalOperation)),
 		Digest != nullptr ? 
 			(Digest->Enumeral() == Digests::SHA2256 ?
@@ -122,7 +122,7 @@ HCG::HCG(IDigest* Digest, IProvider* Provider)
 		MAX_OUTPUT,
 		MAX_REQUEST,
 		MAX_THRESHOLD),
-	m_hcgGenerator(Digest != nullptr && (Digest->Enumeral() == Digests::SHA2256 || Digest->Enumeral() != Digests::SHA2512) ? 
+	m_hcgGenerator(Digest != nullptr && (Digest->Enumeral() == Digests::SHA2256 || Digest->Enumeral() == Digests::SHA2512) ? 
 		new HMAC(Digest) :
 		throw CryptoGeneratorException(DrbgConvert::ToName(Drbgs::HCG), std::string("Constructor"), std::string("The digest type is not supported!"), ErrorCodes::IllegalOperation)),
 	m_hcgProvider(Provider),
-- 
2.43.0


From f2096b88e25f184583e69b8a4532c7e7e956edf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:20 +0000
Subject: [PATCH 067/155] fix: SHAKE does not count whole blocks towards its
 request limit nor check the key window

---
 CEX/SHAKE.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/CEX/SHAKE.cpp b/CEX/SHAKE.cpp
index 144af57..1ca8ea5 100644
--- a/CEX/SHAKE.cpp
+++ b/CEX/SHAKE.cpp
@@ -197,6 +197,11 @@ void SHAKE::Initialize(const SecureVector<uint8_t> &Key)
 
 void SHAKE::Initialize(const std::vector<uint8_t> &Key, size_t Offset, size_t Length)
 {
+	if (Offset > Key.size() || Key.size() - Offset < Length)
+	{
+		throw CryptoKdfException(Name(), std::string("Initialize"), std::string("The key array is too small!"), ErrorCodes::InvalidKey);
+	}
+
 	SecureVector<uint8_t> tmpk(Length);
 
 	MemoryTools::Copy(Key, Offset, tmpk, 0, Length);
@@ -205,6 +210,11 @@ void SHAKE::Initialize(const std::vector<uint8_t> &Key, size_t Offset, size_t Le
 
 void SHAKE::Initialize(const SecureVector<uint8_t> &Key, size_t Offset, size_t Length)
 {
+	if (Offset > Key.size() || Key.size() - Offset < Length)
+	{
+		throw CryptoKdfException(Name(), std::string("Initialize"), std::string("The key array is too small!"), ErrorCodes::InvalidKey);
+	}
+
 	SecureVector<uint8_t> tmpk(Length);
 
 	MemoryTools::Copy(Key, Offset, tmpk, 0, Length);
@@ -331,6 +341,7 @@ void SHAKE::Expand(SecureVector<uint8_t> &Output, size_t OutOffset, size_t Lengt
 		const size_t BLKOFF = BLKCNT * State->Rate;
 		Length -= BLKOFF;
 		OutOffset += BLKOFF;
+		State->Counter += BLKCNT;
 	}
 
 	if (Length != 0)
-- 
2.43.0


From 315b9a4ef61aec8abbd9f1d88c954532966db881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:00 +0000
Subject: [PATCH 068/155] fix: BCG deletes a provider instance that belongs to
 its caller

---
 CEX/BCG.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CEX/BCG.cpp b/CEX/BCG.cpp
index 8708ab7..cd3df12 100644
--- a/CEX/BCG.cpp
+++ b/CEX/BCG.cpp
@@ -123,7 +123,7 @@ BCG::BCG(IProvider* Provider, bool Parallel)
 	m_bcgProvider(Provider != nullptr ? 
 		Provider :
 		throw CryptoGeneratorException(DrbgConvert::ToName(Drbgs::BCG), std::string("Constructor"), std::string("The provider can not be null!"), ErrorCodes::IllegalOperation)),
-	m_bcgState(new BcgState(DEF_RESEED, true, Parallel)),
+	m_bcgState(new BcgState(DEF_RESEED, false, Parallel)),
 	m_parallelProfile(BLOCK_SIZE, true, RESERVE_CACHE, false)
 {
 }
-- 
2.43.0


From 75f2fc9ba0e7730317dbba5de2a35e8f781d3895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:23 +0000
Subject: [PATCH 069/155] fix: HCG chains a partly erased block, the stream
 depends on how it is requested

---
 CEX/HCG.cpp | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/CEX/HCG.cpp b/CEX/HCG.cpp
index d1cc97c..134dc30 100644
--- a/CEX/HCG.cpp
+++ b/CEX/HCG.cpp
@@ -398,13 +398,6 @@ void HCG::Expand(std::unique_ptr<HMAC> &Generator, std::unique_ptr<HcgState> &St
 			OutOffset += RMDLEN;
 			Length -= RMDLEN;
 		}
-
-		if (State->Cached != 0)
-		{
-			const size_t BUFPOS = State->Buffer.size() - State->Cached;
-			// clear copied bytes from cache
-			MemoryTools::Clear(State->Buffer, 0, BUFPOS);
-		}
 	}
 	else
 	{
-- 
2.43.0


From 1035c25d2a8033685c3dcc957c307f2c770285ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:54 +0000
Subject: [PATCH 070/155] fix: Ed25519 scalar reduction shifts a negative limb
 as unsigned

---
 CEX/EC25519.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CEX/EC25519.cpp b/CEX/EC25519.cpp
index f9c93cf..82e4fee 100644
--- a/CEX/EC25519.cpp
+++ b/CEX/EC25519.cpp
@@ -6067,7 +6067,7 @@ void EC25519::Sc25519Reduce(std::vector<uint8_t> &S)
 	carry = (s8 + (1LL << 20)) >> 21;
 	s9 += carry;
 	s8 -= carry * (1ULL << 21);
-	carry = (s10 + (1ULL << 20)) >> 21;
+	carry = (s10 + (1LL << 20)) >> 21;
 	s11 += carry;
 	s10 -= carry * (1ULL << 21);
 	carry = (s12 + (1LL << 20)) >> 21;
-- 
2.43.0


From 4b480e72d21c02ac9ce41a39ed788200eb65eab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:54 +0000
Subject: [PATCH 071/155] fix: small-order point tests look at the first entry
 of their list only

---
 CEX/EC25519.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/CEX/EC25519.cpp b/CEX/EC25519.cpp
index 82e4fee..c08f71b 100644
--- a/CEX/EC25519.cpp
+++ b/CEX/EC25519.cpp
@@ -4920,20 +4920,20 @@ int32_t EC25519::Ge25519HasSmallOrder(const std::vector<uint8_t> &S)
 
 	for (j = 0; j < 31; ++j)
 	{
-		for (i = 0; i < sizeof(blocklist) / sizeof(blocklist[0]); ++i)
+		for (i = 0; i < blocklist.size(); ++i)
 		{
 			c[i] |= S[j] ^ blocklist[i][j];
 		}
 	}
 
-	for (i = 0; i < sizeof(blocklist) / sizeof(blocklist[0]); ++i)
+	for (i = 0; i < blocklist.size(); ++i)
 	{
 		c[i] |= (S[j] & 0x7f) ^ blocklist[i][j];
 	}
 
 	k = 0;
 
-	for (i = 0; i < sizeof(blocklist) / sizeof(blocklist[0]); ++i)
+	for (i = 0; i < blocklist.size(); ++i)
 	{
 		k |= (c[i] - 1);
 	}
@@ -5433,20 +5433,20 @@ int32_t EC25519::Ed25519SmallOrder(const std::vector<uint8_t> &S)
 
 	for (j = 0; j < 31; ++j)
 	{
-		for (i = 0; i < sizeof(blocklist) / sizeof(blocklist[0]); ++i)
+		for (i = 0; i < blocklist.size(); ++i)
 		{
 			c[i] |= S[j] ^ blocklist[i][j];
 		}
 	}
 
-	for (i = 0; i < sizeof(blocklist) / sizeof(blocklist[0]); ++i)
+	for (i = 0; i < blocklist.size(); ++i)
 	{
 		c[i] |= (S[j] & 0x7f) ^ blocklist[i][j];
 	}
 
 	k = 0;
 
-	for (i = 0; i < sizeof(blocklist) / sizeof(blocklist[0]); ++i)
+	for (i = 0; i < blocklist.size(); ++i)
 	{
 		k |= (c[i] - 1);
 	}
-- 
2.43.0


From 4e20eb9e39666d41672a9fd246f1559cea1a9605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:54 +0000
Subject: [PATCH 072/155] fix: Donna128 shifts exchange the two words

---
 CEX/Donna128.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/CEX/Donna128.h b/CEX/Donna128.h
index 7449a2f..4bdb805 100644
--- a/CEX/Donna128.h
+++ b/CEX/Donna128.h
@@ -78,7 +78,7 @@ public:
 	/// <returns>The shifted value</returns>
 	inline Donna128 operator >> (size_t Shift)
 	{
-		Donna128 z(high, low);
+		Donna128 z(low, high);
 
 		if (Shift > 0)
 		{
@@ -99,7 +99,7 @@ public:
 	/// <returns>The shifted value</returns>
 	inline Donna128 operator << (size_t Shift)
 	{
-		Donna128 z(high, low);
+		Donna128 z(low, high);
 
 		if (Shift > 0)
 		{
@@ -248,7 +248,7 @@ public:
 	/// <returns>The sum value</returns>
 	inline static uint64_t CarryShift(Donna128 &X, size_t Shift)
 	{
-		Donna128 z(X.high, X.low);
+		Donna128 z(X.low, X.high);
 
 		return (z >> Shift).Low();
 	}
-- 
2.43.0


From f9e0b33df8f4c1a18c6591e26b530d4597effa3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:08 +0000
Subject: [PATCH 073/155] fix: field reduction shifts a negative limb as
 unsigned where long has 32 bits

---
 CEX/EC25519.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CEX/EC25519.cpp b/CEX/EC25519.cpp
index c08f71b..d5e8d91 100644
--- a/CEX/EC25519.cpp
+++ b/CEX/EC25519.cpp
@@ -1696,7 +1696,7 @@ void EC25519::Fe25519Reduce(fe25519 &H, const fe25519 &F)
 	h8 = F[8];
 	h9 = F[9];
 
-	q = (19 * h9 + (1UL << 24)) >> 25;
+	q = (19 * h9 + (static_cast<int32_t>(1) << 24)) >> 25;
 	q = (h0 + q) >> 26;
 	q = (h1 + q) >> 25;
 	q = (h2 + q) >> 26;
-- 
2.43.0


From 1a377c4bb6e11810517087e949ba2052e6287ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:21 +0000
Subject: [PATCH 074/155] fix: deserializing a truncated or inconsistent
 symmetric key reads past the stream

---
 CEX/SymmetricKey.cpp       | 11 +++++++++++
 CEX/SymmetricSecureKey.cpp | 11 +++++++++++
 2 files changed, 22 insertions(+)

diff --git a/CEX/SymmetricKey.cpp b/CEX/SymmetricKey.cpp
index d5eea77..afd5876 100644
--- a/CEX/SymmetricKey.cpp
+++ b/CEX/SymmetricKey.cpp
@@ -216,10 +216,21 @@ SymmetricKey* SymmetricKey::DeSerialize(SecureVector<uint8_t> &KeyStream)
 	uint16_t nlen;
 	uint16_t ilen;
 
+	if (KeyStream.size() < 3 * sizeof(uint16_t))
+	{
+		throw CryptoSymmetricException(std::string("SymmetricKey"), std::string("DeSerialize"), std::string("The key stream is too small!"), ErrorCodes::InvalidSize);
+	}
+
 	klen = IntegerTools::LeBytesTo16(KeyStream, 0);
 	nlen = IntegerTools::LeBytesTo16(KeyStream, 2);
 	ilen = IntegerTools::LeBytesTo16(KeyStream, 4);
 
+	// the fields must lie inside the stream
+	if (KeyStream.size() - (3 * sizeof(uint16_t)) < static_cast<size_t>(klen) + nlen + ilen)
+	{
+		throw CryptoSymmetricException(std::string("SymmetricKey"), std::string("DeSerialize"), std::string("The key stream is too small!"), ErrorCodes::InvalidSize);
+	}
+
 	if (klen > 0)
 	{
 		key.resize(klen);
diff --git a/CEX/SymmetricSecureKey.cpp b/CEX/SymmetricSecureKey.cpp
index 199154b..478ad44 100644
--- a/CEX/SymmetricSecureKey.cpp
+++ b/CEX/SymmetricSecureKey.cpp
@@ -414,10 +414,21 @@ SymmetricKey* SymmetricSecureKey::DeSerialize(SecureVector<uint8_t> &KeyStream)
 	uint16_t nlen;
 	uint16_t ilen;
 
+	if (KeyStream.size() < 3 * sizeof(uint16_t))
+	{
+		throw CryptoSymmetricException(CLASS_NAME, std::string("DeSerialize"), std::string("The key stream is too small!"), ErrorCodes::InvalidSize);
+	}
+
 	klen = IntegerTools::LeBytesTo16(KeyStream, 0);
 	nlen = IntegerTools::LeBytesTo16(KeyStream, 2);
 	ilen = IntegerTools::LeBytesTo16(KeyStream, 4);
 
+	// the fields must lie inside the stream
+	if (KeyStream.size() - (3 * sizeof(uint16_t)) < static_cast<size_t>(klen) + nlen + ilen)
+	{
+		throw CryptoSymmetricException(CLASS_NAME, std::string("DeSerialize"), std::string("The key stream is too small!"), ErrorCodes::InvalidSize);
+	}
+
 	if (klen > 0)
 	{
 		key.resize(klen);
-- 
2.43.0


From 1d19213488de4f57bdc3123549c68b6e89c0db30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:21 +0000
Subject: [PATCH 075/155] fix: a symmetric key with a field above 65535 bytes
 is serialized with a wrong length

---
 CEX/SymmetricKey.cpp       | 8 ++++++--
 CEX/SymmetricSecureKey.cpp | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/CEX/SymmetricKey.cpp b/CEX/SymmetricKey.cpp
index afd5876..7472940 100644
--- a/CEX/SymmetricKey.cpp
+++ b/CEX/SymmetricKey.cpp
@@ -256,12 +256,16 @@ SecureVector<uint8_t> SymmetricKey::Serialize(SymmetricKey &KeyParams)
 	uint16_t klen;
 	uint16_t nlen;
 	uint16_t ilen;
-	uint16_t tlen;
+
+	// the field lengths are stored as 16-bit integers
+	if (KeyParams.KeySizes().KeySize() > UINT16_MAX || KeyParams.KeySizes().IVSize() > UINT16_MAX || KeyParams.KeySizes().InfoSize() > UINT16_MAX)
+	{
+		throw CryptoSymmetricException(std::string("SymmetricKey"), std::string("Serialize"), std::string("The key is too large to be serialized!"), ErrorCodes::InvalidSize);
+	}
 
 	klen = static_cast<uint16_t>(KeyParams.Key().size());
 	nlen = static_cast<uint16_t>(KeyParams.IV().size());
 	ilen = static_cast<uint16_t>(KeyParams.Info().size());
-	tlen = 6 + klen + nlen + ilen;
 
 	ArrayTools::AppendVector(IntegerTools::Le16ToBytes<SecureVector<uint8_t>>(klen), tmpr);
 	ArrayTools::AppendVector(IntegerTools::Le16ToBytes<SecureVector<uint8_t>>(nlen), tmpr);
diff --git a/CEX/SymmetricSecureKey.cpp b/CEX/SymmetricSecureKey.cpp
index 478ad44..a72c0ce 100644
--- a/CEX/SymmetricSecureKey.cpp
+++ b/CEX/SymmetricSecureKey.cpp
@@ -454,12 +454,16 @@ SecureVector<uint8_t> SymmetricSecureKey::Serialize(SymmetricSecureKey &KeyParam
 	uint16_t klen;
 	uint16_t nlen;
 	uint16_t ilen;
-	uint16_t tlen;
+
+	// the field lengths are stored as 16-bit integers
+	if (KeyParams.KeySizes().KeySize() > UINT16_MAX || KeyParams.KeySizes().IVSize() > UINT16_MAX || KeyParams.KeySizes().InfoSize() > UINT16_MAX)
+	{
+		throw CryptoSymmetricException(CLASS_NAME, std::string("Serialize"), std::string("The key is too large to be serialized!"), ErrorCodes::InvalidSize);
+	}
 
 	klen = static_cast<uint16_t>(KeyParams.Key().size());
 	nlen = static_cast<uint16_t>(KeyParams.IV().size());
 	ilen = static_cast<uint16_t>(KeyParams.Info().size());
-	tlen = 6 + klen + nlen + ilen;
 
 	ArrayTools::AppendVector(IntegerTools::Le16ToBytes<SecureVector<uint8_t>>(klen), tmpr);
 	ArrayTools::AppendVector(IntegerTools::Le16ToBytes<SecureVector<uint8_t>>(nlen), tmpr);
-- 
2.43.0


From 36ac9e2fcd5281e10f2df23766d31d4dd764cb3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:21 +0000
Subject: [PATCH 076/155] fix: a secure key created without a salt can not be
 cloned

---
 CEX/SymmetricSecureKey.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/CEX/SymmetricSecureKey.cpp b/CEX/SymmetricSecureKey.cpp
index a72c0ce..464604c 100644
--- a/CEX/SymmetricSecureKey.cpp
+++ b/CEX/SymmetricSecureKey.cpp
@@ -395,7 +395,10 @@ const SecureVector<uint8_t> SymmetricSecureKey::SecureIV()
 
 SymmetricSecureKey* SymmetricSecureKey::Clone()
 {
-	return new SymmetricSecureKey(Key(), IV(), Info(), m_secureState->Policy, SecureUnlock(m_secureState->Salt));
+	// a key created without a salt uses the default security policy
+	return (m_secureState->Salt.size() != 0) ?
+		new SymmetricSecureKey(Key(), IV(), Info(), m_secureState->Policy, SecureUnlock(m_secureState->Salt)) :
+		new SymmetricSecureKey(Key(), IV(), Info());
 }
 
 void SymmetricSecureKey::Reset()
-- 
2.43.0


From 0f2c5640cafcf6a8f1729c22fd996e0fc0fc1fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:21 +0000
Subject: [PATCH 077/155] fix: deserializing a truncated asymmetric key reads
 past the stream

---
 CEX/AsymmetricKey.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/CEX/AsymmetricKey.cpp b/CEX/AsymmetricKey.cpp
index 4bf5a0c..4ca9e82 100644
--- a/CEX/AsymmetricKey.cpp
+++ b/CEX/AsymmetricKey.cpp
@@ -133,6 +133,11 @@ void AsymmetricKey::Reset()
 
 AsymmetricKey* AsymmetricKey::DeSerialize(SecureVector<uint8_t> &KeyStream)
 {
+	if (KeyStream.size() < 4)
+	{
+		throw CryptoAsymmetricException(CLASS_NAME, std::string("DeSerialize"), std::string("The key stream is too small!"), Enumeration::ErrorCodes::InvalidSize);
+	}
+
 	AsymmetricKey* tmpk = new AsymmetricKey(SecureVector<uint8_t>(KeyStream.begin() + 3, KeyStream.end()), 
 		static_cast<AsymmetricPrimitives>(KeyStream[2]),
 		static_cast<AsymmetricKeyTypes>(KeyStream[0]),
-- 
2.43.0


From e68218822c95097c8f4ee2c5ac13b3fa3e98fc94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:47 +0000
Subject: [PATCH 078/155] fix: an authenticated asymmetric secure key returns
 its polynomial with the length of the tag added

---
 CEX/AsymmetricSecureKey.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/CEX/AsymmetricSecureKey.cpp b/CEX/AsymmetricSecureKey.cpp
index 32cf35c..3fe3dcd 100644
--- a/CEX/AsymmetricSecureKey.cpp
+++ b/CEX/AsymmetricSecureKey.cpp
@@ -38,6 +38,8 @@ public:
 	AsymmetricKeyTypes KeyClass;
 	AsymmetricParameters Parameters;
 	SecurityPolicy Policy;
+	// the length of the plain-text polynomial
+	size_t Length = 0;
 
 	AsymmetricSecureKeyState()
 		:
@@ -85,6 +87,7 @@ public:
 		Parameters = AsymmetricParameters::None;
 		Policy = SecurityPolicy::None;
 		Primitive = AsymmetricPrimitives::None;
+		Length = 0;
 	}
 };
 
@@ -132,12 +135,12 @@ const AsymmetricParameters AsymmetricSecureKey::Parameters()
 
 const std::vector<uint8_t> AsymmetricSecureKey::Polynomial()
 {
-	SecureVector<uint8_t> tmps(m_secureState->Polynomial.size());
+	SecureVector<uint8_t> tmps(m_secureState->Length);
 
 	// if the state policy has been set to authenticated mode, this will throw on authentication failure
 	try
 	{
-		Extract(m_secureState, tmps, m_secureState->Polynomial.size());
+		Extract(m_secureState, tmps, m_secureState->Length);
 	}
 	catch (CryptoAuthenticationFailure &ex)
 	{
@@ -149,7 +152,7 @@ const std::vector<uint8_t> AsymmetricSecureKey::Polynomial()
 
 const void AsymmetricSecureKey::SecurePolynomial(SecureVector<uint8_t> &Output)
 {
-	if (Output.size() < m_secureState->Polynomial.size())
+	if (Output.size() < m_secureState->Length)
 	{
 		throw CryptoAsymmetricException(CLASS_NAME, std::string("SecurePolynomial"), std::string("The output vector is too small!"), ErrorCodes::InvalidSize);
 	}
@@ -157,7 +160,7 @@ const void AsymmetricSecureKey::SecurePolynomial(SecureVector<uint8_t> &Output)
 	// if the state policy has been set to authenticated mode, this will throw on authentication failure
 	try
 	{
-		Extract(m_secureState, Output, m_secureState->Polynomial.size());
+		Extract(m_secureState, Output, m_secureState->Length);
 	}
 	catch (CryptoAuthenticationFailure &ex)
 	{
@@ -205,6 +208,7 @@ void AsymmetricSecureKey::Encipher(std::unique_ptr<AsymmetricSecureKeyState> &St
 	std::vector<uint8_t> tmpn(ksc.IVSize());
 	std::vector<uint8_t> cpt(State->Polynomial.size());
 
+	State->Length = State->Polynomial.size();
 	// transfer from the secure-vector to a working state
 	tmpt = SecureUnlockClear(State->Polynomial);
 
-- 
2.43.0


From 72e5d532ebab33ebed43eac67cbc4bc485adb0f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:21 +0000
Subject: [PATCH 079/155] fix: digest parameter headers are read and written
 past the end of their array

---
 CEX/BlakeParams.cpp  | 17 ++++++++++++-----
 CEX/KeccakParams.cpp | 18 ++++++++++++++----
 CEX/SHA2Params.cpp   | 17 ++++++++++++-----
 CEX/SkeinParams.cpp  | 19 +++++++++++++------
 4 files changed, 51 insertions(+), 20 deletions(-)

diff --git a/CEX/BlakeParams.cpp b/CEX/BlakeParams.cpp
index 67ab6d7..1281ac2 100644
--- a/CEX/BlakeParams.cpp
+++ b/CEX/BlakeParams.cpp
@@ -1,4 +1,5 @@
 #include "BlakeParams.h"
+#include <algorithm>
 
 NAMESPACE_DIGEST
 
@@ -72,8 +73,14 @@ BlakeParams::BlakeParams(const std::vector<uint8_t> &TreeArray)
 	std::memcpy(&m_nodeDepth, &TreeArray[9], 1);
 	std::memcpy(&m_innerLen, &TreeArray[10], 1);
 	std::memcpy(&m_reserved, &TreeArray[11], 1);
-	m_dstCode.resize(DistributionCodeMax());
-	std::memcpy(&m_dstCode[0], &TreeArray[12], m_dstCode.size());
+
+	// the size of the header depends on the output size it declares
+	if (TreeArray.size() != GetHeaderSize())
+	{
+		throw CryptoDigestException(CLASS_NAME, std::string("Constructor"), std::string("The TreeArray buffer size is invalid!"), ErrorCodes::IllegalOperation);
+	}
+
+	m_dstCode.assign(TreeArray.begin() + HDR_BASE, TreeArray.begin() + HDR_BASE + DistributionCodeMax());
 }
 
 BlakeParams::BlakeParams(uint8_t OutputSize, uint8_t KeyLength, uint8_t FanOut, uint8_t MaxDepth, uint32_t LeafLength, uint8_t NodeOffset, uint8_t NodeDepth, uint8_t InnerLength, std::vector<uint8_t> &DistributionCode)
@@ -190,7 +197,7 @@ int32_t BlakeParams::GetHashCode()
 
 size_t BlakeParams::GetHeaderSize()
 {
-	return m_outputSize;
+	return (m_outputSize == 32) ? 32 : 64;
 }
 
 void BlakeParams::Reset()
@@ -204,7 +211,7 @@ void BlakeParams::Reset()
 	m_nodeDepth = 0;
 	m_nodeOffset = 0;
 	m_reserved = 0;
-	std::memset(&m_dstCode[0], 0, m_dstCode.size());
+	std::fill(m_dstCode.begin(), m_dstCode.end(), static_cast<uint8_t>(0));
 }
 
 std::vector<uint8_t> BlakeParams::ToBytes()
@@ -220,7 +227,7 @@ std::vector<uint8_t> BlakeParams::ToBytes()
 	std::memcpy(&trs[9], &m_nodeDepth, 1);
 	std::memcpy(&trs[10], &m_innerLen, 1);
 	std::memcpy(&trs[11], &m_reserved, 1);
-	std::memcpy(&trs[12], &m_dstCode[0], m_dstCode.size());
+	std::memcpy(trs.data() + HDR_BASE, m_dstCode.data(), std::min(m_dstCode.size(), DistributionCodeMax()));
 
 	return trs;
 }
diff --git a/CEX/KeccakParams.cpp b/CEX/KeccakParams.cpp
index 69d305e..8e16d98 100644
--- a/CEX/KeccakParams.cpp
+++ b/CEX/KeccakParams.cpp
@@ -1,5 +1,6 @@
 #include "KeccakParams.h"
 #include "IntegerTools.h"
+#include <algorithm>
 
 NAMESPACE_DIGEST
 
@@ -55,7 +56,10 @@ KeccakParams::KeccakParams(const std::vector<uint8_t> &TreeArray)
 	m_reserved(0),
 	m_dstCode(0)
 {
-	CEXASSERT(TreeArray.size() >= GetHeaderSize(), "The TreeArray buffer is too int16_t!");
+	if (TreeArray.size() < HDR_SIZE)
+	{
+		throw CryptoDigestException(CLASS_NAME, std::string("Constructor"), std::string("The TreeArray buffer is too small!"), ErrorCodes::IllegalOperation);
+	}
 
 	m_nodeOffset = IntegerTools::LeBytesTo32(TreeArray, 0);
 	m_treeVersion = IntegerTools::LeBytesTo16(TreeArray, 4);
@@ -64,8 +68,14 @@ KeccakParams::KeccakParams(const std::vector<uint8_t> &TreeArray)
 	std::memcpy(&m_treeDepth, &TreeArray[18], 1);
 	std::memcpy(&m_treeFanout, &TreeArray[19], 1);
 	m_reserved = IntegerTools::LeBytesTo32(TreeArray, 20);
-	m_dstCode.resize(DistributionCodeMax());
-	std::memcpy(&m_dstCode[0], &TreeArray[24], m_dstCode.size());
+
+	// the size of the header depends on the output size it declares
+	if (TreeArray.size() < GetHeaderSize())
+	{
+		throw CryptoDigestException(CLASS_NAME, std::string("Constructor"), std::string("The TreeArray buffer is too small!"), ErrorCodes::IllegalOperation);
+	}
+
+	m_dstCode.assign(TreeArray.begin() + HDR_SIZE, TreeArray.begin() + GetHeaderSize());
 }
 
 KeccakParams::KeccakParams(uint32_t NodeOffset, uint64_t OutputSize, uint16_t Version, uint32_t LeafSize, uint8_t Fanout, uint8_t TreeDepth, std::vector<uint8_t> &Info)
@@ -207,7 +217,7 @@ std::vector<uint8_t> KeccakParams::ToBytes()
 	std::memcpy(&config[18], &m_treeDepth, 1);
 	std::memcpy(&config[19], &m_treeFanout, 1);
 	IntegerTools::Le32ToBytes(m_reserved, config, 20);
-	std::memcpy(&config[24], &m_dstCode[0], m_dstCode.size());
+	std::memcpy(config.data() + HDR_SIZE, m_dstCode.data(), std::min(m_dstCode.size(), DistributionCodeMax()));
 
 	return config;
 }
diff --git a/CEX/SHA2Params.cpp b/CEX/SHA2Params.cpp
index 6d0649d..c60dd24 100644
--- a/CEX/SHA2Params.cpp
+++ b/CEX/SHA2Params.cpp
@@ -1,5 +1,6 @@
 #include "SHA2Params.h"
 #include "IntegerTools.h"
+#include <algorithm>
 
 NAMESPACE_DIGEST
 
@@ -56,9 +57,9 @@ SHA2Params::SHA2Params(const std::vector<uint8_t> &TreeArray)
 	m_reserved(0),
 	m_dstCode(0)
 {
-	if (TreeArray.size() < GetHeaderSize())
+	if (TreeArray.size() < HDR_SIZE)
 	{
-		throw CryptoDigestException(CLASS_NAME, std::string("Constructor"), std::string("The TreeArray buffer is too int16_t!"), ErrorCodes::IllegalOperation);
+		throw CryptoDigestException(CLASS_NAME, std::string("Constructor"), std::string("The TreeArray buffer is too small!"), ErrorCodes::IllegalOperation);
 	}
 
 	m_nodeOffset = IntegerTools::LeBytesTo32(TreeArray, 0);
@@ -68,8 +69,14 @@ SHA2Params::SHA2Params(const std::vector<uint8_t> &TreeArray)
 	std::memcpy(&m_treeDepth, &TreeArray[18], 1);
 	std::memcpy(&m_treeFanout, &TreeArray[19], 1);
 	m_reserved = IntegerTools::LeBytesTo32(TreeArray, 20);
-	m_dstCode.resize(DistributionCodeMax());
-	std::memcpy(&m_dstCode[0], &TreeArray[24], m_dstCode.size());
+
+	// the size of the header depends on the output size it declares
+	if (TreeArray.size() < GetHeaderSize())
+	{
+		throw CryptoDigestException(CLASS_NAME, std::string("Constructor"), std::string("The TreeArray buffer is too small!"), ErrorCodes::IllegalOperation);
+	}
+
+	m_dstCode.assign(TreeArray.begin() + HDR_SIZE, TreeArray.begin() + GetHeaderSize());
 }
 
 SHA2Params::SHA2Params(uint32_t NodeOffset, uint64_t OutputSize, uint16_t Version, uint32_t LeafSize, uint8_t Fanout, uint8_t TreeDepth, std::vector<uint8_t> &Info)
@@ -216,7 +223,7 @@ std::vector<uint8_t> SHA2Params::ToBytes()
 	std::memcpy(&config[18], &m_treeDepth, 1);
 	std::memcpy(&config[19], &m_treeFanout, 1);
 	IntegerTools::Le32ToBytes(m_reserved, config, 20);
-	std::memcpy(&config[24], &m_dstCode[0], m_dstCode.size());
+	std::memcpy(config.data() + HDR_SIZE, m_dstCode.data(), std::min(m_dstCode.size(), DistributionCodeMax()));
 
 	return config;
 }
diff --git a/CEX/SkeinParams.cpp b/CEX/SkeinParams.cpp
index 5b6aeb9..ae979b4 100644
--- a/CEX/SkeinParams.cpp
+++ b/CEX/SkeinParams.cpp
@@ -1,5 +1,6 @@
 #include "SkeinParams.h"
 #include "IntegerTools.h"
+#include <algorithm>
 
 NAMESPACE_DIGEST
 
@@ -65,7 +66,7 @@ SkeinParams::SkeinParams(const std::vector<uint8_t> &TreeArray)
 	m_reserved3(0),
 	m_dstCode(0)
 {
-	if (TreeArray.size() < GetHeaderSize())
+	if (TreeArray.size() < HDR_SIZE)
 	{
 		throw CryptoDigestException(CLASS_NAME, std::string("Constructor"), std::string("The TreeArray buffer size is invalid!"), ErrorCodes::IllegalOperation);
 	}
@@ -79,8 +80,14 @@ SkeinParams::SkeinParams(const std::vector<uint8_t> &TreeArray)
 	std::memcpy(&m_treeFanout, &TreeArray[18], 1);
 	std::memcpy(&m_reserved2, &TreeArray[19], 1);
 	m_reserved3 = IntegerTools::LeBytesTo32(TreeArray, 20);
-	m_dstCode.resize(DistributionCodeMax());
-	std::memcpy(&m_dstCode[0], &TreeArray[24], m_dstCode.size());
+
+	// the size of the header depends on the output size it declares
+	if (TreeArray.size() < GetHeaderSize())
+	{
+		throw CryptoDigestException(CLASS_NAME, std::string("Constructor"), std::string("The TreeArray buffer is too small!"), ErrorCodes::IllegalOperation);
+	}
+
+	m_dstCode.assign(TreeArray.begin() + HDR_SIZE, TreeArray.begin() + GetHeaderSize());
 }
 
 SkeinParams::SkeinParams(const std::vector<uint8_t> &Schema, uint64_t OutputSize, uint16_t Version, uint32_t LeafSize, uint8_t Fanout, uint8_t TreeDepth, std::vector<uint8_t> &DistributionCode)
@@ -143,7 +150,7 @@ std::vector<uint8_t> &SkeinParams::DistributionCode()
 
 const size_t SkeinParams::DistributionCodeMax()
 {
-	return (m_outputSize - HDR_SIZE);
+	return (m_outputSize > HDR_SIZE) ? static_cast<size_t>(m_outputSize - HDR_SIZE) : 0;
 }
 
 std::vector<uint8_t> &SkeinParams::Schema() 
@@ -246,7 +253,7 @@ std::vector<uint8_t> SkeinParams::ToBytes()
 {
 	std::vector<uint8_t> trs(GetHeaderSize(), 0);
 
-	std::memcpy(&trs[0], &m_treeSchema[0], 4);
+	std::memcpy(trs.data(), m_treeSchema.data(), std::min<size_t>(m_treeSchema.size(), 4));
 	IntegerTools::Le16ToBytes(m_treeVersion, trs, 4);
 	IntegerTools::Le16ToBytes(m_reserved1, trs, 6);
 	IntegerTools::Le64ToBytes(m_outputSize, trs, 8);
@@ -255,7 +262,7 @@ std::vector<uint8_t> SkeinParams::ToBytes()
 	std::memcpy(&trs[18], &m_treeFanout, 1);
 	std::memcpy(&trs[19], &m_reserved2, 1);
 	IntegerTools::Le32ToBytes(m_reserved3, trs, 20);
-	std::memcpy(&trs[24], &m_dstCode[0], m_dstCode.size());
+	std::memcpy(trs.data() + HDR_SIZE, m_dstCode.data(), std::min(m_dstCode.size(), DistributionCodeMax()));
 
 	return trs;
 }
-- 
2.43.0


From ee0681506f1694a122ea03c552dd2ad2af8fd796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:22 +0000
Subject: [PATCH 080/155] fix: different digest parameter headers compare equal

---
 CEX/BlakeParams.cpp  | 2 +-
 CEX/KeccakParams.cpp | 9 +--------
 CEX/SHA2Params.cpp   | 9 +--------
 CEX/SkeinParams.cpp  | 2 +-
 4 files changed, 4 insertions(+), 18 deletions(-)

diff --git a/CEX/BlakeParams.cpp b/CEX/BlakeParams.cpp
index 1281ac2..96c1fcd 100644
--- a/CEX/BlakeParams.cpp
+++ b/CEX/BlakeParams.cpp
@@ -171,7 +171,7 @@ BlakeParams* BlakeParams::DeepCopy()
 
 bool BlakeParams::Equals(BlakeParams &Input)
 {
-	return (GetHashCode() == Input.GetHashCode());
+	return (ToBytes() == Input.ToBytes());
 }
 
 int32_t BlakeParams::GetHashCode()
diff --git a/CEX/KeccakParams.cpp b/CEX/KeccakParams.cpp
index 8e16d98..7cb41f9 100644
--- a/CEX/KeccakParams.cpp
+++ b/CEX/KeccakParams.cpp
@@ -161,14 +161,7 @@ KeccakParams* KeccakParams::DeepCopy()
 
 bool KeccakParams::Equals(KeccakParams &Input)
 {
-	bool res(true);
-
-	if (this->GetHashCode() != Input.GetHashCode())
-	{
-		res = false;
-	}
-
-	return res;
+	return (ToBytes() == Input.ToBytes());
 }
 
 int32_t KeccakParams::GetHashCode()
diff --git a/CEX/SHA2Params.cpp b/CEX/SHA2Params.cpp
index c60dd24..29f4186 100644
--- a/CEX/SHA2Params.cpp
+++ b/CEX/SHA2Params.cpp
@@ -167,14 +167,7 @@ SHA2Params* SHA2Params::DeepCopy()
 
 bool SHA2Params::Equals(SHA2Params &Input)
 {
-	bool res(true);
-
-	if (this->GetHashCode() != Input.GetHashCode())
-	{
-		res = false;
-	}
-
-	return res;
+	return (ToBytes() == Input.ToBytes());
 }
 
 int32_t SHA2Params::GetHashCode()
diff --git a/CEX/SkeinParams.cpp b/CEX/SkeinParams.cpp
index ae979b4..5fc2c4c 100644
--- a/CEX/SkeinParams.cpp
+++ b/CEX/SkeinParams.cpp
@@ -204,7 +204,7 @@ SkeinParams* SkeinParams::DeepCopy()
 
 bool SkeinParams::Equals(SkeinParams &Input)
 {
-	return (this->GetHashCode() == Input.GetHashCode());
+	return (ToBytes() == Input.ToBytes());
 }
 
 int32_t SkeinParams::GetHashCode()
-- 
2.43.0


From e0bae761aae48c4782eae4d581edccb07cc275a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:12 +0000
Subject: [PATCH 081/155] fix: RCS and RWS restore a partial round key beyond
 the end of the key array

---
 CEX/RCS.cpp | 2 +-
 CEX/RWS.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/CEX/RCS.cpp b/CEX/RCS.cpp
index c28d025..bfad689 100644
--- a/CEX/RCS.cpp
+++ b/CEX/RCS.cpp
@@ -130,7 +130,7 @@ public:
 		RoundKeys.resize(vlen / sizeof(uint32_t));
 #endif
 		soff += sizeof(uint16_t);
-		MemoryTools::Copy(SecureState, soff, RoundKeys, 0, vlen);
+		MemoryTools::Copy(SecureState, soff, RoundKeys, 0, RoundKeys.size() * sizeof(RoundKeys[0]));
 		soff += vlen;
 
 		require(sizeof(uint16_t));
diff --git a/CEX/RWS.cpp b/CEX/RWS.cpp
index 54bef11..b9c6a39 100644
--- a/CEX/RWS.cpp
+++ b/CEX/RWS.cpp
@@ -97,7 +97,7 @@ public:
 		require(sizeof(uint16_t) + static_cast<size_t>(vlen));
 		RoundKeys.resize(vlen / sizeof(uint32_t));
 		soff += sizeof(uint16_t);
-		MemoryTools::Copy(SecureState, soff, RoundKeys, 0, vlen);
+		MemoryTools::Copy(SecureState, soff, RoundKeys, 0, RoundKeys.size() * sizeof(RoundKeys[0]));
 		soff += vlen;
 
 		require(sizeof(uint16_t));
-- 
2.43.0


From 5d5d1c8a2aa4de54cc978498441f43442b7c9b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:22 +0000
Subject: [PATCH 082/155] fix: SecureRandom::Generate writes past the end of an
 array too small for the request

---
 CEX/SecureRandom.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/CEX/SecureRandom.cpp b/CEX/SecureRandom.cpp
index 6c0e03c..4220e39 100644
--- a/CEX/SecureRandom.cpp
+++ b/CEX/SecureRandom.cpp
@@ -126,6 +126,11 @@ std::vector<uint8_t> SecureRandom::Generate(size_t Length)
 
 void SecureRandom::Generate(std::vector<uint8_t> &Output, size_t Offset, size_t Length)
 {
+	if (Offset > Output.size() || Output.size() - Offset < Length)
+	{
+		throw CryptoRandomException(Name(), std::string("Generate"), std::string("The output vector is too small!"), ErrorCodes::InvalidSize);
+	}
+
 	const size_t BUFLEN = m_scrState->Buffer.size() - m_scrState->Position;
 
 	if (Length != 0)
@@ -159,6 +164,11 @@ void SecureRandom::Generate(std::vector<uint8_t> &Output, size_t Offset, size_t
 
 void SecureRandom::Generate(SecureVector<uint8_t> &Output, size_t Offset, size_t Length)
 {
+	if (Offset > Output.size() || Output.size() - Offset < Length)
+	{
+		throw CryptoRandomException(Name(), std::string("Generate"), std::string("The output vector is too small!"), ErrorCodes::InvalidSize);
+	}
+
 	const size_t BUFLEN = m_scrState->Buffer.size() - m_scrState->Position;
 
 	if (Length != 0)
-- 
2.43.0


From cdfeb5928a7bc33b83a82a99868ca80a405647c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:22 +0000
Subject: [PATCH 083/155] fix: the random generators return the erased bytes of
 their buffer after a refill has failed

---
 CEX/BCR.cpp          | 3 +++
 CEX/CSR.cpp          | 3 +++
 CEX/HCR.cpp          | 3 +++
 CEX/SecureRandom.cpp | 6 ++++++
 4 files changed, 15 insertions(+)

diff --git a/CEX/BCR.cpp b/CEX/BCR.cpp
index feb47fd..74010e7 100644
--- a/CEX/BCR.cpp
+++ b/CEX/BCR.cpp
@@ -150,6 +150,9 @@ void BCR::Generate(SecureVector<uint8_t> &Output, size_t Offset, size_t Length,
 				SecureMove(m_bcrState->Buffer, m_bcrState->Position, Output, Offset, BUFLEN);
 			}
 
+			// the erased buffer must not be used if the generator fails
+			m_bcrState->Position = m_bcrState->Buffer.size();
+
 			while (Length >= m_bcrState->Buffer.size())
 			{
 				Generator->Generate(m_bcrState->Buffer, 0, m_bcrState->Buffer.size());
diff --git a/CEX/CSR.cpp b/CEX/CSR.cpp
index bf8b880..07e1d78 100644
--- a/CEX/CSR.cpp
+++ b/CEX/CSR.cpp
@@ -150,6 +150,9 @@ void CSR::Generate(SecureVector<uint8_t> &Output, size_t Offset, size_t Length,
 				SecureMove(m_csrState->Buffer, m_csrState->Position, Output, Offset, BUFLEN);
 			}
 
+			// the erased buffer must not be used if the generator fails
+			m_csrState->Position = m_csrState->Buffer.size();
+
 			while (Length >= m_csrState->Buffer.size())
 			{
 				Generator->Generate(m_csrState->Buffer, 0, m_csrState->Buffer.size());
diff --git a/CEX/HCR.cpp b/CEX/HCR.cpp
index 531dd50..13d948b 100644
--- a/CEX/HCR.cpp
+++ b/CEX/HCR.cpp
@@ -152,6 +152,9 @@ void HCR::Generate(SecureVector<uint8_t> &Output, size_t Offset, size_t Length,
 				SecureMove(m_hcrState->Buffer, m_hcrState->Position, Output, Offset, BUFLEN);
 			}
 
+			// the erased buffer must not be used if the generator fails
+			m_hcrState->Position = m_hcrState->Buffer.size();
+
 			while (Length >= m_hcrState->Buffer.size())
 			{
 				Generator->Generate(m_hcrState->Buffer, 0, m_hcrState->Buffer.size());
diff --git a/CEX/SecureRandom.cpp b/CEX/SecureRandom.cpp
index 4220e39..6270098 100644
--- a/CEX/SecureRandom.cpp
+++ b/CEX/SecureRandom.cpp
@@ -142,6 +142,9 @@ void SecureRandom::Generate(std::vector<uint8_t> &Output, size_t Offset, size_t
 				SecureMove(m_scrState->Buffer, m_scrState->Position, Output, Offset, BUFLEN);
 			}
 
+			// the erased buffer must not be used if the generator fails
+			m_scrState->Position = m_scrState->Buffer.size();
+
 			while (Length >= m_scrState->Buffer.size())
 			{
 				m_rngEngine->Generate(m_scrState->Buffer, 0, m_scrState->Buffer.size());
@@ -180,6 +183,9 @@ void SecureRandom::Generate(SecureVector<uint8_t> &Output, size_t Offset, size_t
 				SecureCopy(m_scrState->Buffer, m_scrState->Position, Output, Offset, BUFLEN);
 			}
 
+			// the erased buffer must not be used if the generator fails
+			m_scrState->Position = m_scrState->Buffer.size();
+
 			while (Length >= m_scrState->Buffer.size())
 			{
 				m_rngEngine->Generate(m_scrState->Buffer, 0, m_scrState->Buffer.size());
-- 
2.43.0


From 335b17e31aaad8c8c71447fa33ae33c41beade7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:22 +0000
Subject: [PATCH 084/155] fix: SecureRandom::Fill accepts an offset that wraps,
 and two declared overloads do not exist

---
 CEX/SecureRandom.cpp | 32 ++++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/CEX/SecureRandom.cpp b/CEX/SecureRandom.cpp
index 6270098..d7f7f23 100644
--- a/CEX/SecureRandom.cpp
+++ b/CEX/SecureRandom.cpp
@@ -70,7 +70,7 @@ const std::string SecureRandom::Name()
 
 void SecureRandom::Fill(std::vector<uint16_t> &Output, size_t Offset, size_t Elements)
 {
-	if (Offset + Elements > Output.size())
+	if (Offset > Output.size() || Output.size() - Offset < Elements)
 	{
 		throw CryptoRandomException(Name(), std::string("Fill"), std::string("The output vector is too small!"), ErrorCodes::InvalidParam);
 	}
@@ -82,7 +82,7 @@ void SecureRandom::Fill(std::vector<uint16_t> &Output, size_t Offset, size_t Ele
 
 void SecureRandom::Fill(SecureVector<uint16_t> &Output, size_t Offset, size_t Elements)
 {
-	if (Offset + Elements > Output.size())
+	if (Offset > Output.size() || Output.size() - Offset < Elements)
 	{
 		throw CryptoRandomException(Name(), std::string("Fill"), std::string("The output vector is too small!"), ErrorCodes::InvalidParam);
 	}
@@ -94,7 +94,7 @@ void SecureRandom::Fill(SecureVector<uint16_t> &Output, size_t Offset, size_t El
 
 void SecureRandom::Fill(std::vector<uint32_t> &Output, size_t Offset, size_t Elements)
 {
-	if (Offset + Elements > Output.size())
+	if (Offset > Output.size() || Output.size() - Offset < Elements)
 	{
 		throw CryptoRandomException(Name(), std::string("Fill"), std::string("The output vector is too small!"), ErrorCodes::InvalidParam);
 	}
@@ -104,9 +104,21 @@ void SecureRandom::Fill(std::vector<uint32_t> &Output, size_t Offset, size_t Ele
 	MemoryTools::Copy(buf, 0, Output, Offset, buf.size());
 }
 
+void SecureRandom::Fill(SecureVector<uint32_t> &Output, size_t Offset, size_t Elements)
+{
+	if (Offset > Output.size() || Output.size() - Offset < Elements)
+	{
+		throw CryptoRandomException(Name(), std::string("Fill"), std::string("The output vector is too small!"), ErrorCodes::InvalidParam);
+	}
+
+	SecureVector<uint8_t> buf(Elements * sizeof(uint32_t));
+	Generate(buf);
+	MemoryTools::Copy(buf, 0, Output, Offset, buf.size());
+}
+
 void SecureRandom::Fill(std::vector<uint64_t> &Output, size_t Offset, size_t Elements)
 {
-	if (Offset + Elements > Output.size())
+	if (Offset > Output.size() || Output.size() - Offset < Elements)
 	{
 		throw CryptoRandomException(Name(), std::string("Fill"), std::string("The output vector is too small!"), ErrorCodes::InvalidParam);
 	}
@@ -116,6 +128,18 @@ void SecureRandom::Fill(std::vector<uint64_t> &Output, size_t Offset, size_t Ele
 	MemoryTools::Copy(buf, 0, Output, Offset, buf.size());
 }
 
+void SecureRandom::Fill(SecureVector<uint64_t> &Output, size_t Offset, size_t Elements)
+{
+	if (Offset > Output.size() || Output.size() - Offset < Elements)
+	{
+		throw CryptoRandomException(Name(), std::string("Fill"), std::string("The output vector is too small!"), ErrorCodes::InvalidParam);
+	}
+
+	SecureVector<uint8_t> buf(Elements * sizeof(uint64_t));
+	Generate(buf);
+	MemoryTools::Copy(buf, 0, Output, Offset, buf.size());
+}
+
 std::vector<uint8_t> SecureRandom::Generate(size_t Length)
 {
 	std::vector<uint8_t> rnd(Length);
-- 
2.43.0


From 0bda87149758ab4a1d5bfe6db3a976b69e542f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:22 +0000
Subject: [PATCH 085/155] fix: bounded random integers divide by zero or miss
 values on wide ranges, and signed ones favour zero

---
 CEX/SecureRandom.cpp | 92 ++++++++++++++++++++++++++++++--------------
 1 file changed, 64 insertions(+), 28 deletions(-)

diff --git a/CEX/SecureRandom.cpp b/CEX/SecureRandom.cpp
index d7f7f23..b7db81b 100644
--- a/CEX/SecureRandom.cpp
+++ b/CEX/SecureRandom.cpp
@@ -288,7 +288,7 @@ int16_t SecureRandom::NextInt16(int16_t Maximum)
 		x = NextInt16();
 		ret = x % Maximum;
 	} 
-	while (x >= SMPMAX || ret < 0);
+	while (x >= SMPMAX || x < 0);
 
 	return ret;
 }
@@ -304,19 +304,24 @@ int16_t SecureRandom::NextInt16(int16_t Maximum, int16_t Minimum)
 		throw CryptoRandomException(Name(), std::string("NextInt16"), std::string("Maximum can not be less than Minimum!"), ErrorCodes::IllegalOperation);
 	}
 
-	const int16_t SMPTHR = (Maximum - Minimum + 1);
-	const int16_t SMPMAX = static_cast<int16_t>(std::numeric_limits<int16_t>::max() - (std::numeric_limits<int16_t>::max() % SMPTHR));
-	int16_t x;
-	int16_t ret;
+	// the number of values in the range, which is zero if it is every value of the type
+	const uint16_t SMPTHR = static_cast<uint16_t>(static_cast<uint16_t>(Maximum) - static_cast<uint16_t>(Minimum) + 1);
+	uint16_t x;
+
+	if (SMPTHR == 0)
+	{
+		return NextInt16();
+	}
+
+	const uint16_t SMPMAX = static_cast<uint16_t>(std::numeric_limits<uint16_t>::max() - (std::numeric_limits<uint16_t>::max() % SMPTHR));
 
 	do
 	{
-		x = NextInt16();
-		ret = x % SMPTHR;
+		x = NextUInt16();
 	}
-	while (x >= SMPMAX || ret < 0);
+	while (x >= SMPMAX);
 
-	return Minimum + ret;
+	return static_cast<int16_t>(static_cast<uint16_t>(Minimum) + (x % SMPTHR));
 }
 
 uint16_t SecureRandom::NextUInt16()
@@ -360,6 +365,13 @@ uint16_t SecureRandom::NextUInt16(uint16_t Maximum, uint16_t Minimum)
 	}
 
 	const uint16_t SMPTHR = (Maximum - Minimum + 1);
+
+	// the range is every value of the type
+	if (SMPTHR == 0)
+	{
+		return NextUInt16();
+	}
+
 	const uint16_t SMPMAX = static_cast<uint16_t>(std::numeric_limits<uint16_t>::max() - (std::numeric_limits<uint16_t>::max() % SMPTHR));
 	uint16_t x;
 	uint16_t ret;
@@ -398,7 +410,7 @@ int32_t SecureRandom::NextInt32(int32_t Maximum)
 		x = NextInt32();
 		ret = x % Maximum;
 	} 
-	while (x >= SMPMAX || ret < 0);
+	while (x >= SMPMAX || x < 0);
 
 	return ret;
 }
@@ -414,19 +426,24 @@ int32_t SecureRandom::NextInt32(int32_t Maximum, int32_t Minimum)
 		throw CryptoRandomException(Name(), std::string("NextInt32"), std::string("Maximum can not be less than Minimum!"), ErrorCodes::IllegalOperation);
 	}
 
-	const int32_t SMPTHR = (Maximum - Minimum + 1);
-	const int32_t SMPMAX = static_cast<int32_t>(std::numeric_limits<int32_t>::max() - (std::numeric_limits<int32_t>::max() % SMPTHR));
-	int32_t x;
-	int32_t ret;
+	// the number of values in the range, which is zero if it is every value of the type
+	const uint32_t SMPTHR = static_cast<uint32_t>(static_cast<uint32_t>(Maximum) - static_cast<uint32_t>(Minimum) + 1);
+	uint32_t x;
+
+	if (SMPTHR == 0)
+	{
+		return NextInt32();
+	}
+
+	const uint32_t SMPMAX = static_cast<uint32_t>(std::numeric_limits<uint32_t>::max() - (std::numeric_limits<uint32_t>::max() % SMPTHR));
 
 	do
 	{
-		x = NextInt32();
-		ret = x % SMPTHR;
-	} 
-	while (x >= SMPMAX || ret < 0);
+		x = NextUInt32();
+	}
+	while (x >= SMPMAX);
 
-	return Minimum + ret;
+	return static_cast<int32_t>(static_cast<uint32_t>(Minimum) + (x % SMPTHR));
 }
 
 uint32_t SecureRandom::NextUInt32()
@@ -470,6 +487,13 @@ uint32_t SecureRandom::NextUInt32(uint32_t Maximum, uint32_t Minimum)
 	}
 
 	const uint32_t SMPTHR = (Maximum - Minimum + 1);
+
+	// the range is every value of the type
+	if (SMPTHR == 0)
+	{
+		return NextUInt32();
+	}
+
 	const uint32_t SMPMAX = static_cast<uint32_t>(std::numeric_limits<uint32_t>::max() - (std::numeric_limits<uint32_t>::max() % SMPTHR));
 	uint32_t x;
 	uint32_t ret;
@@ -508,7 +532,7 @@ int64_t SecureRandom::NextInt64(int64_t Maximum)
 		x = NextInt64();
 		ret = x % Maximum;
 	} 
-	while (x >= SMPMAX || ret < 0);
+	while (x >= SMPMAX || x < 0);
 
 	return ret;
 }
@@ -524,19 +548,24 @@ int64_t SecureRandom::NextInt64(int64_t Maximum, int64_t Minimum)
 		throw CryptoRandomException(Name(), std::string("NextInt64"), std::string("Maximum can not be less than Minimum!"), ErrorCodes::IllegalOperation);
 	}
 
-	const int64_t SMPTHR = (Maximum - Minimum + 1);
-	const int64_t SMPMAX = static_cast<int64_t>(std::numeric_limits<int64_t>::max() - (std::numeric_limits<int64_t>::max() % SMPTHR));
-	int64_t x;
-	int64_t ret;
+	// the number of values in the range, which is zero if it is every value of the type
+	const uint64_t SMPTHR = static_cast<uint64_t>(static_cast<uint64_t>(Maximum) - static_cast<uint64_t>(Minimum) + 1);
+	uint64_t x;
+
+	if (SMPTHR == 0)
+	{
+		return NextInt64();
+	}
+
+	const uint64_t SMPMAX = static_cast<uint64_t>(std::numeric_limits<uint64_t>::max() - (std::numeric_limits<uint64_t>::max() % SMPTHR));
 
 	do
 	{
-		x = NextInt64();
-		ret = x % SMPTHR;
+		x = NextUInt64();
 	}
-	while (x >= SMPMAX || ret < 0);
+	while (x >= SMPMAX);
 
-	return Minimum + ret;
+	return static_cast<int64_t>(static_cast<uint64_t>(Minimum) + (x % SMPTHR));
 }
 
 uint64_t SecureRandom::NextUInt64()
@@ -580,6 +609,13 @@ uint64_t SecureRandom::NextUInt64(uint64_t Maximum, uint64_t Minimum)
 	}
 
 	const uint64_t SMPTHR = (Maximum - Minimum + 1);
+
+	// the range is every value of the type
+	if (SMPTHR == 0)
+	{
+		return NextUInt64();
+	}
+
 	const uint64_t SMPMAX = (std::numeric_limits<uint64_t>::max() - (std::numeric_limits<uint64_t>::max() % SMPTHR));
 	uint64_t x;
 	uint64_t ret;
-- 
2.43.0


From 3586e13edc3b4b56d2d1191b18170ec4561367b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:38 +0000
Subject: [PATCH 086/155] fix: SymmetricKeyGenerator drops the info field of a
 key that has no IV

---
 CEX/SymmetricKeyGenerator.cpp | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/CEX/SymmetricKeyGenerator.cpp b/CEX/SymmetricKeyGenerator.cpp
index 38c0f53..fad0ba9 100644
--- a/CEX/SymmetricKeyGenerator.cpp
+++ b/CEX/SymmetricKeyGenerator.cpp
@@ -69,6 +69,17 @@ SymmetricKey* SymmetricKeyGenerator::GetSymmetricKey(SymmetricKeySize KeySize)
 			pkey = new SymmetricKey(tmpk, tmpn);
 		}
 	}
+	else if (KeySize.InfoSize() != 0)
+	{
+		SecureVector<uint8_t> tmpk(KeySize.KeySize());
+		SecureVector<uint8_t> tmpn(0);
+		SecureVector<uint8_t> tmpi(KeySize.InfoSize());
+
+		Generate(m_providerType, m_securityPolicy, tmpk, 0, tmpk.size());
+		Generate(m_providerType, m_securityPolicy, tmpi, 0, tmpi.size());
+
+		pkey = new SymmetricKey(tmpk, tmpn, tmpi);
+	}
 	else
 	{
 		SecureVector<uint8_t> tmpk(KeySize.KeySize());
@@ -115,6 +126,17 @@ SymmetricSecureKey* SymmetricKeyGenerator::GetSecureKey(SymmetricKeySize KeySize
 			pkey = new SymmetricSecureKey(tmpk, tmpn);
 		}
 	}
+	else if (KeySize.InfoSize() != 0)
+	{
+		SecureVector<uint8_t> tmpk(KeySize.KeySize());
+		SecureVector<uint8_t> tmpn(0);
+		SecureVector<uint8_t> tmpi(KeySize.InfoSize());
+
+		Generate(m_providerType, m_securityPolicy, tmpk, 0, tmpk.size());
+		Generate(m_providerType, m_securityPolicy, tmpi, 0, tmpi.size());
+
+		pkey = new SymmetricSecureKey(tmpk, tmpn, tmpi);
+	}
 	else
 	{
 		SecureVector<uint8_t> tmpk(KeySize.KeySize());
-- 
2.43.0


From cf00e9fc0d055ce2606b8050b57294b92aa2edb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:38 +0000
Subject: [PATCH 087/155] fix: SymmetricKeyGenerator accepts an output offset
 that wraps

---
 CEX/SymmetricKeyGenerator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CEX/SymmetricKeyGenerator.cpp b/CEX/SymmetricKeyGenerator.cpp
index fad0ba9..8954bf5 100644
--- a/CEX/SymmetricKeyGenerator.cpp
+++ b/CEX/SymmetricKeyGenerator.cpp
@@ -155,7 +155,7 @@ void SymmetricKeyGenerator::Generate(SecureVector<uint8_t> &Output, size_t Offse
 	{
 		throw CryptoGeneratorException(Name(), std::string("Generate"), std::string("The requested allocation can not be zero size!"), ErrorCodes::InvalidSize);
 	}
-	if (Output.size() < Offset + Length)
+	if (Offset > Output.size() || Output.size() - Offset < Length)
 	{
 		throw CryptoGeneratorException(Name(), std::string("Generate"), std::string("The output vector is too small!"), ErrorCodes::InvalidSize);
 	}
-- 
2.43.0


From 129e507fa12a855d4ae111cd2e111cc9e52e6ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:38 +0000
Subject: [PATCH 088/155] fix: SymmetricKeyGenerator leaks its provider

---
 CEX/SymmetricKeyGenerator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CEX/SymmetricKeyGenerator.cpp b/CEX/SymmetricKeyGenerator.cpp
index 8954bf5..a649fa2 100644
--- a/CEX/SymmetricKeyGenerator.cpp
+++ b/CEX/SymmetricKeyGenerator.cpp
@@ -210,7 +210,7 @@ void SymmetricKeyGenerator::Generate(Providers Provider, SecurityPolicy Policy,
 	}
 
 	// instantiate the provider and create the seed
-	Provider::IProvider* pvd = Helper::ProviderFromName::GetInstance(Provider);
+	std::unique_ptr<Provider::IProvider> pvd(Helper::ProviderFromName::GetInstance(Provider));
 	SecureVector<uint8_t> tmpk(klen);
 	pvd->Generate(tmpk);
 
-- 
2.43.0


From ef425531587316ecea73bd722771634a7b702f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:23 +0000
Subject: [PATCH 089/155] fix: the entropy providers accept an output offset
 beyond the end of the array

---
 CEX/ACP.cpp | 4 ++--
 CEX/CJP.cpp | 8 ++++----
 CEX/CSP.cpp | 8 ++++----
 CEX/ECP.cpp | 6 +++++-
 CEX/RDP.cpp | 8 ++++----
 5 files changed, 19 insertions(+), 15 deletions(-)

diff --git a/CEX/ACP.cpp b/CEX/ACP.cpp
index f7a6a96..884da0f 100644
--- a/CEX/ACP.cpp
+++ b/CEX/ACP.cpp
@@ -72,7 +72,7 @@ void ACP::Generate(std::vector<uint8_t> &Output, size_t Offset, size_t Length)
 	{
 		throw CryptoRandomException(Name(), std::string("Generate"), std::string("The random provider is not available!"), ErrorCodes::NotFound);
 	}
-	if ((Output.size() - Offset) < Length)
+	if (Offset > Output.size() || Output.size() - Offset < Length)
 	{
 		throw CryptoRandomException(Name(), std::string("Generate"), std::string("The output buffer is too small!"), ErrorCodes::InvalidSize);
 	}
@@ -107,7 +107,7 @@ void ACP::Generate(SecureVector<uint8_t> &Output, size_t Offset, size_t Length)
 	{
 		throw CryptoRandomException(Name(), std::string("Generate"), std::string("The random provider is not available!"), ErrorCodes::NotFound);
 	}
-	if ((Output.size() - Offset) < Length)
+	if (Offset > Output.size() || Output.size() - Offset < Length)
 	{
 		throw CryptoRandomException(Name(), std::string("Generate"), std::string("The output buffer is too small!"), ErrorCodes::InvalidSize);
 	}
diff --git a/CEX/CJP.cpp b/CEX/CJP.cpp
index 79235a3..e9ec95e 100644
--- a/CEX/CJP.cpp
+++ b/CEX/CJP.cpp
@@ -132,7 +132,7 @@ void CJP::Generate(std::vector<uint8_t> &Output, size_t Offset, size_t Length)
 	{
 		throw CryptoRandomException(Name(), std::string("Generate"), std::string("The random provider is not available!"), ErrorCodes::NotFound);
 	}
-	if ((Output.size() - Offset) < Length)
+	if (Offset > Output.size() || Output.size() - Offset < Length)
 	{
 		throw CryptoRandomException(Name(), std::string("Generate"), std::string("The output buffer is too small!"), ErrorCodes::InvalidSize);
 	}
@@ -141,7 +141,7 @@ void CJP::Generate(std::vector<uint8_t> &Output, size_t Offset, size_t Length)
 		throw CryptoRandomException(Name(), std::string("Generate"), std::string("The random provider has failed the self test!"), ErrorCodes::InvalidState);
 	}
 
-	Generate(m_pvdState, &Output[Offset], Length);
+	Generate(m_pvdState, Output.data() + Offset, Length);
 }
 
 void CJP::Generate(SecureVector<uint8_t> &Output)
@@ -164,7 +164,7 @@ void CJP::Generate(SecureVector<uint8_t> &Output, size_t Offset, size_t Length)
 	{
 		throw CryptoRandomException(Name(), std::string("Generate"), std::string("The random provider is not available!"), ErrorCodes::NotFound);
 	}
-	if ((Output.size() - Offset) < Length)
+	if (Offset > Output.size() || Output.size() - Offset < Length)
 	{
 		throw CryptoRandomException(Name(), std::string("Generate"), std::string("The output buffer is too small!"), ErrorCodes::InvalidSize);
 	}
@@ -173,7 +173,7 @@ void CJP::Generate(SecureVector<uint8_t> &Output, size_t Offset, size_t Length)
 		throw CryptoRandomException(Name(), std::string("Generate"), std::string("The random provider has failed the self test!"), ErrorCodes::InvalidState);
 	}
 
-	Generate(m_pvdState, &Output[Offset], Length);
+	Generate(m_pvdState, Output.data() + Offset, Length);
 }
 
 void CJP::Reset()
diff --git a/CEX/CSP.cpp b/CEX/CSP.cpp
index 00ef398..cd76103 100644
--- a/CEX/CSP.cpp
+++ b/CEX/CSP.cpp
@@ -81,7 +81,7 @@ void CSP::Generate(std::vector<uint8_t> &Output, size_t Offset, size_t Length)
 	{
 		throw CryptoRandomException(Name(), std::string("Generate"), std::string("The random provider is not available!"), ErrorCodes::NotFound);
 	}
-	if ((Output.size() - Offset) < Length)
+	if (Offset > Output.size() || Output.size() - Offset < Length)
 	{
 		throw CryptoRandomException(Name(), std::string("Generate"), std::string("The output buffer is too small!"), ErrorCodes::InvalidSize);
 	}
@@ -90,7 +90,7 @@ void CSP::Generate(std::vector<uint8_t> &Output, size_t Offset, size_t Length)
 		throw CryptoRandomException(Name(), std::string("Generate"), std::string("The random provider has failed the self test!"), ErrorCodes::InvalidState);
 	}
 
-	Generate(&Output[Offset], Length);
+	Generate(Output.data() + Offset, Length);
 }
 
 void CSP::Generate(SecureVector<uint8_t> &Output)
@@ -113,7 +113,7 @@ void CSP::Generate(SecureVector<uint8_t> &Output, size_t Offset, size_t Length)
 	{
 		throw CryptoRandomException(Name(), std::string("Generate"), std::string("The random provider is not available!"), ErrorCodes::NotFound);
 	}
-	if ((Output.size() - Offset) < Length)
+	if (Offset > Output.size() || Output.size() - Offset < Length)
 	{
 		throw CryptoRandomException(Name(), std::string("Generate"), std::string("The output buffer is too small!"), ErrorCodes::InvalidSize);
 	}
@@ -122,7 +122,7 @@ void CSP::Generate(SecureVector<uint8_t> &Output, size_t Offset, size_t Length)
 		throw CryptoRandomException(Name(), std::string("Generate"), std::string("The random provider has failed the self test!"), ErrorCodes::InvalidState);
 	}
 
-	Generate(&Output[Offset], Length);
+	Generate(Output.data() + Offset, Length);
 }
 
 void CSP::Generate(uint8_t* Output, size_t Length)
diff --git a/CEX/ECP.cpp b/CEX/ECP.cpp
index ad990af..bb1f242 100644
--- a/CEX/ECP.cpp
+++ b/CEX/ECP.cpp
@@ -70,7 +70,7 @@ void ECP::Generate(std::vector<uint8_t> &Output, size_t Offset, size_t Length)
 	{
 		throw CryptoRandomException(Name(), std::string("Generate"), std::string("The random provider is not available!"), ErrorCodes::NotFound);
 	}
-	if ((Output.size() - Offset) < Length)
+	if (Offset > Output.size() || Output.size() - Offset < Length)
 	{
 		throw CryptoRandomException(Name(), std::string("Generate"), std::string("The output buffer is too small!"), ErrorCodes::InvalidSize);
 	}
@@ -105,6 +105,10 @@ void ECP::Generate(SecureVector<uint8_t> &Output, size_t Offset, size_t Length)
 	{
 		throw CryptoRandomException(Name(), std::string("Generate"), std::string("The random provider is not available!"), ErrorCodes::NotFound);
 	}
+	if (Offset > Output.size() || Output.size() - Offset < Length)
+	{
+		throw CryptoRandomException(Name(), std::string("Generate"), std::string("The output buffer is too small!"), ErrorCodes::InvalidSize);
+	}
 	if (FipsTest() == false)
 	{
 		throw CryptoRandomException(Name(), std::string("Generate"), std::string("The random provider has failed the self test!"), ErrorCodes::InvalidState);
diff --git a/CEX/RDP.cpp b/CEX/RDP.cpp
index 3871d95..a7ba7bf 100644
--- a/CEX/RDP.cpp
+++ b/CEX/RDP.cpp
@@ -63,7 +63,7 @@ void RDP::Generate(std::vector<uint8_t> &Output, size_t Offset, size_t Length)
 	{
 		throw CryptoRandomException(Name(), std::string("Generate"), std::string("The seed providers maximum output is 64MB per request!"), ErrorCodes::IllegalOperation);
 	}
-	if ((Output.size() - Offset) < Length)
+	if (Offset > Output.size() || Output.size() - Offset < Length)
 	{
 		throw CryptoRandomException(Name(), std::string("Generate"), std::string("The output buffer is too small!"), ErrorCodes::InvalidSize);
 	}
@@ -72,7 +72,7 @@ void RDP::Generate(std::vector<uint8_t> &Output, size_t Offset, size_t Length)
 		throw CryptoRandomException(Name(), std::string("Generate"), std::string("The random provider has failed the self test!"), ErrorCodes::InvalidState);
 	}
 
-	Generate(&Output[Offset], Length, m_randType);
+	Generate(Output.data() + Offset, Length, m_randType);
 }
 
 void RDP::Generate(SecureVector<uint8_t> &Output)
@@ -103,7 +103,7 @@ void RDP::Generate(SecureVector<uint8_t> &Output, size_t Offset, size_t Length)
 	{
 		throw CryptoRandomException(Name(), std::string("Generate"), std::string("The seed providers maximum output is 64MB per request!"), ErrorCodes::IllegalOperation);
 	}
-	if ((Output.size() - Offset) < Length)
+	if (Offset > Output.size() || Output.size() - Offset < Length)
 	{
 		throw CryptoRandomException(Name(), std::string("Generate"), std::string("The output buffer is too small!"), ErrorCodes::InvalidSize);
 	}
@@ -112,7 +112,7 @@ void RDP::Generate(SecureVector<uint8_t> &Output, size_t Offset, size_t Length)
 		throw CryptoRandomException(Name(), std::string("Generate"), std::string("The random provider has failed the self test!"), ErrorCodes::InvalidState);
 	}
 
-	Generate(&Output[Offset], Length, m_randType);
+	Generate(Output.data() + Offset, Length, m_randType);
 }
 
 void RDP::Reset()
-- 
2.43.0


From e4388402c1791f392e5dc5f51a45a32d868515f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:23 +0000
Subject: [PATCH 090/155] fix: ACP and ECP generate the size of the array into
 a buffer of the requested length

---
 CEX/ACP.cpp | 2 +-
 CEX/ECP.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/CEX/ACP.cpp b/CEX/ACP.cpp
index 884da0f..8efd868 100644
--- a/CEX/ACP.cpp
+++ b/CEX/ACP.cpp
@@ -83,7 +83,7 @@ void ACP::Generate(std::vector<uint8_t> &Output, size_t Offset, size_t Length)
 
 	SecureVector<uint8_t> tmp(Length);
 
-	Generate(tmp, 0, Output.size(), m_rngGenerator);
+	Generate(tmp, 0, Length, m_rngGenerator);
 	SecureMove(tmp, 0, Output, Offset, tmp.size());
 }
 
diff --git a/CEX/ECP.cpp b/CEX/ECP.cpp
index bb1f242..f65eb1f 100644
--- a/CEX/ECP.cpp
+++ b/CEX/ECP.cpp
@@ -81,7 +81,7 @@ void ECP::Generate(std::vector<uint8_t> &Output, size_t Offset, size_t Length)
 
 	SecureVector<uint8_t> tmp(Length);
 
-	Generate(tmp, 0, Output.size(), m_rngGenerator);
+	Generate(tmp, 0, Length, m_rngGenerator);
 	SecureMove(tmp, 0, Output, Offset, tmp.size());
 }
 
-- 
2.43.0


From 9e9ff7f7d8211864e8c9b99e30955af74bfa1d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:23 +0000
Subject: [PATCH 091/155] fix: CSP returns an array as it was if the system
 gives no handle, or beyond 4 GiB

---
 CEX/CSP.cpp | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/CEX/CSP.cpp b/CEX/CSP.cpp
index cd76103..ecdf0a9 100644
--- a/CEX/CSP.cpp
+++ b/CEX/CSP.cpp
@@ -135,26 +135,29 @@ void CSP::Generate(uint8_t* Output, size_t Length)
 	{
 		HCRYPTPROV hprov;
 
-		if (!CryptAcquireContextW(&hprov, 0, 0, PROV_RSA_FULL, (CRYPT_VERIFYCONTEXT | CRYPT_SILENT)))
+		hprov = 0;
+
+		if (!CryptAcquireContextW(&hprov, 0, 0, PROV_RSA_FULL, (CRYPT_VERIFYCONTEXT | CRYPT_SILENT)) || hprov == 0)
 		{
 			throw CryptoRandomException(ProviderConvert::ToName(Providers::CSP), std::string("Generate"), std::string("Random provider is not available!"), ErrorCodes::NotFound);
 		}
 
-		if (hprov)
+		// the system call takes a 32-bit length
+		while (Length != 0)
 		{
-			if (!::CryptGenRandom(hprov, static_cast<DWORD>(Length), static_cast<BYTE*>(Output)))
+			const size_t RMDLEN = IntegerTools::Min(static_cast<size_t>(0x40000000), Length);
+
+			if (!::CryptGenRandom(hprov, static_cast<DWORD>(RMDLEN), static_cast<BYTE*>(Output + poff)))
 			{
 				CryptReleaseContext(hprov, 0);
-				hprov = 0;
 				throw CryptoRandomException(ProviderConvert::ToName(Providers::CSP), std::string("Generate"), std::string("Random provider is not available!"), ErrorCodes::NotFound);
 			}
-		}
 
-		if (hprov)
-		{
-			CryptReleaseContext(hprov, 0);
-			hprov = 0;
+			poff += RMDLEN;
+			Length -= RMDLEN;
 		}
+
+		CryptReleaseContext(hprov, 0);
 	}
 
 #elif defined(CEX_OS_ANDROID)
-- 
2.43.0


From d57cc3fc3db5bd91e53e79e1420f1b78117d4ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:23 +0000
Subject: [PATCH 092/155] fix: CJP waits for ever for a timer that does not
 advance

---
 CEX/CJP.cpp | 10 ++++++++++
 CEX/CJP.h   |  2 ++
 2 files changed, 12 insertions(+)

diff --git a/CEX/CJP.cpp b/CEX/CJP.cpp
index e9ec95e..1085e6b 100644
--- a/CEX/CJP.cpp
+++ b/CEX/CJP.cpp
@@ -249,19 +249,29 @@ CEX_OPTIMIZE_RESUME
 void CJP::Generate(std::unique_ptr<JitterState> &State)
 {
 	size_t k;
+	size_t stuck;
 
 	// priming of the PreviousTime value
 	MeasureJitter(State);
 	k = 0;
+	stuck = 0;
 
 	while (true) 
 	{
 		// if a stuck measurement is received, repeat measurement
 		if (MeasureJitter(State) != 0)
 		{
+			++stuck;
+
+			if (stuck >= STUCK_MAX)
+			{
+				throw CryptoRandomException(std::string("CJP"), std::string("Generate"), std::string("The timer does not produce any jitter!"), ErrorCodes::NotSupported);
+			}
+
 			continue;
 		}
 
+		stuck = 0;
 		++k;
 		// we multiply the loop value with ->osr to obtain the oversampling rate requested by the caller
 		if (k >= (DATA_SIZE_BITS * State->OverSampleRate))
diff --git a/CEX/CJP.h b/CEX/CJP.h
index e45b512..145cdc5 100644
--- a/CEX/CJP.h
+++ b/CEX/CJP.h
@@ -71,6 +71,8 @@ private:
 	static const size_t MEMORY_SIZE = (MEMORY_BLOCKS * MEMORY_BLOCKSIZE);
 	static const size_t OVRSMP_RATE_MAX = 128;
 	static const size_t OVRSMP_RATE_MIN = 1;
+	// the number of consecutive measurements without entropy that is taken for a failure of the timer
+	static const size_t STUCK_MAX = 1000;
 	static const bool OS_HAS_TSC;
 
 	class JitterState;
-- 
2.43.0


From c5200d8aaf73ab9b9bd69e430432c2cf9544d2ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:34 +0000
Subject: [PATCH 093/155] fix: CpuDetect copies twice the registers it read

---
 CEX/CpuDetect.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/CEX/CpuDetect.cpp b/CEX/CpuDetect.cpp
index d538032..57862b5 100644
--- a/CEX/CpuDetect.cpp
+++ b/CEX/CpuDetect.cpp
@@ -445,7 +445,7 @@ void CpuDetect::Initialize()
 		m_physCores = (m_hyperThread == true && m_virtCores > 1) ? (m_virtCores / 2) : m_virtCores;
 		m_logicalPerCore = (m_virtCores > m_physCores) ? (m_virtCores / m_physCores) : 1;
 		// f1 ecx, edx
-		std::memcpy(&m_x86CpuFlags[0], &cpuInfo[2], 2 * sizeof(uint64_t));
+		std::memcpy(&m_x86CpuFlags[0], &cpuInfo[2], 2 * sizeof(uint32_t));
 
 		if (m_cpuVendor == CpuVendors::INTEL)
 		{
@@ -457,7 +457,7 @@ void CpuDetect::Initialize()
 			std::memset(cpuInfo.data(), 0, 16);
 			CpuidSublevel(7, 0, cpuInfo);
 			// f7 ebx, ecx
-			std::memcpy(&m_x86CpuFlags[2], &cpuInfo[1], 2 * sizeof(uint64_t));
+			std::memcpy(&m_x86CpuFlags[2], &cpuInfo[1], 2 * sizeof(uint32_t));
 		}
 
 		if (SUBLVL >= 5)
@@ -473,7 +473,7 @@ void CpuDetect::Initialize()
 			std::memset(cpuInfo.data(), 0, 16);
 			Cpuid(0x80000001UL, cpuInfo);
 			// f8..1 ecx, edx
-			std::memcpy(&m_x86CpuFlags[4], &cpuInfo[2], 2 * sizeof(uint64_t));
+			std::memcpy(&m_x86CpuFlags[4], &cpuInfo[2], 2 * sizeof(uint32_t));
 			StoreTopology();
 		}
 	}
-- 
2.43.0


From 733c160bd72adce1d0e08ff255fe928c28f2744d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:39 +0000
Subject: [PATCH 094/155] fix: Kyber noise sampling reads beyond its buffer

---
 CEX/KyberBase.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/CEX/KyberBase.cpp b/CEX/KyberBase.cpp
index bf8a7d7..0bc432d 100644
--- a/CEX/KyberBase.cpp
+++ b/CEX/KyberBase.cpp
@@ -189,12 +189,14 @@ void KyberBase::PolyToMsg(std::vector<uint8_t> &Msg, const Poly &A)
 
 void KyberBase::PolyGetNoiseEta1(Poly &R, const std::vector<uint8_t> &Seed, size_t SOffset, uint8_t Nonce, uint32_t Eta1)
 {
-    std::vector<uint8_t> buf(Eta1 * KYBER_N / 4);
+    const size_t BUFLEN = Eta1 * KYBER_N / 4;
+    // the AVX2 sampler loads 32 bytes for every 24 it uses
+    std::vector<uint8_t> buf(BUFLEN + 8);
     std::vector<uint8_t> extkey(KYBER_SYMBYTES + 1);
 
     MemoryTools::Copy(Seed, SOffset, extkey, 0, KYBER_SYMBYTES);
     extkey[KYBER_SYMBYTES] = Nonce;
-    Keccak::XOFP1600(extkey, 0, extkey.size(), buf, 0, buf.size(), Keccak::KECCAK256_RATE_SIZE);
+    Keccak::XOFP1600(extkey, 0, extkey.size(), buf, 0, BUFLEN, Keccak::KECCAK256_RATE_SIZE);
 
     PolyCbdEta1(R, buf, Eta1);
 }
-- 
2.43.0


From 189418e2408fdc4a099b249b405712ddd0bace6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:28 +0000
Subject: [PATCH 095/155] fix: Kyber matrix sampling reads beyond its buffer

---
 CEX/KyberBase.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/CEX/KyberBase.cpp b/CEX/KyberBase.cpp
index 0bc432d..599d360 100644
--- a/CEX/KyberBase.cpp
+++ b/CEX/KyberBase.cpp
@@ -1205,7 +1205,8 @@ void KyberBase::GenMatrix(std::vector<PolyVec> &A, const std::vector<uint8_t> &S
 
     for (i = 0; i < VLEN; ++i)
     {
-        buf[i].resize(GEN_MATRIX_NBLOCKS * Keccak::KECCAK128_RATE_SIZE + 2, 0x00);
+        // the AVX2 sampler loads 32 bytes for every 24 it uses
+        buf[i].resize(GEN_MATRIX_NBLOCKS * Keccak::KECCAK128_RATE_SIZE + 8, 0x00);
         extseed[i].resize(KYBER_SYMBYTES + 2, 0x00);
 
         if (i < K)
-- 
2.43.0


From 281d6c09d10d0f53e7414f7368258ebd3d355186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:29 +0000
Subject: [PATCH 096/155] fix: ECDSA does not sign with the ECDSAS1P25519K
 parameter set

---
 CEX/ECDSA.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/CEX/ECDSA.cpp b/CEX/ECDSA.cpp
index daf8016..fedae79 100644
--- a/CEX/ECDSA.cpp
+++ b/CEX/ECDSA.cpp
@@ -230,6 +230,7 @@ size_t ECDSA::Sign(const std::vector<uint8_t> &Message, std::vector<uint8_t> &Si
 
 	switch (m_ecdsaState->Parameters)
 	{
+		case ECDSAParameters::ECDSAS1P25519K:
 		case ECDSAParameters::ECDSAS2P25519S:
 		{
 			Signature.resize(SignatureSize() + Message.size());
-- 
2.43.0


From 98ca9cbc258553cd5ce99821d2b541ba727960a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:54 +0000
Subject: [PATCH 097/155] fix: verifying a truncated signature reads outside of
 it

---
 CEX/Dilithium.cpp |  6 ++++++
 CEX/ECDSABase.cpp |  7 +++++++
 CEX/SPXBase.h     |  5 +++++
 CEX/XmssCore.cpp  | 21 +++++++++++++++++++++
 CEX/XmssCore.h    |  2 ++
 5 files changed, 41 insertions(+)

diff --git a/CEX/Dilithium.cpp b/CEX/Dilithium.cpp
index b0ef97a..3a3b09a 100644
--- a/CEX/Dilithium.cpp
+++ b/CEX/Dilithium.cpp
@@ -341,6 +341,12 @@ bool Dilithium::Verify(const std::vector<uint8_t> &Signature, std::vector<uint8_
 		throw CryptoAsymmetricException(Name(), std::string("Sign"), std::string("The signature scheme is not initialized for verification!"), ErrorCodes::NotInitialized);
 	}
 
+	if (Signature.size() < SignatureSize())
+	{
+		// too short to hold a signature
+		return false;
+	}
+
 	switch (m_dilithiumState->Parameters)
 	{
 		case DilithiumParameters::DLTMS1P2544:
diff --git a/CEX/ECDSABase.cpp b/CEX/ECDSABase.cpp
index 83f3287..4f59e5e 100644
--- a/CEX/ECDSABase.cpp
+++ b/CEX/ECDSABase.cpp
@@ -131,6 +131,13 @@ bool ECDSABase::Sign(std::vector<uint8_t> &Signature, const std::vector<uint8_t>
 
 bool ECDSABase::Verify(std::vector<uint8_t> &Message, const std::vector<uint8_t> &Signature, const std::vector<uint8_t> &PublicKey, std::unique_ptr<IDigest> &Digest)
 {
+	if (Signature.size() < EC25519::EC25519_SIGNATURE_SIZE)
+	{
+		// too short to hold a signature
+		MemoryTools::Clear(Message, 0, Message.size());
+		return false;
+	}
+
 	const size_t MSGLEN = Signature.size() - EC25519::EC25519_SIGNATURE_SIZE;
 	std::vector<uint8_t> tmpm(MSGLEN);
 	bool res;
diff --git a/CEX/SPXBase.h b/CEX/SPXBase.h
index be32fae..48b8cc7 100644
--- a/CEX/SPXBase.h
+++ b/CEX/SPXBase.h
@@ -861,6 +861,11 @@ public:
 	static bool Verify(T &Params, std::vector<uint8_t> &Message, const std::vector<uint8_t> &Signature, const std::vector<uint8_t> &PublicKey)
 	{
 		// verifies a given signature-message pair under a given public key
+		if (Signature.size() < Params.SPX_BYTES)
+		{
+			return false;
+		}
+
 		const size_t MSGLEN = Signature.size() - Params.SPX_BYTES;
 		std::vector<uint8_t> buf(Params.SPX_N + SPX_ADDR_BYTES + Params.SPX_WOTS_LEN * Params.SPX_N);
 		std::vector<uint8_t> leaf(Params.SPX_N);
diff --git a/CEX/XmssCore.cpp b/CEX/XmssCore.cpp
index 585456d..791a360 100644
--- a/CEX/XmssCore.cpp
+++ b/CEX/XmssCore.cpp
@@ -1361,6 +1361,21 @@ int32_t XMSSCore::XmssMtCoreSign(const XmssParams &Params, std::vector<uint8_t>
 	return res;
 }
 
+uint32_t XMSSCore::KeyOid(const std::vector<uint8_t> &Key)
+{
+	uint32_t oid;
+	size_t i;
+
+	oid = 0;
+
+	for (i = 0; i < XMSS_OID_LEN; ++i)
+	{
+		oid |= static_cast<uint32_t>(Key[XMSS_OID_LEN - i - 1]) << (i * 8);
+	}
+
+	return oid;
+}
+
 size_t XMSSCore::GetPublicKeySize(XmssParameters Parameters)
 {
 	XmssParams params;
@@ -1488,6 +1503,12 @@ bool XMSSCore::Verify(std::vector<uint8_t> &Message, const std::vector<uint8_t>
 	res = 0;
 	oid = XMSSUtils::ToOid(Parameters);
 
+	if (Signature.size() < GetSignatureSize(Parameters) || PublicKey.size() != GetPublicKeySize(Parameters) || KeyOid(PublicKey) != oid)
+	{
+		// too short to hold a signature, or the key belongs to another parameter set
+		return false;
+	}
+
 	if (XMSSUtils::IsXMSS(Parameters))
 	{
 		XmssParams params;
diff --git a/CEX/XmssCore.h b/CEX/XmssCore.h
index 888e6d1..ffb1a3a 100644
--- a/CEX/XmssCore.h
+++ b/CEX/XmssCore.h
@@ -162,6 +162,8 @@ private:
 
 	static size_t CoreSkBytes(const XmssParams &Params);
 
+	static uint32_t KeyOid(const std::vector<uint8_t> &Key);
+
 	static int32_t XmssCoreKeyPair(const XmssParams &Params, std::vector<uint8_t> &PublicKey, std::vector<uint8_t> &SecretKey, std::unique_ptr<Prng::IPrng> &Rng);
 
 	static int32_t XmssCoreSign(const XmssParams &Params, std::vector<uint8_t> &SecretKey, std::vector<uint8_t> &Signature, size_t &SigLength, const std::vector<uint8_t> &Message, size_t MsgLength);
-- 
2.43.0


From a3dc3204e7d5e2f11199211091f4a9dae0d1debe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:12 +0000
Subject: [PATCH 098/155] fix: XMSS signs every message with the first index of
 the private key

---
 CEX/AsymmetricKey.cpp | 11 +++++++++++
 CEX/AsymmetricKey.h   |  9 +++++++++
 CEX/XMSS.cpp          |  7 ++++++-
 CEX/XmssCore.cpp      | 24 ++++++++++++++++++------
 CEX/XmssCore.h        |  2 +-
 5 files changed, 45 insertions(+), 8 deletions(-)

diff --git a/CEX/AsymmetricKey.cpp b/CEX/AsymmetricKey.cpp
index 4ca9e82..3eff3e4 100644
--- a/CEX/AsymmetricKey.cpp
+++ b/CEX/AsymmetricKey.cpp
@@ -1,6 +1,7 @@
 #include "AsymmetricKey.h"
 #include "ArrayTools.h"
 #include "IntegerTools.h"
+#include "MemoryTools.h"
 
 NAMESPACE_ASYMMETRIC
 
@@ -129,6 +130,16 @@ void AsymmetricKey::Reset()
 	m_keyState->Reset();
 }
 
+void AsymmetricKey::Update(const std::vector<uint8_t> &Polynomial)
+{
+	if (Polynomial.size() != m_keyState->Polynomial.size())
+	{
+		throw CryptoAsymmetricException(CLASS_NAME, std::string("Update"), std::string("The polynomial size can not change!"), Enumeration::ErrorCodes::InvalidSize);
+	}
+
+	MemoryTools::Copy(Polynomial, 0, m_keyState->Polynomial, 0, Polynomial.size());
+}
+
 //~~~Static Functions~~~//
 
 AsymmetricKey* AsymmetricKey::DeSerialize(SecureVector<uint8_t> &KeyStream)
diff --git a/CEX/AsymmetricKey.h b/CEX/AsymmetricKey.h
index 4dbc263..46fae0d 100644
--- a/CEX/AsymmetricKey.h
+++ b/CEX/AsymmetricKey.h
@@ -109,6 +109,15 @@ public:
 	/// </summary>
 	void Reset() override;
 
+	/// <summary>
+	/// Replace the polynomial with its successor; used by the stateful signature schemes to advance the private key
+	/// </summary>
+	/// 
+	/// <param name="Polynomial">The new polynomial standard-vector, must be the same size as the current one</param>
+	///
+	/// <exception cref="CryptoAsymmetricException">Thrown if the size of the polynomial has changed</exception>
+	void Update(const std::vector<uint8_t> &Polynomial);
+
 	//~~~Static Functions~~~//
 
 	/// <summary>
diff --git a/CEX/XMSS.cpp b/CEX/XMSS.cpp
index 5c0b00a..48d5122 100644
--- a/CEX/XMSS.cpp
+++ b/CEX/XMSS.cpp
@@ -288,7 +288,12 @@ size_t XMSS::Sign(const std::vector<uint8_t> &Message, std::vector<uint8_t> &Sig
 
 	size_t slen;
 
-	slen = XMSSCore::Sign(Signature, Message, m_privateKey->Polynomial(), m_xmssState->Parameters);
+	std::vector<uint8_t> sk = m_privateKey->Polynomial();
+
+	slen = XMSSCore::Sign(Signature, Message, sk, m_xmssState->Parameters);
+	// an index signs once, store the key with the next one
+	m_privateKey->Update(sk);
+	MemoryTools::Clear(sk, 0, sk.size());
 
 	return slen;
 }
diff --git a/CEX/XmssCore.cpp b/CEX/XmssCore.cpp
index 791a360..aaf817f 100644
--- a/CEX/XmssCore.cpp
+++ b/CEX/XmssCore.cpp
@@ -1,4 +1,5 @@
 #include "XMSSCore.h"
+#include "CryptoAsymmetricException.h"
 #include "IntegerTools.h"
 #include "Keccak.h"
 #include "MemoryTools.h"
@@ -7,6 +8,7 @@
 
 NAMESPACE_XMSS
 
+using Exception::CryptoAsymmetricException;
 using Tools::IntegerTools;
 using Digest::Keccak;
 using Tools::MemoryTools;
@@ -1319,10 +1321,14 @@ int32_t XMSSCore::XmssMtCoreSign(const XmssParams &Params, std::vector<uint8_t>
 	SigLength = Params.SignatureSize + MsgLength;
 
 	// read and use the current index from the secret key
-	idx = BytesToUll(Signature, Params.IndexSize);
 	MemoryTools::Copy(SecretKey, skoft, Signature, 0, Params.IndexSize);
+	idx = BytesToUll(Signature, Params.IndexSize);
+
+	if ((idx >> Params.FullHeight) != 0)
+	{
+		throw CryptoAsymmetricException(std::string("XMSS"), std::string("Sign"), std::string("Every index of the private key has been used!"), Enumeration::ErrorCodes::MaxExceeded);
+	}
 
-	// Note: the secret key can be updated here
 	// increment the index in the secret key
 	UllToBytes(SecretKey, skoft, Params.IndexSize, idx + 1);
 
@@ -1466,27 +1472,33 @@ void XMSSCore::Generate(std::vector<uint8_t> &PublicKey, std::vector<uint8_t> &P
 	}
 }
 
-size_t XMSSCore::Sign(std::vector<uint8_t> &Signature, const std::vector<uint8_t> &Message, const std::vector<uint8_t> &PrivateKey, XmssParameters Parameters)
+size_t XMSSCore::Sign(std::vector<uint8_t> &Signature, const std::vector<uint8_t> &Message, std::vector<uint8_t> &PrivateKey, XmssParameters Parameters)
 {
 	size_t smlen(0);
 	uint32_t oid;
 
 	oid = XMSSUtils::ToOid(Parameters);
-	std::vector<uint8_t> sk2 = PrivateKey;
+
+	if (PrivateKey.size() != GetPrivateKeySize(Parameters) || KeyOid(PrivateKey) != oid)
+	{
+		// the key belongs to another parameter set
+		Signature.resize(0);
+		return smlen;
+	}
 
 	if (XMSSUtils::IsXMSS(Parameters))
 	{
 		XmssParams params;
 		XmssParseOid(params, oid);
 		Signature.resize(params.SignatureSize + Message.size());
-		XmssSign(sk2, Signature, smlen, Message, Message.size());
+		XmssSign(PrivateKey, Signature, smlen, Message, Message.size());
 	}
 	else
 	{
 		XmssParams params;
 		XmssMtParseOid(params, oid);
 		Signature.resize(params.SignatureSize + Message.size());
-		XmssMtSign(sk2, Signature, smlen, Message, Message.size());
+		XmssMtSign(PrivateKey, Signature, smlen, Message, Message.size());
 	}
 
 	return smlen;
diff --git a/CEX/XmssCore.h b/CEX/XmssCore.h
index ffb1a3a..b1a69a7 100644
--- a/CEX/XmssCore.h
+++ b/CEX/XmssCore.h
@@ -182,7 +182,7 @@ public:
 
 	static void Generate(std::vector<uint8_t> &PublicKey, std::vector<uint8_t> &PrivateKey, std::unique_ptr<Prng::IPrng> &Rng, XmssParameters Parameters);
 
-	static size_t Sign(std::vector<uint8_t> &Signature, const std::vector<uint8_t> &Message, const std::vector<uint8_t> &PrivateKey, XmssParameters Parameters);
+	static size_t Sign(std::vector<uint8_t> &Signature, const std::vector<uint8_t> &Message, std::vector<uint8_t> &PrivateKey, XmssParameters Parameters);
 
 	static bool Verify(std::vector<uint8_t> &Message, const std::vector<uint8_t> &Signature, const std::vector<uint8_t> &PublicKey, XmssParameters Parameters);
 };
-- 
2.43.0


From 59e816921eeefa69475720a892409d6fbd8dfe23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:12 +0000
Subject: [PATCH 099/155] fix: the asymmetric domain key is combined with the
 bytes between two temporary names

---
 CEX/ECDH.cpp     | 3 ++-
 CEX/Kyber.cpp    | 3 ++-
 CEX/McEliece.cpp | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/CEX/ECDH.cpp b/CEX/ECDH.cpp
index f7e573f..83c0c08 100644
--- a/CEX/ECDH.cpp
+++ b/CEX/ECDH.cpp
@@ -215,7 +215,8 @@ AsymmetricKeyPair* ECDH::Generate(std::vector<uint8_t> &Seed)
 
 void ECDH::CXOF(const std::vector<uint8_t> &Domain, const std::vector<uint8_t> &Key, std::vector<uint8_t> &Secret, size_t Rate)
 {
-	std::vector<uint8_t> tmpn(Name().begin(), Name().end());
+	const std::string tname = Name();
+	std::vector<uint8_t> tmpn(tname.begin(), tname.end());
 	Keccak::CXOFP1600(Key, Domain, tmpn, Secret, 0, Secret.size(), Rate);
 }
 
diff --git a/CEX/Kyber.cpp b/CEX/Kyber.cpp
index 1a46250..b8419ff 100644
--- a/CEX/Kyber.cpp
+++ b/CEX/Kyber.cpp
@@ -443,7 +443,8 @@ void Kyber::Initialize(AsymmetricKey* Key)
 
 void Kyber::CXOF(const std::vector<uint8_t> &Domain, const std::vector<uint8_t> &Key, std::vector<uint8_t> &Secret, size_t Rate)
 {
-	std::vector<uint8_t> tmpn(Name().begin(), Name().end());
+	const std::string tname = Name();
+	std::vector<uint8_t> tmpn(tname.begin(), tname.end());
 	Keccak::CXOFP1600(Key, Domain, tmpn, Secret, 0, Secret.size(), Rate);
 }
 
diff --git a/CEX/McEliece.cpp b/CEX/McEliece.cpp
index 91d9b2f..b365b40 100644
--- a/CEX/McEliece.cpp
+++ b/CEX/McEliece.cpp
@@ -466,7 +466,8 @@ void McEliece::Initialize(AsymmetricKey* Key)
 
 void McEliece::CXOF(const std::vector<uint8_t> &Domain, const std::vector<uint8_t> &Key, std::vector<uint8_t> &Secret, size_t Rate)
 {
-	std::vector<uint8_t> tmpn(Name().begin(), Name().end());
+	const std::string tname = Name();
+	std::vector<uint8_t> tmpn(tname.begin(), tname.end());
 	Keccak::CXOFP1600(Key, Domain, tmpn, Secret, 0, Secret.size(), Rate);
 }
 
-- 
2.43.0


From c6ed65bdfbdc48ab0d563e4c3f1ad57991eae206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:36 +0000
Subject: [PATCH 100/155] fix: Kyber and McEliece use a missing key, and read
 outside of a cipher-text of another size

---
 CEX/Kyber.cpp    | 17 ++++++++++++++++-
 CEX/McEliece.cpp | 17 +++++++++++++++--
 2 files changed, 31 insertions(+), 3 deletions(-)

diff --git a/CEX/Kyber.cpp b/CEX/Kyber.cpp
index b8419ff..341fe94 100644
--- a/CEX/Kyber.cpp
+++ b/CEX/Kyber.cpp
@@ -255,6 +255,17 @@ const size_t Kyber::SharedSecretSize()
 
 bool Kyber::Decapsulate(const std::vector<uint8_t> &CipherText, std::vector<uint8_t> &SharedSecret)
 {
+	if (!m_kyberState->Initialized || m_kyberState->Encryption)
+	{
+		throw CryptoAsymmetricException(Name(), std::string("Decapsulate"), std::string("The cipher has not been initialized for decryption!"), ErrorCodes::NotInitialized);
+	}
+
+	if (CipherText.size() != CipherTextSize())
+	{
+		// not a cipher-text of this parameter set
+		return false;
+	}
+
 	std::vector<uint8_t> sec(SECRET_SIZE, 0x00);
 	bool res;
 
@@ -309,7 +320,11 @@ bool Kyber::Decapsulate(const std::vector<uint8_t> &CipherText, std::vector<uint
 
 void Kyber::Encapsulate(std::vector<uint8_t> &CipherText, std::vector<uint8_t> &SharedSecret)
 {
-	CEXASSERT(m_kyberState->Initialized, "The cipher has not been initialized");
+	if (!m_kyberState->Initialized || !m_kyberState->Encryption)
+	{
+		throw CryptoAsymmetricException(Name(), std::string("Encapsulate"), std::string("The cipher has not been initialized for encryption!"), ErrorCodes::NotInitialized);
+	}
+
 	CEXASSERT(SharedSecret.size() <= 256, "The shared secret size is too large");
 
 	std::vector<uint8_t> sec(SECRET_SIZE);
diff --git a/CEX/McEliece.cpp b/CEX/McEliece.cpp
index b365b40..482bc59 100644
--- a/CEX/McEliece.cpp
+++ b/CEX/McEliece.cpp
@@ -258,7 +258,16 @@ const size_t McEliece::SharedSecretSize()
 
 bool McEliece::Decapsulate(const std::vector<uint8_t> &CipherText, std::vector<uint8_t> &SharedSecret)
 {
-	CEXASSERT(m_mpkcState->Initialized, "The cipher has not been initialized");
+	if (!m_mpkcState->Initialized || m_mpkcState->Encryption)
+	{
+		throw CryptoAsymmetricException(Name(), std::string("Decapsulate"), std::string("The cipher has not been initialized for decryption!"), ErrorCodes::NotInitialized);
+	}
+
+	if (CipherText.size() != CipherTextSize())
+	{
+		// not a cipher-text of this parameter set
+		return false;
+	}
 
 	std::vector<uint8_t> sec(SECRET_SIZE, 0x00);
 	bool res;
@@ -311,7 +320,11 @@ bool McEliece::Decapsulate(const std::vector<uint8_t> &CipherText, std::vector<u
 
 void McEliece::Encapsulate(std::vector<uint8_t> &CipherText, std::vector<uint8_t> &SharedSecret)
 {
-	CEXASSERT(m_mpkcState->Initialized, "The cipher has not been initialized");
+	if (!m_mpkcState->Initialized || !m_mpkcState->Encryption)
+	{
+		throw CryptoAsymmetricException(Name(), std::string("Encapsulate"), std::string("The cipher has not been initialized for encryption!"), ErrorCodes::NotInitialized);
+	}
+
 	CEXASSERT(SharedSecret.size() <= 256, "The shared secret size is too large");
 
 	std::vector<uint8_t> sec(SECRET_SIZE);
-- 
2.43.0


From ebddf888c9f46fa2cffd5badd85ee5d0214048ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:36 +0000
Subject: [PATCH 101/155] fix: the asymmetric algorithms read outside of a key
 of another size

---
 CEX/Dilithium.cpp   | 6 ++++++
 CEX/ECDH.cpp        | 7 +++++++
 CEX/ECDSA.cpp       | 6 ++++++
 CEX/Kyber.cpp       | 8 +++++++-
 CEX/McEliece.cpp    | 6 ++++++
 CEX/SphincsPlus.cpp | 6 ++++++
 CEX/XMSS.cpp        | 6 ++++++
 7 files changed, 44 insertions(+), 1 deletion(-)

diff --git a/CEX/Dilithium.cpp b/CEX/Dilithium.cpp
index 3a3b09a..c5371a0 100644
--- a/CEX/Dilithium.cpp
+++ b/CEX/Dilithium.cpp
@@ -275,6 +275,12 @@ const void Dilithium::Initialize(AsymmetricKey* Key)
 		m_dilithiumState->Signer = true;
 	}
 
+	if (Key->Polynomial().size() != (Key->KeyClass() == AsymmetricKeyTypes::SignaturePublicKey ? PublicKeySize() : PrivateKeySize()))
+	{
+		m_dilithiumState->Initialized = false;
+		throw CryptoAsymmetricException(Name(), std::string("Initialize"), std::string("The key size is invalid!"), ErrorCodes::InvalidKey);
+	}
+
 	m_dilithiumState->Initialized = true;
 }
 
diff --git a/CEX/ECDH.cpp b/CEX/ECDH.cpp
index 83c0c08..4f611a8 100644
--- a/CEX/ECDH.cpp
+++ b/CEX/ECDH.cpp
@@ -162,6 +162,13 @@ bool ECDH::KeyExchange(AsymmetricKey* PublicKey, AsymmetricKey* PrivateKey, std:
 	std::vector<uint8_t> sec(EC25519::EC25519_SECRET_SIZE);
 	bool res;
 
+	if (PublicKey == nullptr || PrivateKey == nullptr ||
+		PublicKey->PrimitiveType() != AsymmetricPrimitives::ECDH || PublicKey->KeyClass() != AsymmetricKeyTypes::CipherPublicKey || PublicKey->Polynomial().size() != PublicKeySize() ||
+		PrivateKey->PrimitiveType() != AsymmetricPrimitives::ECDH || PrivateKey->KeyClass() != AsymmetricKeyTypes::CipherPrivateKey || PrivateKey->Polynomial().size() != PrivateKeySize())
+	{
+		throw CryptoAsymmetricException(Name(), std::string("KeyExchange"), std::string("The key is invalid!"), ErrorCodes::InvalidKey);
+	}
+
 	res = ECDHBase::Ed25519KeyExchange(sec, PublicKey->Polynomial(), PrivateKey->Polynomial());
 
 	if (res == true)
diff --git a/CEX/ECDSA.cpp b/CEX/ECDSA.cpp
index fedae79..9c10bb9 100644
--- a/CEX/ECDSA.cpp
+++ b/CEX/ECDSA.cpp
@@ -205,6 +205,12 @@ const void ECDSA::Initialize(AsymmetricKey* Key)
 		m_ecdsaState->Signer = true;
 	}
 
+	if (Key->Polynomial().size() != (Key->KeyClass() == AsymmetricKeyTypes::SignaturePublicKey ? PublicKeySize() : PrivateKeySize()))
+	{
+		m_ecdsaState->Initialized = false;
+		throw CryptoAsymmetricException(Name(), std::string("Initialize"), std::string("The key size is invalid!"), ErrorCodes::InvalidKey);
+	}
+
 	m_ecdsaState->Initialized = true;
 }
 
diff --git a/CEX/Kyber.cpp b/CEX/Kyber.cpp
index 341fe94..a3714a8 100644
--- a/CEX/Kyber.cpp
+++ b/CEX/Kyber.cpp
@@ -452,7 +452,13 @@ void Kyber::Initialize(AsymmetricKey* Key)
 		m_kyberState->Parameters = static_cast<KyberParameters>(m_privateKey->Parameters());
 		m_kyberState->Encryption = false;
 	}
- 
+
+	if (Key->Polynomial().size() != (Key->KeyClass() == AsymmetricKeyTypes::CipherPublicKey ? PublicKeySize() : PrivateKeySize()))
+	{
+		m_kyberState->Initialized = false;
+		throw CryptoAsymmetricException(Name(), std::string("Initialize"), std::string("The key size is invalid!"), ErrorCodes::InvalidKey);
+	}
+
 	m_kyberState->Initialized = true;
 }
 
diff --git a/CEX/McEliece.cpp b/CEX/McEliece.cpp
index 482bc59..dcf7820 100644
--- a/CEX/McEliece.cpp
+++ b/CEX/McEliece.cpp
@@ -474,6 +474,12 @@ void McEliece::Initialize(AsymmetricKey* Key)
 		m_mpkcState->Encryption = false;
 	}
 
+	if (Key->Polynomial().size() != (Key->KeyClass() == AsymmetricKeyTypes::CipherPublicKey ? PublicKeySize() : PrivateKeySize()))
+	{
+		m_mpkcState->Initialized = false;
+		throw CryptoAsymmetricException(Name(), std::string("Initialize"), std::string("The key size is invalid!"), ErrorCodes::InvalidKey);
+	}
+
 	m_mpkcState->Initialized = true;
 }
 
diff --git a/CEX/SphincsPlus.cpp b/CEX/SphincsPlus.cpp
index 3e6fb83..7b468eb 100644
--- a/CEX/SphincsPlus.cpp
+++ b/CEX/SphincsPlus.cpp
@@ -301,6 +301,12 @@ const void SphincsPlus::Initialize(AsymmetricKey* Key)
 		m_sphincsState->Signer = true;
 	}
 
+	if (Key->Polynomial().size() != (Key->KeyClass() == AsymmetricKeyTypes::SignaturePublicKey ? PublicKeySize() : PrivateKeySize()))
+	{
+		m_sphincsState->Initialized = false;
+		throw CryptoAsymmetricException(Name(), std::string("Initialize"), std::string("The key size is invalid!"), ErrorCodes::InvalidKey);
+	}
+
 	m_sphincsState->Initialized = true;
 }
 
diff --git a/CEX/XMSS.cpp b/CEX/XMSS.cpp
index 48d5122..2f5085c 100644
--- a/CEX/XMSS.cpp
+++ b/CEX/XMSS.cpp
@@ -266,6 +266,12 @@ const void XMSS::Initialize(AsymmetricKey* Key)
 		m_xmssState->Signer = true;
 	}
 
+	if (Key->Polynomial().size() != (Key->KeyClass() == AsymmetricKeyTypes::SignaturePublicKey ? PublicKeySize() : PrivateKeySize()))
+	{
+		m_xmssState->Initialized = false;
+		throw CryptoAsymmetricException(Name(), std::string("Initialize"), std::string("The key size is invalid!"), ErrorCodes::InvalidKey);
+	}
+
 	m_xmssState->Initialized = true;
 }
 
-- 
2.43.0


From 3c55c5c3081f859c73eb8cda39b096061ccf19f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:28 +0000
Subject: [PATCH 102/155] fix: Kyber decompression reads beyond the cipher-text

---
 CEX/KyberBase.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/CEX/KyberBase.cpp b/CEX/KyberBase.cpp
index 599d360..cbe3ef7 100644
--- a/CEX/KyberBase.cpp
+++ b/CEX/KyberBase.cpp
@@ -706,7 +706,8 @@ void KyberBase::PolyDecompressAvx2P160(Poly &R, const std::vector<uint8_t> &A, s
 
     for (size_t i = 0; i < R.coeffs.size() / 16; ++i)
     {
-        f = _mm256_broadcastsi128_si256(_mm_loadu_si128(reinterpret_cast<const __m128i*>(&pa[10 * i])));
+        // the ten bytes of sixteen coefficients; a full load reads beyond the end of the cipher-text
+        f = _mm256_broadcastsi128_si256(_mm_insert_epi16(_mm_loadl_epi64(reinterpret_cast<const __m128i*>(&pa[10 * i])), static_cast<int>(pa[(10 * i) + 8]) | (static_cast<int>(pa[(10 * i) + 9]) << 8), 4));
         f = _mm256_shuffle_epi8(f, shufbidx);
         f = _mm256_and_si256(f, mask);
         f = _mm256_mullo_epi16(f, shift);
-- 
2.43.0


From c312597ae291f0aea82581c6a2c81df88474e30b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:49 +0000
Subject: [PATCH 103/155] fix: McEliece returns a key made from a permutation
 with duplicates

---
 CEX/MPKCN4608T96.cpp  | 4 ++--
 CEX/MPKCN6688T128.cpp | 4 ++--
 CEX/MPKCN6960T119.cpp | 4 ++--
 CEX/MPKCN8192T128.cpp | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/CEX/MPKCN4608T96.cpp b/CEX/MPKCN4608T96.cpp
index 91cc38e..08d7ddd 100644
--- a/CEX/MPKCN4608T96.cpp
+++ b/CEX/MPKCN4608T96.cpp
@@ -460,9 +460,9 @@ int32_t MPKCN4608T96::PkGen(uint8_t* Pk, const uint8_t* Sk, const uint32_t* Perm
 				{
 					MemoryTools::CopyRaw((uint8_t*)mat[i] + MCELIECE_N4608T96_PK_NROWS / 8, (uint8_t*)Pk + i * MCELIECE_N4608T96_PK_ROW_BYTES, MCELIECE_N4608T96_PK_ROW_BYTES);
 				}
-			}
 
-			res = 0;
+				res = 0;
+			}
 		}
 
 		for (i = 0; i < MCELIECE_N4608T96_PK_NROWS; ++i)
diff --git a/CEX/MPKCN6688T128.cpp b/CEX/MPKCN6688T128.cpp
index a01201b..cccadcc 100644
--- a/CEX/MPKCN6688T128.cpp
+++ b/CEX/MPKCN6688T128.cpp
@@ -460,9 +460,9 @@ int32_t MPKCN6688T128::PkGen(uint8_t* Pk, const uint8_t* Sk, const uint32_t* Per
 				{
 					MemoryTools::CopyRaw((uint8_t*)mat[i] + MCELIECE_N6688T128_PK_NROWS / 8, (uint8_t*)Pk + i * MCELIECE_N6688T128_PK_ROW_BYTES, MCELIECE_N6688T128_PK_ROW_BYTES);
 				}
-			}
 
-			res = 0;
+				res = 0;
+			}
 		}
 
 		for (i = 0; i < MCELIECE_N6688T128_PK_NROWS; ++i)
diff --git a/CEX/MPKCN6960T119.cpp b/CEX/MPKCN6960T119.cpp
index 64abac5..0a01ee5 100644
--- a/CEX/MPKCN6960T119.cpp
+++ b/CEX/MPKCN6960T119.cpp
@@ -513,9 +513,9 @@ int32_t MPKCN6960T119::PkGen(uint8_t* Pk, const uint8_t* Sk, const uint32_t* Per
 					*pk_ptr = (mat[i][j] >> tail);
 					++pk_ptr;
 				}
-			}
 
-			res = 0;
+				res = 0;
+			}
 		}
 
 		for (i = 0; i < MCELIECE_N6960T119_PK_NROWS; ++i)
diff --git a/CEX/MPKCN8192T128.cpp b/CEX/MPKCN8192T128.cpp
index 8d82b09..9c72ddc 100644
--- a/CEX/MPKCN8192T128.cpp
+++ b/CEX/MPKCN8192T128.cpp
@@ -435,9 +435,9 @@ int32_t MPKCN8192T128::PkGen(uint8_t* Pk, const uint8_t* Sk, const uint32_t* Per
 				{
 					MemoryTools::CopyRaw((uint8_t*)mat[i] + MCELIECE_N8192T128_PK_NROWS / 8, (uint8_t*)Pk + i * MCELIECE_N8192T128_PK_ROW_BYTES, MCELIECE_N8192T128_PK_ROW_BYTES);
 				}
-			}
 
-			res = 0;
+				res = 0;
+			}
 		}
 
 		for (i = 0; i < MCELIECE_N8192T128_PK_NROWS; ++i)
-- 
2.43.0


From 37dcc2fe8cdc446f885314a90b42f4e70daa25cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:49 +0000
Subject: [PATCH 104/155] fix: MemoryStream reads and writes outside of its
 buffer when the position is beyond the end

---
 CEX/MemoryStream.cpp | 67 ++++++++++++++++++++++++++++++++------------
 1 file changed, 49 insertions(+), 18 deletions(-)

diff --git a/CEX/MemoryStream.cpp b/CEX/MemoryStream.cpp
index 55fd66f..25edbf4 100644
--- a/CEX/MemoryStream.cpp
+++ b/CEX/MemoryStream.cpp
@@ -1,8 +1,11 @@
 #include "IntegerTools.h"
 #include "MemoryStream.h"
+#include "CryptoProcessingException.h"
 
 NAMESPACE_IO
 
+using Enumeration::ErrorCodes;
+using Exception::CryptoProcessingException;
 using Tools::IntegerTools;
 using Tools::MemoryTools;
 
@@ -49,7 +52,10 @@ MemoryStream::MemoryStream(const std::vector<uint8_t> &Data, size_t Offset, size
 	m_streamData(0),
 	m_streamPosition(0)
 {
-	CEXASSERT(Length <= Data.size() - Offset, "Length exceeds input capacity");
+	if (Offset > Data.size() || Length > Data.size() - Offset)
+	{
+		throw CryptoProcessingException(CLASS_NAME, std::string("Constructor"), std::string("The length exceeds the input capacity!"), ErrorCodes::InvalidParam);
+	}
 
 	m_streamData.resize(Length);
 	MemoryTools::Copy(Data, Offset, m_streamData, 0, Length);
@@ -127,13 +133,17 @@ void MemoryStream::Destroy()
 
 size_t MemoryStream::Read(std::vector<uint8_t> &Output, size_t Offset, size_t Length)
 {
-	if (Offset + Length > m_streamData.size() - m_streamPosition)
-	{
-		Length = m_streamData.size() - m_streamPosition;
-	}
+	const size_t RMDLEN = (m_streamPosition < m_streamData.size()) ? m_streamData.size() - static_cast<size_t>(m_streamPosition) : 0;
+
+	Length = IntegerTools::Min(Length, RMDLEN);
 
 	if (Length > 0)
 	{
+		if (Offset > Output.size() || Length > Output.size() - Offset)
+		{
+			throw CryptoProcessingException(CLASS_NAME, std::string("Read"), std::string("The output array is too small!"), ErrorCodes::InvalidSize);
+		}
+
 		MemoryTools::Copy(m_streamData, m_streamPosition, Output, Offset, Length);
 		m_streamPosition += Length;
 	}
@@ -143,7 +153,11 @@ size_t MemoryStream::Read(std::vector<uint8_t> &Output, size_t Offset, size_t Le
 
 uint8_t MemoryStream::ReadByte()
 {
-	CEXASSERT(m_streamData.size() - m_streamPosition >= 1, "Stream length exceeded");
+	if (m_streamPosition >= m_streamData.size())
+	{
+		throw CryptoProcessingException(CLASS_NAME, std::string("ReadByte"), std::string("The stream length is exceeded!"), ErrorCodes::InvalidSize);
+	}
+
 	uint8_t data = 0;
 	MemoryTools::CopyToValue(m_streamData, m_streamPosition, data, 1);
 	m_streamPosition += 1;
@@ -166,6 +180,11 @@ void MemoryStream::Seek(uint64_t Offset, SeekOrigin Origin)
 	}
 	else if (Origin == SeekOrigin::End)
 	{
+		if (Offset > m_streamData.size())
+		{
+			throw CryptoProcessingException(CLASS_NAME, std::string("Seek"), std::string("The offset precedes the start of the stream!"), ErrorCodes::InvalidParam);
+		}
+
 		m_streamPosition = m_streamData.size() - Offset;
 	}
 	else
@@ -181,28 +200,40 @@ void MemoryStream::SetLength(uint64_t Length)
 
 void MemoryStream::Write(const std::vector<uint8_t> &Input, size_t Offset, size_t Length)
 {
-	CEXASSERT(Offset + Length <= Input.size(), "Input stream length exceeded");
-
-	size_t ttlLen = m_streamPosition + Length;
-
-	if (m_streamData.capacity() - m_streamPosition < Length)
+	if (Offset > Input.size() || Length > Input.size() - Offset)
 	{
-		m_streamData.reserve(ttlLen);
+		throw CryptoProcessingException(CLASS_NAME, std::string("Write"), std::string("The input array is too small!"), ErrorCodes::InvalidSize);
 	}
-	if (m_streamData.size() < ttlLen)
+
+	if (m_streamPosition + Length < m_streamPosition)
 	{
-		m_streamData.resize(ttlLen);
+		throw CryptoProcessingException(CLASS_NAME, std::string("Write"), std::string("The position exceeds the stream capacity!"), ErrorCodes::InvalidSize);
 	}
 
-	MemoryTools::Copy(Input, Offset, m_streamData, m_streamPosition, Length);
-	m_streamPosition += Length;
+	size_t ttlLen = m_streamPosition + Length;
+
+	if (Length > 0)
+	{
+		if (m_streamData.size() < ttlLen)
+		{
+			m_streamData.resize(ttlLen);
+		}
+
+		MemoryTools::Copy(Input, Offset, m_streamData, m_streamPosition, Length);
+		m_streamPosition += Length;
+	}
 }
 
 void MemoryStream::WriteByte(uint8_t Value)
 {
-	if (m_streamData.size() - m_streamPosition < 1)
+	if (m_streamPosition + 1 == 0)
+	{
+		throw CryptoProcessingException(CLASS_NAME, std::string("WriteByte"), std::string("The position exceeds the stream capacity!"), ErrorCodes::InvalidSize);
+	}
+
+	if (m_streamPosition >= m_streamData.size())
 	{
-		m_streamData.resize(m_streamData.size() + 1);
+		m_streamData.resize(static_cast<size_t>(m_streamPosition) + 1);
 	}
 
 	MemoryTools::CopyFromValue(Value, m_streamData, m_streamPosition, 1);
-- 
2.43.0


From 84350ae02303dfcb1afb3740a42c8347efb95a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:49 +0000
Subject: [PATCH 105/155] fix: MemoryStream SetLength does not change the
 length

---
 CEX/MemoryStream.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CEX/MemoryStream.cpp b/CEX/MemoryStream.cpp
index 25edbf4..73fe7cd 100644
--- a/CEX/MemoryStream.cpp
+++ b/CEX/MemoryStream.cpp
@@ -195,7 +195,7 @@ void MemoryStream::Seek(uint64_t Offset, SeekOrigin Origin)
 
 void MemoryStream::SetLength(uint64_t Length)
 {
-	m_streamData.reserve(Length);
+	m_streamData.resize(Length);
 }
 
 void MemoryStream::Write(const std::vector<uint8_t> &Input, size_t Offset, size_t Length)
-- 
2.43.0


From 2d61019cc502c43fd9ff9832e178f04c4934f7b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:50 +0000
Subject: [PATCH 106/155] fix: SecureStream allocates a vector with the value
 of the salt as its length

---
 CEX/SecureStream.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/CEX/SecureStream.cpp b/CEX/SecureStream.cpp
index bf21f8f..bea76bd 100644
--- a/CEX/SecureStream.cpp
+++ b/CEX/SecureStream.cpp
@@ -27,7 +27,7 @@ SecureStream::SecureStream()
 SecureStream::SecureStream(size_t Length, uint64_t KeySalt)
 	:
 	m_isDestroyed(false),
-	m_keySalt(KeySalt),
+	m_keySalt(0),
 	m_streamData(0),
 	m_streamPosition(0)
 {
@@ -43,7 +43,7 @@ SecureStream::SecureStream(size_t Length, uint64_t KeySalt)
 SecureStream::SecureStream(const std::vector<uint8_t> &Data, uint64_t KeySalt)
 	:
 	m_isDestroyed(false),
-	m_keySalt(KeySalt),
+	m_keySalt(0),
 	m_streamData(Data),
 	m_streamPosition(0)
 {
@@ -59,7 +59,7 @@ SecureStream::SecureStream(const std::vector<uint8_t> &Data, uint64_t KeySalt)
 SecureStream::SecureStream(std::vector<uint8_t> &Data, size_t Offset, size_t Length, uint64_t KeySalt)
 	:
 	m_isDestroyed(false),
-	m_keySalt(KeySalt),
+	m_keySalt(0),
 	m_streamData(0),
 	m_streamPosition(0)
 {
-- 
2.43.0


From 6b1cbc6fb366caa339cd6f94b3f4bcb3bb19b9e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:50 +0000
Subject: [PATCH 107/155] fix: SecureStream reads and writes outside of its
 buffer, and decrypts bytes it never encrypted

---
 CEX/SecureStream.cpp | 79 +++++++++++++++++++++++++++++++++-----------
 CEX/SecureStream.h   |  1 +
 2 files changed, 60 insertions(+), 20 deletions(-)

diff --git a/CEX/SecureStream.cpp b/CEX/SecureStream.cpp
index bea76bd..53a25ef 100644
--- a/CEX/SecureStream.cpp
+++ b/CEX/SecureStream.cpp
@@ -1,5 +1,6 @@
 #include "SecureStream.h"
 #include "ArrayTools.h"
+#include "CryptoProcessingException.h"
 #include "CTR.h"
 #include "SHA2512.h"
 #include "SymmetricKey.h"
@@ -7,6 +8,8 @@
 
 NAMESPACE_IO
 
+using Enumeration::ErrorCodes;
+using Exception::CryptoProcessingException;
 using Tools::ArrayTools;
 using Tools::MemoryTools;
 using Tools::SystemTools;
@@ -63,7 +66,10 @@ SecureStream::SecureStream(std::vector<uint8_t> &Data, size_t Offset, size_t Len
 	m_streamData(0),
 	m_streamPosition(0)
 {
-	CEXASSERT(Length <= Data.size() - Offset, "Length is longer than the array size");
+	if (Offset > Data.size() || Length > Data.size() - Offset)
+	{
+		throw CryptoProcessingException(CLASS_NAME, std::string("Constructor"), std::string("The length exceeds the input capacity!"), ErrorCodes::InvalidParam);
+	}
 
 	m_streamData.resize(Length);
 	MemoryTools::Copy(Data, Offset, m_streamData, 0, Length);
@@ -147,13 +153,17 @@ void SecureStream::Destroy()
 
 size_t SecureStream::Read(std::vector<uint8_t> &Output, size_t Offset, size_t Length)
 {
-	if (Offset + Length > m_streamData.size() - m_streamPosition)
-	{
-		Length = m_streamData.size() - m_streamPosition;
-	}
+	const size_t RMDLEN = (m_streamPosition < m_streamData.size()) ? m_streamData.size() - static_cast<size_t>(m_streamPosition) : 0;
+
+	Length = (Length < RMDLEN) ? Length : RMDLEN;
 
 	if (Length > 0)
 	{
+		if (Offset > Output.size() || Length > Output.size() - Offset)
+		{
+			throw CryptoProcessingException(CLASS_NAME, std::string("Read"), std::string("The output array is too small!"), ErrorCodes::InvalidSize);
+		}
+
 		Transform();
 		MemoryTools::Copy(m_streamData, m_streamPosition, Output, Offset, Length);
 		Transform();
@@ -165,7 +175,10 @@ size_t SecureStream::Read(std::vector<uint8_t> &Output, size_t Offset, size_t Le
 
 uint8_t SecureStream::ReadByte()
 {
-	CEXASSERT(m_streamData.size() - m_streamPosition >= 1, "Stream capacity exceeded");
+	if (m_streamPosition >= m_streamData.size())
+	{
+		throw CryptoProcessingException(CLASS_NAME, std::string("ReadByte"), std::string("The stream length is exceeded!"), ErrorCodes::InvalidSize);
+	}
 
 	uint8_t data = 0;
 	Transform();
@@ -191,6 +204,11 @@ void SecureStream::Seek(uint64_t Offset, SeekOrigin Origin)
 	}
 	else if (Origin == SeekOrigin::End)
 	{
+		if (Offset > m_streamData.size())
+		{
+			throw CryptoProcessingException(CLASS_NAME, std::string("Seek"), std::string("The offset precedes the start of the stream!"), ErrorCodes::InvalidParam);
+		}
+
 		m_streamPosition = m_streamData.size() - Offset;
 	}
 	else
@@ -224,32 +242,44 @@ std::vector<uint8_t> SecureStream::ToArray()
 
 void SecureStream::Write(const std::vector<uint8_t> &Input, size_t Offset, size_t Length)
 {
-	CEXASSERT(Offset + Length <= Input.size(), "Length is longer than the array size");
+	if (Offset > Input.size() || Length > Input.size() - Offset)
+	{
+		throw CryptoProcessingException(CLASS_NAME, std::string("Write"), std::string("The input array is too small!"), ErrorCodes::InvalidSize);
+	}
+
+	if (m_streamPosition + Length < m_streamPosition)
+	{
+		throw CryptoProcessingException(CLASS_NAME, std::string("Write"), std::string("The position exceeds the stream capacity!"), ErrorCodes::InvalidSize);
+	}
 
 	size_t len;
 
 	len = m_streamPosition + Length;
 
-	if (m_streamData.capacity() - m_streamPosition < Length)
-	{
-		m_streamData.reserve(len);
-	}
-	if (m_streamData.size() < len)
+	if (Length > 0)
 	{
-		m_streamData.resize(len);
-	}
+		if (m_streamData.size() < len)
+		{
+			Expand(len);
+		}
 
-	Transform();
-	MemoryTools::Copy(Input, Offset, m_streamData, m_streamPosition, Length);
-	Transform();
-	m_streamPosition += Length;
+		Transform();
+		MemoryTools::Copy(Input, Offset, m_streamData, m_streamPosition, Length);
+		Transform();
+		m_streamPosition += Length;
+	}
 }
 
 void SecureStream::WriteByte(uint8_t Value)
 {
-	if (m_streamData.size() - m_streamPosition < 1)
+	if (m_streamPosition + 1 == 0)
 	{
-		m_streamData.resize(m_streamData.size() + 1);
+		throw CryptoProcessingException(CLASS_NAME, std::string("WriteByte"), std::string("The position exceeds the stream capacity!"), ErrorCodes::InvalidSize);
+	}
+
+	if (m_streamPosition >= m_streamData.size())
+	{
+		Expand(static_cast<size_t>(m_streamPosition) + 1);
 	}
 
 	Transform();
@@ -260,6 +290,15 @@ void SecureStream::WriteByte(uint8_t Value)
 
 //~~~Private Functions~~~//
 
+void SecureStream::Expand(size_t Length)
+{
+	// the new bytes are zeroes in the plain-text, so the resize is done on the decrypted state
+	m_streamData.reserve(Length);
+	Transform();
+	m_streamData.resize(Length);
+	Transform();
+}
+
 std::vector<uint8_t> SecureStream::GetSystemKey()
 {
 	std::vector<uint8_t> state(0);
diff --git a/CEX/SecureStream.h b/CEX/SecureStream.h
index c122368..61386f4 100644
--- a/CEX/SecureStream.h
+++ b/CEX/SecureStream.h
@@ -189,6 +189,7 @@ public:
 
 private:
 
+	void Expand(size_t Length);
 	std::vector<uint8_t> GetSystemKey();
 	void Transform();
 };
-- 
2.43.0


From 6a11d409fc1bdc73ab99cff5154e1567fa974b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:50 +0000
Subject: [PATCH 108/155] fix: SecureStream SetLength does not change the
 length

---
 CEX/SecureStream.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/CEX/SecureStream.cpp b/CEX/SecureStream.cpp
index 53a25ef..1d07631 100644
--- a/CEX/SecureStream.cpp
+++ b/CEX/SecureStream.cpp
@@ -219,7 +219,14 @@ void SecureStream::Seek(uint64_t Offset, SeekOrigin Origin)
 
 void SecureStream::SetLength(uint64_t Length)
 {
-	m_streamData.reserve(Length);
+	if (Length > m_streamData.size())
+	{
+		Expand(static_cast<size_t>(Length));
+	}
+	else
+	{
+		m_streamData.resize(static_cast<size_t>(Length));
+	}
 }
 
 std::vector<uint8_t> SecureStream::ToArray()
-- 
2.43.0


From 4b49af429cc5b843e608b457930ff19ee1cee21e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:02 +0000
Subject: [PATCH 109/155] fix: FileStream CopyTo writes zeroes or reads outside
 of its buffer

---
 CEX/FileStream.cpp | 39 ++++++++++-----------------------------
 1 file changed, 10 insertions(+), 29 deletions(-)

diff --git a/CEX/FileStream.cpp b/CEX/FileStream.cpp
index f6e177a..ecc340a 100644
--- a/CEX/FileStream.cpp
+++ b/CEX/FileStream.cpp
@@ -125,40 +125,21 @@ void FileStream::Close()
 
 void FileStream::CopyTo(IByteStream* Destination)
 {
-	CEXASSERT(m_fileSize != 0, "Stream is too int16_t");
+	const uint64_t FILPOS = m_filePosition;
+	std::vector<uint8_t> buffer(CHUNK_SIZE);
+	size_t len;
 
 	Destination->Seek(0, IO::SeekOrigin::Begin);
+	Seek(0, IO::SeekOrigin::Begin);
 
-	if (m_fileSize > CHUNK_SIZE)
+	do
 	{
-		const size_t ALNLEN = m_fileSize - (m_fileSize % CHUNK_SIZE);
-		std::vector<uint8_t> buffer(CHUNK_SIZE);
-		m_fileStream.seekg(0, std::ios::beg);
-
-		uint32_t bteCtr = 0;
-
-		if (ALNLEN >= CHUNK_SIZE)
-		{
-			while (bteCtr != ALNLEN)
-			{
-				m_fileStream.read(reinterpret_cast<char*>(buffer.data()), CHUNK_SIZE);
-				Destination->Write(buffer, bteCtr, CHUNK_SIZE);
-				bteCtr += CHUNK_SIZE;
-			}
-		}
-
-		if (ALNLEN != m_fileSize)
-		{
-			m_fileStream.read(reinterpret_cast<char*>(buffer.data()), m_fileSize - ALNLEN);
-			Destination->Write(buffer, ALNLEN, m_fileSize - ALNLEN);
-		}
-	}
-	else
-	{
-		std::vector<uint8_t> buffer(m_fileSize);
-		m_fileStream.seekg(0, std::ios::beg);
-		Destination->Write(buffer, 0, m_fileSize);
+		len = Read(buffer, 0, CHUNK_SIZE);
+		Destination->Write(buffer, 0, len);
 	}
+	while (len != 0);
+
+	Seek(FILPOS, IO::SeekOrigin::Begin);
 }
 
 void FileStream::Destroy()
-- 
2.43.0


From 35cc8bcd25c07a743ffcd593b798dfb076adc818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:02 +0000
Subject: [PATCH 110/155] fix: FileStream loses track of its length and
 position, and reads outside of the array

---
 CEX/FileStream.cpp | 143 +++++++++++++++++++++++++++++++++------------
 CEX/FileStream.h   |   6 ++
 2 files changed, 112 insertions(+), 37 deletions(-)

diff --git a/CEX/FileStream.cpp b/CEX/FileStream.cpp
index ecc340a..9827ef7 100644
--- a/CEX/FileStream.cpp
+++ b/CEX/FileStream.cpp
@@ -22,6 +22,8 @@ FileStream::FileStream(const std::string &FileName, FileAccess Access, FileModes
 	m_fileMode(Mode),
 	m_fileName(FileName),
 	m_isDestroyed(false),
+	m_isSynchronized(false),
+	m_isWriting(false),
 	m_filePosition(0),
 	m_fileSize(0),
 	m_fileWritten(0)
@@ -31,17 +33,28 @@ FileStream::FileStream(const std::string &FileName, FileAccess Access, FileModes
 		throw CryptoProcessingException(CLASS_NAME, std::string("Constructor"), std::string("The file does not exist!"), ErrorCodes::InvalidParam);
 	}
 
-	m_fileSize = FileSize(m_fileName);
-
 	try
 	{
-		m_fileStream.open(m_fileName, static_cast<int32_t>(Access) | static_cast<int32_t>(Mode));
+		m_fileStream.open(m_fileName, static_cast<std::ios::openmode>(static_cast<int32_t>(Access) | static_cast<int32_t>(Mode)) | std::ios::binary);
 		m_fileStream.unsetf(std::ios::skipws);
 	}
 	catch (std::exception&)
 	{
 		throw CryptoProcessingException(CLASS_NAME, std::string("Constructor"), std::string("The file could not be opened!"), ErrorCodes::UnKnown);
 	}
+
+	if (!m_fileStream.is_open())
+	{
+		throw CryptoProcessingException(CLASS_NAME, std::string("Constructor"), std::string("The file could not be opened!"), ErrorCodes::NotFound);
+	}
+
+	// opening can truncate the file
+	m_fileSize = FileSize(m_fileName);
+
+	if (m_fileMode == FileModes::AtEnd)
+	{
+		m_filePosition = m_fileSize;
+	}
 }
 
 FileStream::~FileStream()
@@ -185,17 +198,29 @@ void FileStream::Flush()
 
 size_t FileStream::Read(std::vector<uint8_t> &Output, size_t Offset, size_t Length)
 {
-	CEXASSERT(m_fileAccess != FileAccess::Write, "File is write only");
+	if (m_fileAccess == FileAccess::Write)
+	{
+		throw CryptoProcessingException(CLASS_NAME, std::string("Read"), std::string("The file is write only!"), ErrorCodes::IllegalOperation);
+	}
+
+	const uint64_t RMDLEN = (m_filePosition < m_fileSize) ? m_fileSize - m_filePosition : 0;
 
-	if (Offset + Length > m_fileSize - m_filePosition)
+	if (Length > RMDLEN)
 	{
-		Length = m_fileSize - m_filePosition;
+		Length = static_cast<size_t>(RMDLEN);
 	}
 
 	if (Length > 0)
 	{
+		if (Offset > Output.size() || Length > Output.size() - Offset)
+		{
+			throw CryptoProcessingException(CLASS_NAME, std::string("Read"), std::string("The output array is too small!"), ErrorCodes::InvalidSize);
+		}
+
 		// read the data:
+		Synchronize(false);
 		m_fileStream.read(reinterpret_cast<char*>(&Output[Offset]), Length);
+		Length = static_cast<size_t>(m_fileStream.gcount());
 		m_filePosition += Length;
 	}
 
@@ -204,38 +229,51 @@ size_t FileStream::Read(std::vector<uint8_t> &Output, size_t Offset, size_t Leng
 
 uint8_t FileStream::ReadByte()
 {
-	CEXASSERT(m_fileSize - m_filePosition >= 1, "Reached end of file");
-	CEXASSERT(m_fileAccess != FileAccess::Write, "File is write only");
+	std::vector<uint8_t> data(1);
 
-	uint8_t data(1);
-	m_fileStream.read(reinterpret_cast<char*>(&data), 1);
-	m_filePosition += 1;
+	if (Read(data, 0, 1) == 0)
+	{
+		throw CryptoProcessingException(CLASS_NAME, std::string("ReadByte"), std::string("The end of the file is reached!"), ErrorCodes::InvalidSize);
+	}
 
-	return data;
+	return data[0];
 }
 
 void FileStream::Reset()
 {
-	m_fileStream.seekg(0, std::ios::beg);
-	m_filePosition = 0;
+	Seek(0, SeekOrigin::Begin);
 }
 
 void FileStream::Seek(uint64_t Offset, SeekOrigin Origin)
 {
-	if (Origin == SeekOrigin::Begin)
+	uint64_t pos;
+
+	pos = Offset;
+
+	if (Origin == SeekOrigin::End)
 	{
-		m_fileStream.seekg(Offset, std::ios::beg);
+		pos += m_fileSize;
 	}
-	else if (Origin == SeekOrigin::End)
+	else if (Origin == SeekOrigin::Current)
 	{
-		m_fileStream.seekg(Offset, std::ios::end);
+		pos += m_filePosition;
 	}
 	else
 	{
-		m_fileStream.seekg(Offset, std::ios::cur);
+		// misra
 	}
 
-	m_filePosition = static_cast<uint64_t>(m_fileStream.tellg());
+	m_fileStream.clear();
+	m_fileStream.seekg(static_cast<std::streamoff>(pos), std::ios::beg);
+
+	if (!m_fileStream.good())
+	{
+		m_fileStream.clear();
+		throw CryptoProcessingException(CLASS_NAME, std::string("Seek"), std::string("The position is invalid!"), ErrorCodes::InvalidParam);
+	}
+
+	m_filePosition = pos;
+	m_isSynchronized = true;
 }
 
 void FileStream::SetLength(uint64_t Length)
@@ -265,33 +303,64 @@ void FileStream::SetLength(uint64_t Length)
 
 void FileStream::Write(const std::vector<uint8_t> &Input, size_t Offset, size_t Length)
 {
-	CEXASSERT(m_fileAccess != FileAccess::Read, "File is read only");
-
-	m_fileStream.write(reinterpret_cast<const char*>(&Input[Offset]), Length);
-	m_filePosition += Length;
-	m_fileSize += Length;
-	m_fileWritten += Length;
+	if (m_fileAccess == FileAccess::Read)
+	{
+		throw CryptoProcessingException(CLASS_NAME, std::string("Write"), std::string("The file is read only!"), ErrorCodes::IllegalOperation);
+	}
+	if (Offset > Input.size() || Length > Input.size() - Offset)
+	{
+		throw CryptoProcessingException(CLASS_NAME, std::string("Write"), std::string("The input array is too small!"), ErrorCodes::InvalidSize);
+	}
 
-	if (m_fileWritten >= CHUNK_SIZE)
+	if (Length > 0)
 	{
-		m_fileStream.flush();
-		m_fileWritten = 0;
+		if (m_fileMode == FileModes::Append)
+		{
+			m_filePosition = m_fileSize;
+		}
+
+		Synchronize(true);
+		m_fileStream.write(reinterpret_cast<const char*>(&Input[Offset]), Length);
+
+		if (!m_fileStream.good())
+		{
+			m_fileStream.clear();
+			m_isSynchronized = false;
+			throw CryptoProcessingException(CLASS_NAME, std::string("Write"), std::string("The file could not be written!"), ErrorCodes::NoAccess);
+		}
+
+		m_filePosition += Length;
+		m_fileWritten += Length;
+
+		if (m_filePosition > m_fileSize)
+		{
+			m_fileSize = m_filePosition;
+		}
+
+		if (m_fileWritten >= CHUNK_SIZE)
+		{
+			m_fileStream.flush();
+			m_fileWritten = 0;
+		}
 	}
 }
 
 void FileStream::WriteByte(uint8_t Value)
 {
-	CEXASSERT(m_fileAccess != FileAccess::Read, "File is read only");
+	const std::vector<uint8_t> data(1, Value);
+
+	Write(data, 0, 1);
+}
 
-	m_fileStream.write(reinterpret_cast<char*>(&Value), 1);
-	m_filePosition++;
-	m_fileSize++;
-	m_fileWritten++;
+//~~~Private Functions~~~//
 
-	if (m_fileWritten >= CHUNK_SIZE)
+void FileStream::Synchronize(bool Write)
+{
+	// the file has one position for reading and writing, it is set again whenever the direction changes
+	if (!m_isSynchronized || m_isWriting != Write)
 	{
-		m_fileStream.flush();
-		m_fileWritten = 0;
+		Seek(m_filePosition, SeekOrigin::Begin);
+		m_isWriting = Write;
 	}
 }
 
diff --git a/CEX/FileStream.h b/CEX/FileStream.h
index 36ec6c9..55b4af3 100644
--- a/CEX/FileStream.h
+++ b/CEX/FileStream.h
@@ -44,6 +44,8 @@ private:
 	static const std::string CLASS_NAME;
 
 	bool m_isDestroyed;
+	bool m_isSynchronized;
+	bool m_isWriting;
 	std::string m_fileName;
 	uint64_t m_filePosition;
 	uint64_t m_fileSize;
@@ -241,6 +243,10 @@ public:
 	///
 	/// <param name="Value">The uint8_t value to write</param>
 	void WriteByte(uint8_t Value) override;
+
+private:
+
+	void Synchronize(bool Write);
 };
 
 NAMESPACE_IOEND
-- 
2.43.0


From 05968d1aa65364cae0d8f2a2c4cc8bcfa95cf847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:02 +0000
Subject: [PATCH 111/155] fix: FileStream SetLength leaves its own length
 unchanged and leaks a file handle

---
 CEX/FileStream.cpp | 34 +++++++++++++++++++++-------------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/CEX/FileStream.cpp b/CEX/FileStream.cpp
index 9827ef7..d3d39af 100644
--- a/CEX/FileStream.cpp
+++ b/CEX/FileStream.cpp
@@ -278,27 +278,35 @@ void FileStream::Seek(uint64_t Offset, SeekOrigin Origin)
 
 void FileStream::SetLength(uint64_t Length)
 {
-	CEXASSERT(m_fileAccess != FileAccess::Read, "File is read only");
+	bool res;
 
-	if (Length < m_fileSize)
+	if (m_fileAccess == FileAccess::Read)
 	{
+		throw CryptoProcessingException(CLASS_NAME, std::string("SetLength"), std::string("The file is read only!"), ErrorCodes::IllegalOperation);
+	}
+
+	res = false;
+	m_fileStream.flush();
+
 #if defined(CEX_OS_WINDOWS)
-		int32_t handle = 0;
+	int32_t handle = 0;
 
-		if (_sopen_s(&handle, m_fileName.c_str(), _O_RDWR | _O_CREAT, _SH_DENYNO, _S_IREAD | _S_IWRITE) == 0)
-		{
-			_chsize(handle, Length);
-		}
+	if (_sopen_s(&handle, m_fileName.c_str(), _O_RDWR | _O_CREAT, _SH_DENYNO, _S_IREAD | _S_IWRITE) == 0)
+	{
+		res = (_chsize_s(handle, static_cast<int64_t>(Length)) == 0);
+		_close(handle);
+	}
 #elif defined(CEX_OS_POSIX)
-		truncate(m_fileName.c_str(), Length);
+	res = (truncate(m_fileName.c_str(), Length) == 0);
 #endif
-	}
-	else
+
+	if (!res)
 	{
-		m_fileStream.seekg(Length - 1, std::ios::beg);
-		m_fileStream.write("", 1);
-		m_fileStream.seekg(0, std::ios::beg);
+		throw CryptoProcessingException(CLASS_NAME, std::string("SetLength"), std::string("The file length could not be changed!"), ErrorCodes::NoAccess);
 	}
+
+	m_fileSize = Length;
+	m_isSynchronized = false;
 }
 
 void FileStream::Write(const std::vector<uint8_t> &Input, size_t Offset, size_t Length)
-- 
2.43.0


From 54480df51585d0f0c92588a5273ec74a5f172263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:37 +0000
Subject: [PATCH 112/155] fix: StreamReader reads beyond the end of its stream,
 and its array reader does not compile

---
 CEX/StreamReader.cpp | 11 +++++------
 CEX/StreamReader.h   | 32 +++++++++++++++++++++++---------
 2 files changed, 28 insertions(+), 15 deletions(-)

diff --git a/CEX/StreamReader.cpp b/CEX/StreamReader.cpp
index bdee4d3..37286a1 100644
--- a/CEX/StreamReader.cpp
+++ b/CEX/StreamReader.cpp
@@ -30,16 +30,15 @@ const size_t StreamReader::Position()
 
 uint8_t StreamReader::ReadByte()
 {
-	CEXASSERT(m_streamData.Position() + sizeof(uint8_t) <= m_streamData.Length(), "Exceeds stream length");
-
-	std::vector<uint8_t> data(1);
-	m_streamData.Read(data, 0, 1);
-	return data[0];
+	return m_streamData.ReadByte();
 }
 
 std::vector<uint8_t> StreamReader::ReadBytes(size_t Length)
 {
-	CEXASSERT(m_streamData.Position() + Length <= m_streamData.Length(), "Exceeds stream length");
+	if (Length > m_streamData.Length() - m_streamData.Position())
+	{
+		throw CryptoProcessingException(std::string("StreamReader"), std::string("ReadBytes"), std::string("The stream length is exceeded!"), ErrorCodes::InvalidSize);
+	}
 
 	std::vector<uint8_t> data(Length);
 	m_streamData.Read(data, 0, Length);
diff --git a/CEX/StreamReader.h b/CEX/StreamReader.h
index 0923ee1..c4f80aa 100644
--- a/CEX/StreamReader.h
+++ b/CEX/StreamReader.h
@@ -1,12 +1,15 @@
 #ifndef CEX_STREAMREADER_H
 #define CEX_STREAMREADER_H
 
+#include "CryptoProcessingException.h"
 #include "IntegerTools.h"
 #include "MemoryStream.h"
 #include "MemoryTools.h"
 
 NAMESPACE_IO
 
+using Enumeration::ErrorCodes;
+using Exception::CryptoProcessingException;
 using Tools::IntegerTools;
 using Tools::MemoryTools;
 
@@ -80,22 +83,30 @@ public:
 	/// <param name="Output">The T integer output array</param>
 	/// <param name="OutOffset">The starting offset in the T integer array</param>
 	/// <param name="Elements">The number of T integers to write to the array</param>
+	///
+	/// <returns>The number of bytes read</returns>
+	///
+	/// <exception cref="CryptoProcessingException">Thrown if the output array is too small</exception>
 	template <typename Array>
-	size_t Read(const Array &Output, size_t OutOffset, size_t Elements)
+	size_t Read(Array &Output, size_t OutOffset, size_t Elements)
 	{
-		const size_t OTPLEN = (m_streamData.Position() + (sizeof(Array::value_type) * Elements)) > m_streamData.size() ?
-			(m_streamData.size() - m_streamData.Position() - ()) :
-			sizeof(Array::value_type) * Elements;
+		const size_t VARLEN = sizeof(typename Array::value_type);
+		const size_t RMDLEN = static_cast<size_t>(m_streamData.Length() - m_streamData.Position());
 
-		if (sizeof(Array::value_type) > 1)
+		if (OutOffset > Output.size() || Elements > Output.size() - OutOffset)
 		{
-			IntegerTools::BlockToLe(m_streamData.ToArray(), m_streamData.Position(), Output, OutOffset, OTPLEN);
+			throw CryptoProcessingException(std::string("StreamReader"), std::string("Read"), std::string("The output array is too small!"), ErrorCodes::InvalidSize);
 		}
+
+		const size_t OTPLEN = IntegerTools::Min(VARLEN * Elements, RMDLEN);
+
+		if (OTPLEN != 0)
 		{
-			MemoryTools::Copy(m_streamData.ToArray(), m_streamData.Position(), val, OTPLEN);
+			IntegerTools::BlockToLe(m_streamData.ToArray(), m_streamData.Position(), Output, OutOffset, OTPLEN);
+			m_streamData.Seek(m_streamData.Position() + OTPLEN, SeekOrigin::Begin);
 		}
 
-		m_streamData.Seek(m_streamData.Position() + OTPLEN, SeekOrigin::Begin);
+		return OTPLEN;
 	}
 
 	/// <summary>
@@ -106,7 +117,10 @@ public:
 	{
 		const size_t VALLEN = sizeof(T);
 
-		CEXASSERT(m_streamData.Position() + VALLEN <= m_streamData.Length(), "Stream length exceeded");
+		if (VALLEN > m_streamData.Length() - m_streamData.Position())
+		{
+			throw CryptoProcessingException(std::string("StreamReader"), std::string("ReadInt"), std::string("The stream length is exceeded!"), ErrorCodes::InvalidSize);
+		}
 
 		T val = 0;
 
-- 
2.43.0


From 4e2dd781c3d3d0760b155eb206034432af1aaeae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:37 +0000
Subject: [PATCH 113/155] fix: StreamWriter reads beyond the end of the input
 array

---
 CEX/StreamWriter.h | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/CEX/StreamWriter.h b/CEX/StreamWriter.h
index a4fa1fb..ad98956 100644
--- a/CEX/StreamWriter.h
+++ b/CEX/StreamWriter.h
@@ -1,12 +1,15 @@
 #ifndef CEX_STREAMWRITER_H
 #define CEX_STREAMWRITER_H
 
+#include "CryptoProcessingException.h"
 #include "MemoryStream.h"
 #include "IntegerTools.h"
 #include "MemoryTools.h"
 
 NAMESPACE_IO
 
+using Enumeration::ErrorCodes;
+using Exception::CryptoProcessingException;
 using Tools::IntegerTools;
 using Tools::MemoryTools;
 
@@ -120,20 +123,18 @@ public:
 	template <typename Array>
 	void Write(const Array &Input, size_t InOffset, size_t Elements)
 	{
-		const size_t INPLEN = sizeof(Array::value_type) * Elements;
-		if (m_streamPosition + INPLEN > m_streamState.size())
+		if (InOffset > Input.size() || Elements > Input.size() - InOffset)
 		{
-			m_streamState.resize(m_streamPosition + INPLEN);
+			throw CryptoProcessingException(std::string("StreamWriter"), std::string("Write"), std::string("The input array is too small!"), ErrorCodes::InvalidSize);
 		}
 
-		if (sizeof(Array::value_type) > 1)
-		{
-			IntegerTools::LeToBlock(Input, InOffset, m_streamState, m_streamPosition, INPLEN);
-		}
+		const size_t INPLEN = sizeof(typename Array::value_type) * Elements;
+		if (m_streamPosition + INPLEN > m_streamState.size())
 		{
-			MemoryTools::Copy(Input, InOffset, m_streamState, m_streamPosition, INPLEN);
+			m_streamState.resize(m_streamPosition + INPLEN);
 		}
 
+		IntegerTools::LeToBlock(Input, InOffset, m_streamState, m_streamPosition, INPLEN);
 
 		m_streamPosition += INPLEN;
 	}
-- 
2.43.0


From f6df00f20ab9d9f6aa8db66cf2f8c9127ec27d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:21 +0000
Subject: [PATCH 114/155] fix: CipherStream does not transform an input of
 exactly one block

---
 CEX/CipherStream.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CEX/CipherStream.cpp b/CEX/CipherStream.cpp
index 7ff85e7..d9dbd8f 100644
--- a/CEX/CipherStream.cpp
+++ b/CEX/CipherStream.cpp
@@ -198,7 +198,7 @@ void CipherStream::BlockTransform(const std::vector<uint8_t> &Input, size_t InOf
 	const size_t BLKLEN = m_cipherEngine->BlockSize();
 	const size_t ALNLEN = (m_cipherState->CounterMode || m_cipherState->Encryption) ? (INPLEN / BLKLEN) * BLKLEN : (INPLEN < BLKLEN) ? 0 : ((INPLEN / BLKLEN) * BLKLEN) - BLKLEN;
 
-	if (INPLEN > BLKLEN)
+	if (INPLEN >= BLKLEN)
 	{
 		while (plen != ALNLEN)
 		{
@@ -295,7 +295,7 @@ void CipherStream::BlockTransform(IByteStream* InStream, IByteStream* OutStream)
 	inp.resize(BLKLEN);
 	otp.resize(BLKLEN);
 
-	if (INPLEN > BLKLEN)
+	if (INPLEN >= BLKLEN)
 	{
 		while (plen != ALNLEN)
 		{
-- 
2.43.0


From be3c8c4b128999144842c90e69801a629b2e0b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:21 +0000
Subject: [PATCH 115/155] fix: CipherStream decryption removes bytes from a
 message that is a multiple of the block size

---
 CEX/CipherStream.cpp | 57 +++++++++++++++++++++++++++++---------------
 CEX/CipherStream.h   |  1 +
 2 files changed, 39 insertions(+), 19 deletions(-)

diff --git a/CEX/CipherStream.cpp b/CEX/CipherStream.cpp
index d9dbd8f..3b610e8 100644
--- a/CEX/CipherStream.cpp
+++ b/CEX/CipherStream.cpp
@@ -173,6 +173,8 @@ void CipherStream::Write(const std::vector<uint8_t> &Input, size_t InOffset, std
 void CipherStream::BlockTransform(const std::vector<uint8_t> &Input, size_t InOffset, std::vector<uint8_t> &Output, size_t OutOffset)
 {
 	const size_t INPLEN = Input.size() - InOffset;
+	const size_t BLKLEN = m_cipherEngine->BlockSize();
+	const size_t ALNLEN = AlignedLength(INPLEN, BLKLEN);
 	size_t plen;
 
 	plen = 0;
@@ -180,9 +182,9 @@ void CipherStream::BlockTransform(const std::vector<uint8_t> &Input, size_t InOf
 	if (IsParallel())
 	{
 		const size_t PRLBLK = m_cipherEngine->ParallelBlockSize();
-		if (INPLEN > PRLBLK)
+		if (ALNLEN > PRLBLK)
 		{
-			const size_t PRCLEN = (INPLEN % PRLBLK != 0 || m_cipherState->CounterMode || m_cipherState->Encryption) ? (INPLEN / PRLBLK) * PRLBLK : ((INPLEN / PRLBLK) * PRLBLK) - PRLBLK;
+			const size_t PRCLEN = (ALNLEN / PRLBLK) * PRLBLK;
 
 			while (plen != PRCLEN)
 			{
@@ -195,9 +197,6 @@ void CipherStream::BlockTransform(const std::vector<uint8_t> &Input, size_t InOf
 		}
 	}
 
-	const size_t BLKLEN = m_cipherEngine->BlockSize();
-	const size_t ALNLEN = (m_cipherState->CounterMode || m_cipherState->Encryption) ? (INPLEN / BLKLEN) * BLKLEN : (INPLEN < BLKLEN) ? 0 : ((INPLEN / BLKLEN) * BLKLEN) - BLKLEN;
-
 	if (INPLEN >= BLKLEN)
 	{
 		while (plen != ALNLEN)
@@ -211,7 +210,7 @@ void CipherStream::BlockTransform(const std::vector<uint8_t> &Input, size_t InOf
 	}
 
 	// partial
-	if (ALNLEN != INPLEN)
+	if (ALNLEN != INPLEN || (m_cipherPadding != nullptr && !m_cipherState->CounterMode))
 	{
 		if (m_cipherState->CounterMode)
 		{
@@ -228,10 +227,7 @@ void CipherStream::BlockTransform(const std::vector<uint8_t> &Input, size_t InOf
 			const size_t FNLLEN = INPLEN - ALNLEN;
 			std::vector<uint8_t> inp(BLKLEN);
 			MemoryTools::Copy(Input, InOffset, inp, 0, FNLLEN);
-			if (FNLLEN != BLKLEN)
-			{
-				m_cipherPadding->AddPadding(inp, FNLLEN, inp.size());
-			}
+			m_cipherPadding->AddPadding(inp, FNLLEN, inp.size());
 			plen += BLKLEN;
 
 			if (Output.size() != plen)
@@ -262,6 +258,8 @@ void CipherStream::BlockTransform(const std::vector<uint8_t> &Input, size_t InOf
 void CipherStream::BlockTransform(IByteStream* InStream, IByteStream* OutStream)
 {
 	const size_t INPLEN = InStream->Length() - InStream->Position();
+	const size_t BLKLEN = m_cipherEngine->BlockSize();
+	const size_t ALNLEN = AlignedLength(INPLEN, BLKLEN);
 	size_t plen;
 	size_t pread;
 	std::vector<uint8_t> inp(0);
@@ -273,9 +271,9 @@ void CipherStream::BlockTransform(IByteStream* InStream, IByteStream* OutStream)
 	if (IsParallel())
 	{
 		const size_t PRLBLK = m_cipherEngine->ParallelBlockSize();
-		if (INPLEN > PRLBLK)
+		if (ALNLEN > PRLBLK)
 		{
-			const size_t PRCLEN = (INPLEN % PRLBLK != 0 || m_cipherState->CounterMode || m_cipherState->Encryption) ? (INPLEN / PRLBLK) * PRLBLK : ((INPLEN / PRLBLK) * PRLBLK) - PRLBLK;
+			const size_t PRCLEN = (ALNLEN / PRLBLK) * PRLBLK;
 			inp.resize(PRLBLK);
 			otp.resize(PRLBLK);
 
@@ -290,8 +288,6 @@ void CipherStream::BlockTransform(IByteStream* InStream, IByteStream* OutStream)
 		}
 	}
 
-	const size_t BLKLEN = m_cipherEngine->BlockSize();
-	const size_t ALNLEN = (m_cipherState->CounterMode || m_cipherState->Encryption) ? (INPLEN / BLKLEN) * BLKLEN : (INPLEN < BLKLEN) ? 0 : ((INPLEN / BLKLEN) * BLKLEN) - BLKLEN;
 	inp.resize(BLKLEN);
 	otp.resize(BLKLEN);
 
@@ -308,7 +304,7 @@ void CipherStream::BlockTransform(IByteStream* InStream, IByteStream* OutStream)
 	}
 
 	// partial
-	if (ALNLEN != INPLEN)
+	if (ALNLEN != INPLEN || (m_cipherPadding != nullptr && !m_cipherState->CounterMode))
 	{
 		if (m_cipherState->CounterMode)
 		{
@@ -323,10 +319,7 @@ void CipherStream::BlockTransform(IByteStream* InStream, IByteStream* OutStream)
 		{
 			const size_t FNLLEN = INPLEN - ALNLEN;
 			pread = InStream->Read(inp, 0, FNLLEN);
-			if (FNLLEN != BLKLEN)
-			{
-				m_cipherPadding->AddPadding(inp, pread, inp.size());
-			}
+			m_cipherPadding->AddPadding(inp, pread, inp.size());
 			m_cipherEngine->EncryptBlock(inp, 0, otp, 0);
 			OutStream->Write(otp, 0, BLKLEN);
 		}
@@ -342,6 +335,32 @@ void CipherStream::BlockTransform(IByteStream* InStream, IByteStream* OutStream)
 	CalculateProgress(INPLEN, OutStream->Position());
 }
 
+size_t CipherStream::AlignedLength(size_t Length, size_t BlockLength)
+{
+	size_t len;
+
+	len = Length - (Length % BlockLength);
+
+	if (!m_cipherState->CounterMode)
+	{
+		if (m_cipherPadding == nullptr || !m_cipherState->Encryption)
+		{
+			if (len != Length || (m_cipherPadding != nullptr && Length == 0))
+			{
+				throw CryptoProcessingException(CLASS_NAME, std::string("Write"), std::string("The input is not a multiple of the block size!"), ErrorCodes::InvalidSize);
+			}
+		}
+
+		if (m_cipherPadding != nullptr && !m_cipherState->Encryption)
+		{
+			// the last block contains the padding
+			len -= BlockLength;
+		}
+	}
+
+	return len;
+}
+
 void CipherStream::CalculateProgress(size_t Length, size_t Processed)
 {
 	if (Length >= Processed)
diff --git a/CEX/CipherStream.h b/CEX/CipherStream.h
index 8e34bc7..1db03e2 100644
--- a/CEX/CipherStream.h
+++ b/CEX/CipherStream.h
@@ -267,6 +267,7 @@ public:
 private:
 
 	void BlockTransform(const std::vector<uint8_t> &Input, size_t InOffset, std::vector<uint8_t> &Output, size_t OutOffset);
+	size_t AlignedLength(size_t Length, size_t BlockLength);
 	void BlockTransform(IByteStream* InStream, IByteStream* OutStream);
 	void CalculateProgress(size_t Length, size_t Processed);
 	static ICipherMode* GetCipherMode(BlockCiphers CipherType, CipherModes CipherModeType);
-- 
2.43.0


From 56f7380f14c210007d65772ab0a2a47887022222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:21 +0000
Subject: [PATCH 116/155] fix: CipherStream dereferences a null padding when
 the ECB mode gets a partial block

---
 CEX/CipherStream.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/CEX/CipherStream.cpp b/CEX/CipherStream.cpp
index 3b610e8..c131a86 100644
--- a/CEX/CipherStream.cpp
+++ b/CEX/CipherStream.cpp
@@ -52,7 +52,8 @@ CipherStream::CipherStream(BlockCiphers CipherType, CipherModes CipherModeType,
 	m_cipherState(new CipherState((CipherModeType == CipherModes::CTR || CipherModeType == CipherModes::ICM), true)),
 	m_cipherEngine(CipherModeType != CipherModes::None && CipherType != BlockCiphers::None ? GetCipherMode(CipherType, CipherModeType) :
 		throw CryptoProcessingException(CLASS_NAME, std::string("Constructor"), std::string("Digest type can not be none!"), ErrorCodes::IllegalOperation)),
-	m_cipherPadding(CipherModeType == CipherModes::CBC || CipherModeType == CipherModes::CFB || CipherModeType == CipherModes::OFB ? GetPaddingMode(PaddingType) : nullptr),
+	m_cipherPadding(CipherModeType == CipherModes::CBC || CipherModeType == CipherModes::CFB || CipherModeType == CipherModes::OFB ||
+		(CipherModeType == CipherModes::ECB && PaddingType != PaddingModes::None) ? GetPaddingMode(PaddingType) : nullptr),
 	m_legalKeySizes(m_cipherEngine->LegalKeySizes())
 {
 }
-- 
2.43.0


From 76e1bbfa1a19a4281298fdd0395d735122ec8266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:21 +0000
Subject: [PATCH 117/155] fix: CipherStream truncates the output array when it
 is written at an offset

---
 CEX/CipherStream.cpp | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/CEX/CipherStream.cpp b/CEX/CipherStream.cpp
index c131a86..3094b5c 100644
--- a/CEX/CipherStream.cpp
+++ b/CEX/CipherStream.cpp
@@ -173,13 +173,27 @@ void CipherStream::Write(const std::vector<uint8_t> &Input, size_t InOffset, std
 
 void CipherStream::BlockTransform(const std::vector<uint8_t> &Input, size_t InOffset, std::vector<uint8_t> &Output, size_t OutOffset)
 {
+	if (InOffset > Input.size())
+	{
+		throw CryptoProcessingException(CLASS_NAME, std::string("Write"), std::string("The input array is too small!"), ErrorCodes::InvalidSize);
+	}
+
 	const size_t INPLEN = Input.size() - InOffset;
+	const size_t OTPOFT = OutOffset;
 	const size_t BLKLEN = m_cipherEngine->BlockSize();
 	const size_t ALNLEN = AlignedLength(INPLEN, BLKLEN);
 	size_t plen;
 
 	plen = 0;
 
+	// the counter modes write the input length, the others at least the whole blocks before the last one
+	const size_t MINLEN = m_cipherState->CounterMode ? INPLEN : ALNLEN;
+
+	if (OutOffset > Output.size() || Output.size() - OutOffset < MINLEN)
+	{
+		throw CryptoProcessingException(CLASS_NAME, std::string("Write"), std::string("The output array is too small!"), ErrorCodes::InvalidSize);
+	}
+
 	if (IsParallel())
 	{
 		const size_t PRLBLK = m_cipherEngine->ParallelBlockSize();
@@ -231,9 +245,9 @@ void CipherStream::BlockTransform(const std::vector<uint8_t> &Input, size_t InOf
 			m_cipherPadding->AddPadding(inp, FNLLEN, inp.size());
 			plen += BLKLEN;
 
-			if (Output.size() != plen)
+			if (Output.size() != OTPOFT + plen)
 			{
-				Output.resize(plen);
+				Output.resize(OTPOFT + plen);
 			}
 
 			m_cipherEngine->EncryptBlock(inp, 0, Output, OutOffset);
@@ -243,13 +257,14 @@ void CipherStream::BlockTransform(const std::vector<uint8_t> &Input, size_t InOf
 			std::vector<uint8_t> otp(BLKLEN);
 			m_cipherEngine->DecryptBlock(Input, InOffset, otp, 0);
 			const size_t FNLLEN = m_cipherPadding->GetBlockLength(otp);
-			MemoryTools::Copy(otp, 0, Output, OutOffset, FNLLEN);
 			plen += FNLLEN;
 
-			if (Output.size() != plen)
+			if (Output.size() != OTPOFT + plen)
 			{
-				Output.resize(plen);
+				Output.resize(OTPOFT + plen);
 			}
+
+			MemoryTools::Copy(otp, 0, Output, OutOffset, FNLLEN);
 		}
 	}
 
-- 
2.43.0


From 2c467a2f6b1c5227cde092c3e15d23b6f53c14ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:21 +0000
Subject: [PATCH 118/155] fix: the stream processors divide by zero on an empty
 input

---
 CEX/CipherStream.cpp | 2 +-
 CEX/DigestStream.cpp | 2 +-
 CEX/MacStream.cpp    | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/CEX/CipherStream.cpp b/CEX/CipherStream.cpp
index 3094b5c..18401f3 100644
--- a/CEX/CipherStream.cpp
+++ b/CEX/CipherStream.cpp
@@ -379,7 +379,7 @@ size_t CipherStream::AlignedLength(size_t Length, size_t BlockLength)
 
 void CipherStream::CalculateProgress(size_t Length, size_t Processed)
 {
-	if (Length >= Processed)
+	if (Length != 0 && Length >= Processed)
 	{
 		double prc;
 		double progress;
diff --git a/CEX/DigestStream.cpp b/CEX/DigestStream.cpp
index abbb286..e06bfe1 100644
--- a/CEX/DigestStream.cpp
+++ b/CEX/DigestStream.cpp
@@ -134,7 +134,7 @@ void DigestStream::CalculateProgress(size_t Length, size_t Processed)
 
 	prc = static_cast<double>(Processed);
 
-	if (Length >= Processed)
+	if (Length != 0 && Length >= Processed)
 	{
 		prg = 100.0 * (prc / static_cast<double>(Length));
 
diff --git a/CEX/MacStream.cpp b/CEX/MacStream.cpp
index 861cbb8..232460e 100644
--- a/CEX/MacStream.cpp
+++ b/CEX/MacStream.cpp
@@ -148,7 +148,7 @@ void MacStream::CalculateProgress(size_t Length, size_t Processed)
 
 	prc = static_cast<double>(Processed);
 
-	if (Length >= Processed)
+	if (Length != 0 && Length >= Processed)
 	{
 		prg = 100.0 * (prc / static_cast<double>(Length));
 
-- 
2.43.0


From 5dece539a9f560d13fb636496376b953abb2cb76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:21 +0000
Subject: [PATCH 119/155] fix: the digest and mac streams read beyond the end
 of the input array

---
 CEX/DigestStream.cpp | 5 ++++-
 CEX/MacStream.cpp    | 7 +++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/CEX/DigestStream.cpp b/CEX/DigestStream.cpp
index e06bfe1..1f17858 100644
--- a/CEX/DigestStream.cpp
+++ b/CEX/DigestStream.cpp
@@ -95,7 +95,10 @@ std::vector<uint8_t> DigestStream::Compute(IByteStream* InStream)
 
 std::vector<uint8_t> DigestStream::Compute(const std::vector<uint8_t> &Input, size_t InOffset, size_t Length)
 {
-	CEXASSERT((Input.size() - InOffset) > 0 && Length + InOffset <= Input.size(), "The input array is too int16_t");
+	if (InOffset > Input.size() || Length > Input.size() - InOffset)
+	{
+		throw CryptoProcessingException(CLASS_NAME, std::string("Compute"), std::string("The input array is too small!"), ErrorCodes::InvalidSize);
+	}
 
 	CalculateInterval(Length);
 	m_digestEngine->Reset();
diff --git a/CEX/MacStream.cpp b/CEX/MacStream.cpp
index 232460e..8c83a57 100644
--- a/CEX/MacStream.cpp
+++ b/CEX/MacStream.cpp
@@ -89,11 +89,14 @@ std::vector<uint8_t> MacStream::Compute(IByteStream* InStream)
 std::vector<uint8_t> MacStream::Compute(const std::vector<uint8_t> &Input, size_t InOffset, size_t Length)
 {
 	CEXASSERT(m_streamState->Initialized, "The mac has not been initialized");
-	CEXASSERT((Input.size() - InOffset) > 0 && Length + InOffset <= Input.size(), "The input array is too int16_t");
+	if (InOffset > Input.size() || Length > Input.size() - InOffset)
+	{
+		throw CryptoProcessingException(CLASS_NAME, std::string("Compute"), std::string("The input array is too small!"), ErrorCodes::InvalidSize);
+	}
 
 	size_t plen;
 
-	plen = Length - InOffset;
+	plen = Length;
 	CalculateInterval(plen);
 
 	return Process(Input, InOffset, Length);
-- 
2.43.0


From 1cb5a9e5aa50ca454821d541a05a76319a5821e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:47 +0000
Subject: [PATCH 120/155] fix: MacFromName refuses KMAC128

---
 CEX/MacFromName.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/CEX/MacFromName.cpp b/CEX/MacFromName.cpp
index 383561a..cd0a2f7 100644
--- a/CEX/MacFromName.cpp
+++ b/CEX/MacFromName.cpp
@@ -93,6 +93,11 @@ IMac* MacFromName::GetInstance(Macs MacType)
 				mptr = new HMAC(SHA2Digests::SHA2512);
 				break;
 			}
+			case Macs::KMAC128:
+			{
+				mptr = new KMAC(KmacModes::KMAC128);
+				break;
+			}
 			case Macs::KMAC256:
 			{
 				mptr = new KMAC(KmacModes::KMAC256);
-- 
2.43.0


From 53065f8fc93424ccb45cf5e964392dccdb555547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:02 +0000
Subject: [PATCH 121/155] fix: an event listener that unsubscribes while it is
 called corrupts the iteration

---
 CEX/Event.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/CEX/Event.h b/CEX/Event.h
index 3a482b7..b7013d0 100644
--- a/CEX/Event.h
+++ b/CEX/Event.h
@@ -98,7 +98,10 @@ public:
 	{
 		typedef typename std::vector<Delegate<T>*>::iterator iter;
 
-		for (iter i = m_delegates.begin(); i != m_delegates.end(); ++i)
+		// a listener can subscribe or unsubscribe while it is called
+		std::vector<Delegate<T>*> listeners(m_delegates);
+
+		for (iter i = listeners.begin(); i != listeners.end(); ++i)
 		{
 			(*i)->operator()(param);
 		}
-- 
2.43.0


From 0c534489413e97f1ef1f236d826affcff066ca76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:57 +0000
Subject: [PATCH 122/155] fix: MemoryPool loses a block, and uses an invalid
 iterator, after a perfect fit

---
 CEX/MemoryPool.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CEX/MemoryPool.cpp b/CEX/MemoryPool.cpp
index c3801bc..22c64ce 100644
--- a/CEX/MemoryPool.cpp
+++ b/CEX/MemoryPool.cpp
@@ -94,7 +94,7 @@ void* MemoryPool::Allocate(size_t Length)
 					throw CryptoException(CLASS_NAME, std::string("Constructor"), std::string("MemoryPool pool is misaligned!"), ErrorCodes::InvalidState);
 				}
 
-				poolr = m_poolState->MemPool + FSTOFT;
+				return m_poolState->MemPool + FSTOFT;
 			}
 
 			if (((best == m_poolState->FreeList.end()) || (best->second > itrl->second)) && (itrl->second >= (Length + PadSize(itrl->first, ALNBIT))))
-- 
2.43.0


From c02ffea2b4d52d8314d4ab15eb131088468226b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:57 +0000
Subject: [PATCH 123/155] fix: MemoryPool hands out the same storage twice
 after a reset

---
 CEX/MemoryPool.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/CEX/MemoryPool.cpp b/CEX/MemoryPool.cpp
index 22c64ce..01b9a55 100644
--- a/CEX/MemoryPool.cpp
+++ b/CEX/MemoryPool.cpp
@@ -142,6 +142,7 @@ void* MemoryPool::Allocate(size_t Length)
 void MemoryPool::Reset()
 {
 	Clear(m_poolState->MemPool, 0, m_poolState->PoolSize);
+	m_poolState->FreeList.clear();
 	m_poolState->FreeList.push_back(std::make_pair(0, m_poolState->PoolSize));
 }
 
-- 
2.43.0


From 9d7a25d41bea0ec56fbe81571c2eb8142158afb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:57 +0000
Subject: [PATCH 124/155] fix: MemoryPool does not exclude threads from one
 another

---
 CEX/MemoryPool.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/CEX/MemoryPool.cpp b/CEX/MemoryPool.cpp
index 01b9a55..eb02ef4 100644
--- a/CEX/MemoryPool.cpp
+++ b/CEX/MemoryPool.cpp
@@ -13,6 +13,7 @@ public:
 
 	uint8_t AlignBit;
 	std::vector<std::pair<size_t, size_t>> FreeList;
+	std::mutex Lock;
 	size_t MaxAlloc;
 	uint8_t* MemPool;
 	size_t MinAlloc;
@@ -68,10 +69,9 @@ void* MemoryPool::Allocate(size_t Length)
 {
 	std::vector<std::pair<size_t, size_t>>::iterator best;
 	std::vector<std::pair<size_t, size_t>>::iterator itrl;
-	std::mutex m;
 	void* poolr;
 
-	std::lock_guard<std::mutex> lock(m);
+	std::lock_guard<std::mutex> lock(m_poolState->Lock);
 	poolr = nullptr;
 
 	if (Length <= m_poolState->PoolSize && Length >= m_poolState->MinAlloc && Length <= m_poolState->MaxAlloc)
@@ -151,8 +151,7 @@ bool MemoryPool::Deallocate(void* Pointer, size_t Length)
 	bool status;
 	std::vector<std::pair<size_t, size_t>>::iterator itrl;
 	std::vector<std::pair<size_t, size_t>>::iterator prev;
-	std::mutex m;
-	std::lock_guard<std::mutex> lock(m);
+	std::lock_guard<std::mutex> lock(m_poolState->Lock);
 
 	status = false;
 
-- 
2.43.0


From 365ffd29ced234e51e79ce6d2d892c74e2a50af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:57 +0000
Subject: [PATCH 125/155] fix: LockingAllocator never uses its locked pages

---
 CEX/LockingAllocator.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CEX/LockingAllocator.cpp b/CEX/LockingAllocator.cpp
index 1b06df7..95a8cb5 100644
--- a/CEX/LockingAllocator.cpp
+++ b/CEX/LockingAllocator.cpp
@@ -57,7 +57,7 @@ void* LockingAllocator::allocate(size_t Elements, size_t ElementSize)
 
 	ptr = nullptr;
 
-	if (m_memoryPool != nullptr && (ELMLEN / ElementSize != Elements))
+	if (m_memoryPool != nullptr && (ELMLEN / ElementSize == Elements))
 	{
 		ptr = m_memoryPool->Allocate(ELMLEN);
 	}
@@ -72,7 +72,7 @@ bool LockingAllocator::deallocate(void* Pointer, size_t Elements, size_t Element
 
 	ret = false;
 
-	if (m_memoryPool != nullptr && (ELMLEN / ElementSize != Elements))
+	if (m_memoryPool != nullptr && (ELMLEN / ElementSize == Elements))
 	{
 		ret = m_memoryPool->Deallocate(Pointer, ELMLEN);
 	}
-- 
2.43.0


From 77c1109b66ebf3936a9517937c6105bcf987e581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:57 +0000
Subject: [PATCH 126/155] fix: SecureMemory writes to a null pointer when
 nothing is freed

---
 CEX/SecureMemory.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CEX/SecureMemory.cpp b/CEX/SecureMemory.cpp
index c5137c7..ca5b00c 100644
--- a/CEX/SecureMemory.cpp
+++ b/CEX/SecureMemory.cpp
@@ -142,7 +142,7 @@ void SecureMemory::Erase(void* Pointer, size_t Length)
 
 void SecureMemory::Free(void* Pointer, size_t Length)
 {
-	if (Pointer != nullptr || Length != 0)
+	if (Pointer != nullptr && Length != 0)
 	{
 		
 #if defined(CEX_OS_POSIX)
-- 
2.43.0


From 82a504f3826e389cdaeee1af950f33e2f1168075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:57 +0000
Subject: [PATCH 127/155] fix: SecureExtract copies more elements than it was
 asked for

---
 CEX/SecureVector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CEX/SecureVector.h b/CEX/SecureVector.h
index b25a317..aaffffb 100644
--- a/CEX/SecureVector.h
+++ b/CEX/SecureVector.h
@@ -202,7 +202,7 @@ inline static void SecureExtract(const SecureVector<T> &Input, size_t InOffset,
 		Output.resize(OTPSZE);
 	}
 
-	MemoryTools::Copy(Input, InOffset, Output, OutOffset, Input.size() * sizeof(T));
+	MemoryTools::Copy(Input, InOffset, Output, OutOffset, Elements * sizeof(T));
 }
 
 /// <summary>
-- 
2.43.0


From d1d0216c51aafcfbda1873b40ef082695293c9fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:27 +0000
Subject: [PATCH 128/155] fix: the MACs and KDFs left copies of the key and of
 the inner state in temporary buffers

---
 CEX/CMAC.cpp     | 10 +++++++---
 CEX/GMAC.cpp     |  3 +++
 CEX/HKDF.cpp     |  6 ++++--
 CEX/HMAC.cpp     |  8 ++++++--
 CEX/KDF2.cpp     | 17 ++++++++++-------
 CEX/KPA.cpp      | 11 +++++++++++
 CEX/PBKDF2.cpp   |  9 ++++++---
 CEX/Poly1305.cpp |  8 ++++----
 8 files changed, 51 insertions(+), 21 deletions(-)

diff --git a/CEX/CMAC.cpp b/CEX/CMAC.cpp
index 5da16e2..733c892 100644
--- a/CEX/CMAC.cpp
+++ b/CEX/CMAC.cpp
@@ -164,11 +164,11 @@ size_t CMAC::Finalize(std::vector<uint8_t> &Output, size_t OutOffset)
 
 	if (m_cmacState->Position != BLOCK_SIZE)
 	{
-		MemoryTools::XOR(m_cmacState->LuKey->IV(), 0, m_cmacState->Buffer, 0, TagSize());
+		MemoryTools::XOR(m_cmacState->LuKey->SecureIV(), 0, m_cmacState->Buffer, 0, TagSize());
 	}
 	else
 	{
-		MemoryTools::XOR(m_cmacState->LuKey->Key(), 0, m_cmacState->Buffer, 0, TagSize());
+		MemoryTools::XOR(m_cmacState->LuKey->SecureKey(), 0, m_cmacState->Buffer, 0, TagSize());
 	}
 
 	m_cbcMode->EncryptBlock(m_cmacState->Buffer, 0, m_cmacState->State, 0);
@@ -219,7 +219,7 @@ void CMAC::Initialize(ISymmetricKey &Parameters)
 	}
 
 	// initialize the cipher
-	SymmetricKey kp(Parameters.Key(), tmpv, Parameters.Info());
+	SymmetricKey kp(Parameters.SecureKey(), SecureLock(tmpv), Parameters.SecureInfo());
 	m_cbcMode->Initialize(true, kp);
 
 	// generate the mac keys
@@ -229,6 +229,10 @@ void CMAC::Initialize(ISymmetricKey &Parameters)
 
 	// store them in a symmetric-key
 	m_cmacState->LuKey.reset(new SymmetricKey(k1, k2));
+	// erase the temporary keys
+	MemoryTools::Clear(k1, 0, k1.size());
+	MemoryTools::Clear(k2, 0, k2.size());
+	MemoryTools::Clear(lu, 0, lu.size());
 
 	// re-initialize the cipher
 	m_cbcMode->Initialize(true, kp);
diff --git a/CEX/GMAC.cpp b/CEX/GMAC.cpp
index 50c6a19..a4c0259 100644
--- a/CEX/GMAC.cpp
+++ b/CEX/GMAC.cpp
@@ -240,6 +240,9 @@ void GMAC::Initialize(ISymmetricKey &Parameters)
 		};
 
 		MemoryTools::Copy(tmpk, 0, m_gmacState->Hash, 0, tmpk.size() * sizeof(uint64_t));
+		// erase the temporary hash key
+		MemoryTools::Clear(tmpk, 0, tmpk.size() * sizeof(uint64_t));
+		MemoryTools::Clear(tmph, 0, tmph.size());
 	}
 
 	// initialize the nonce
diff --git a/CEX/HKDF.cpp b/CEX/HKDF.cpp
index d93d13b..1157c64 100644
--- a/CEX/HKDF.cpp
+++ b/CEX/HKDF.cpp
@@ -152,8 +152,10 @@ void HKDF::Extract(const SecureVector<uint8_t> &Key, const SecureVector<uint8_t>
 		m_hkdfGenerator->Initialize(kps);
 	}
 	
-	m_hkdfGenerator->Update(SecureUnlock(Key), 0, Key.size());
+	std::vector<uint8_t> tmpk = SecureUnlock(Key);
+	m_hkdfGenerator->Update(tmpk, 0, tmpk.size());
 	m_hkdfGenerator->Finalize(Output, 0);
+	MemoryTools::Clear(tmpk, 0, tmpk.size());
 }
 
 void HKDF::Generate(std::vector<uint8_t> &Output)
@@ -236,7 +238,7 @@ void HKDF::Initialize(ISymmetricKey &Parameters)
 
 	if (Parameters.KeySizes().InfoSize() != 0)
 	{
-		MemoryTools::Copy(Parameters.Info(), 0, m_hkdfState->Info, 0, m_hkdfState->Info.size());
+		MemoryTools::Copy(Parameters.SecureInfo(), 0, m_hkdfState->Info, 0, m_hkdfState->Info.size());
 	}
 
 	if (Parameters.KeySizes().IVSize() != 0)
diff --git a/CEX/HMAC.cpp b/CEX/HMAC.cpp
index bbe1e60..12b6f89 100644
--- a/CEX/HMAC.cpp
+++ b/CEX/HMAC.cpp
@@ -183,6 +183,8 @@ size_t HMAC::Finalize(std::vector<uint8_t> &Output, size_t OutOffset)
 	m_hmacGenerator->Update(tmpv, 0, tmpv.size());
 	m_hmacGenerator->Finalize(Output, OutOffset);
 	m_hmacGenerator->Update(m_hmacState->InputPad, 0, m_hmacState->InputPad.size());
+	// erase the inner hash
+	MemoryTools::Clear(tmpv, 0, tmpv.size());
 
 	return TagSize();
 }
@@ -227,13 +229,15 @@ void HMAC::Initialize(ISymmetricKey &Parameters)
 
 	if (klen > m_hmacGenerator->BlockSize())
 	{
-		m_hmacGenerator->Update(Parameters.Key(), 0, Parameters.KeySizes().KeySize());
+		std::vector<uint8_t> tmpk = Parameters.Key();
+		m_hmacGenerator->Update(tmpk, 0, tmpk.size());
+		MemoryTools::Clear(tmpk, 0, tmpk.size());
 		m_hmacGenerator->Finalize(m_hmacState->InputPad, 0);
 		klen = m_hmacGenerator->DigestSize();
 	}
 	else
 	{
-		MemoryTools::Copy(Parameters.Key(), 0, m_hmacState->InputPad, 0, klen);
+		MemoryTools::Copy(Parameters.SecureKey(), 0, m_hmacState->InputPad, 0, klen);
 	}
 
 	if (m_hmacGenerator->BlockSize() > klen)
diff --git a/CEX/KDF2.cpp b/CEX/KDF2.cpp
index eed3933..7e647a6 100644
--- a/CEX/KDF2.cpp
+++ b/CEX/KDF2.cpp
@@ -218,18 +218,18 @@ void KDF2::Initialize(ISymmetricKey &Parameters)
 
 		// add the key to state
 		m_kdf2State->State.resize(Parameters.KeySizes().KeySize());
-		MemoryTools::Copy(Parameters.Key(), 0, m_kdf2State->State, 0, m_kdf2State->State.size());
+		MemoryTools::Copy(Parameters.SecureKey(), 0, m_kdf2State->State, 0, m_kdf2State->State.size());
 
 		// resize the salt
 		m_kdf2State->Salt.resize(Parameters.KeySizes().IVSize() + Parameters.KeySizes().InfoSize());
 
 		// add nonce param to salt
-		MemoryTools::Copy(Parameters.IV(), 0, m_kdf2State->Salt, 0, Parameters.KeySizes().IVSize());
+		MemoryTools::Copy(Parameters.SecureIV(), 0, m_kdf2State->Salt, 0, Parameters.KeySizes().IVSize());
 
 		// add info as extension of salt
 		if (Parameters.KeySizes().InfoSize() > 0)
 		{
-			MemoryTools::Copy(Parameters.Info(), 0, m_kdf2State->Salt, Parameters.KeySizes().IVSize(), Parameters.KeySizes().InfoSize());
+			MemoryTools::Copy(Parameters.SecureInfo(), 0, m_kdf2State->Salt, Parameters.KeySizes().IVSize(), Parameters.KeySizes().InfoSize());
 		}
 	}
 	else
@@ -239,15 +239,15 @@ void KDF2::Initialize(ISymmetricKey &Parameters)
 		{
 			// pad the key to one block
 			m_kdf2State->State.resize(m_kdf2Generator->BlockSize());
-			MemoryTools::Copy(Parameters.Key(), 0, m_kdf2State->State, 0, Parameters.KeySizes().KeySize());
+			MemoryTools::Copy(Parameters.SecureKey(), 0, m_kdf2State->State, 0, Parameters.KeySizes().KeySize());
 		}
 		else
 		{
 			// split the key between state key and salt
 			m_kdf2State->State.resize(m_kdf2Generator->BlockSize());
-			MemoryTools::Copy(Parameters.Key(), 0, m_kdf2State->State, 0, m_kdf2Generator->BlockSize());
+			MemoryTools::Copy(Parameters.SecureKey(), 0, m_kdf2State->State, 0, m_kdf2Generator->BlockSize());
 			m_kdf2State->Salt.resize(Parameters.KeySizes().KeySize() - m_kdf2Generator->BlockSize());
-			MemoryTools::Copy(Parameters.Key(), m_kdf2Generator->BlockSize(), m_kdf2State->Salt, 0, m_kdf2State->Salt.size());
+			MemoryTools::Copy(Parameters.SecureKey(), m_kdf2Generator->BlockSize(), m_kdf2State->Salt, 0, m_kdf2State->Salt.size());
 		}
 
 		// add info as extension of salt
@@ -255,7 +255,7 @@ void KDF2::Initialize(ISymmetricKey &Parameters)
 		{
 			const size_t SLTLEN = m_kdf2State->Salt.size();
 			m_kdf2State->Salt.resize(SLTLEN + Parameters.KeySizes().InfoSize());
-			MemoryTools::Copy(Parameters.Info(), 0, m_kdf2State->Salt, SLTLEN, Parameters.KeySizes().InfoSize());
+			MemoryTools::Copy(Parameters.SecureInfo(), 0, m_kdf2State->Salt, SLTLEN, Parameters.KeySizes().InfoSize());
 		}
 	}
 
@@ -298,6 +298,9 @@ void KDF2::Expand(std::vector<uint8_t> &Output, size_t OutOffset, size_t Length,
 		OutOffset += PRCRMD;
 	}
 	while (Length != 0);
+
+	// erase the temporary hash
+	MemoryTools::Clear(tmph, 0, tmph.size());
 }
 
 void KDF2::Expand(SecureVector<uint8_t> &Output, size_t OutOffset, size_t Length, std::unique_ptr<Kdf2State> &State, std::unique_ptr<IDigest> &Generator)
diff --git a/CEX/KPA.cpp b/CEX/KPA.cpp
index 651661d..c46c9e9 100644
--- a/CEX/KPA.cpp
+++ b/CEX/KPA.cpp
@@ -271,6 +271,7 @@ KPA::KPA(KpaModes KbaModeType)
 
 		// reset the buffer and counters
 		MemoryTools::Clear(m_kbaState->Buffer, 0, m_kbaState->Buffer.size());
+		MemoryTools::Clear(fbuf, 0, fbuf.size());
 		m_kbaState->Position = 0;
 		m_kbaState->Processed = 0;
 
@@ -452,6 +453,12 @@ KPA::KPA(KpaModes KbaModeType)
 
 #endif
 
+#if defined(CEX_HAS_AVX512) || defined(CEX_HAS_AVX2)
+		MemoryTools::Clear(tmpi, 0, tmpi.size() * sizeof(uint64_t));
+#endif
+		MemoryTools::Clear(key, 0, key.size());
+		MemoryTools::Clear(pad, 0, pad.size());
+
 		// permute leaf nodes
 		KpaPermutex8(m_kbaState);
 		m_kbaState->IsInitialized = true;
@@ -707,6 +714,8 @@ KPA::KPA(KpaModes KbaModeType)
 			Ctx->State[7][i] = tmp[7];
 		}
 
+		MemoryTools::Clear(tmp, 0, tmp.size() * sizeof(uint64_t));
+
 #elif defined(CEX_HAS_AVX2)
 
 		std::vector<uint64_t> tmp(4);
@@ -725,6 +734,8 @@ KPA::KPA(KpaModes KbaModeType)
 			Ctx->State[7][i] = tmp[3];
 		}
 
+		MemoryTools::Clear(tmp, 0, tmp.size() * sizeof(uint64_t));
+
 #endif
 	}
 
diff --git a/CEX/PBKDF2.cpp b/CEX/PBKDF2.cpp
index 05ea879..1b2793d 100644
--- a/CEX/PBKDF2.cpp
+++ b/CEX/PBKDF2.cpp
@@ -226,7 +226,7 @@ void PBKDF2::Initialize(ISymmetricKey &Parameters)
 
 	// add the key to the state
 	m_pbkdf2State->State.resize(Parameters.KeySizes().KeySize());
-	MemoryTools::Copy(Parameters.Key(), 0, m_pbkdf2State->State, 0, m_pbkdf2State->State.size());
+	MemoryTools::Copy(Parameters.SecureKey(), 0, m_pbkdf2State->State, 0, m_pbkdf2State->State.size());
 
 	if (Parameters.KeySizes().IVSize() + Parameters.KeySizes().InfoSize() != 0)
 	{
@@ -241,13 +241,13 @@ void PBKDF2::Initialize(ISymmetricKey &Parameters)
 		// add the nonce param
 		if (Parameters.KeySizes().IVSize() != 0)
 		{
-			MemoryTools::Copy(Parameters.IV(), 0, m_pbkdf2State->Salt, 0, Parameters.KeySizes().IVSize());
+			MemoryTools::Copy(Parameters.SecureIV(), 0, m_pbkdf2State->Salt, 0, Parameters.KeySizes().IVSize());
 		}
 
 		// add info as extension of salt
 		if (Parameters.KeySizes().InfoSize() > 0)
 		{
-			MemoryTools::Copy(Parameters.Info(), 0, m_pbkdf2State->Salt, Parameters.KeySizes().IVSize(), Parameters.KeySizes().InfoSize());
+			MemoryTools::Copy(Parameters.SecureInfo(), 0, m_pbkdf2State->Salt, Parameters.KeySizes().IVSize(), Parameters.KeySizes().InfoSize());
 		}
 	}
 
@@ -296,6 +296,9 @@ void PBKDF2::Expand(std::vector<uint8_t> &Output, size_t OutOffset, size_t Lengt
 		IntegerTools::BeIncrement8(State->Counter, 0, sizeof(uint32_t));
 	} 
 	while (Length != 0);
+
+	// erase the temporary state
+	MemoryTools::Clear(tmps, 0, tmps.size());
 }
 
 void PBKDF2::Expand(SecureVector<uint8_t> &Output, size_t OutOffset, size_t Length, std::unique_ptr<Pbkdf2State> &State, std::unique_ptr<HMAC> &Generator)
diff --git a/CEX/Poly1305.cpp b/CEX/Poly1305.cpp
index 69cf8fd..10ff897 100644
--- a/CEX/Poly1305.cpp
+++ b/CEX/Poly1305.cpp
@@ -204,8 +204,8 @@ void Poly1305::Initialize(ISymmetricKey &Parameters)
 		throw CryptoMacException(Name(), std::string("Initialize"), std::string("Invalid key size, must be at least MinimumKeySize in length!"), ErrorCodes::InvalidKey);
 	}
 
-	const uint64_t T0 = IntegerTools::LeBytesTo64(Parameters.Key(), 0);
-	const uint64_t T1 = IntegerTools::LeBytesTo64(Parameters.Key(), sizeof(uint64_t));
+	const uint64_t T0 = IntegerTools::LeBytesTo64(Parameters.SecureKey(), 0);
+	const uint64_t T1 = IntegerTools::LeBytesTo64(Parameters.SecureKey(), sizeof(uint64_t));
 
 	if (IsInitialized() == true)
 	{
@@ -220,8 +220,8 @@ void Poly1305::Initialize(ISymmetricKey &Parameters)
 	m_poly1305State->State[4] = 0;
 	m_poly1305State->State[5] = 0;
 	// store pad
-	m_poly1305State->State[6] = IntegerTools::LeBytesTo64(Parameters.Key(), 2 * sizeof(uint64_t));
-	m_poly1305State->State[7] = IntegerTools::LeBytesTo64(Parameters.Key(), 3 * sizeof(uint64_t));
+	m_poly1305State->State[6] = IntegerTools::LeBytesTo64(Parameters.SecureKey(), 2 * sizeof(uint64_t));
+	m_poly1305State->State[7] = IntegerTools::LeBytesTo64(Parameters.SecureKey(), 3 * sizeof(uint64_t));
 
 	m_poly1305State->IsInitialized = true;
 }
-- 
2.43.0


From 74fc6ca6a9eaef62394a031dc3f702b40770d82b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:27 +0000
Subject: [PATCH 129/155] fix: the ciphers left key-stream, hash keys and key
 words in temporary buffers

---
 CEX/CFB.cpp       |  2 ++
 CEX/CSX512.cpp    |  1 +
 CEX/CTR.cpp       |  9 ++++++++-
 CEX/ChaChaP20.cpp |  1 +
 CEX/GCM.cpp       |  7 +++++++
 CEX/HBA.cpp       |  2 ++
 CEX/ICM.cpp       |  1 +
 CEX/RCS.cpp       |  1 +
 CEX/RWS.cpp       |  1 +
 CEX/SHX.cpp       |  2 +-
 CEX/TSX1024.cpp   | 40 ++++++++++++++++++++--------------------
 CEX/TSX256.cpp    | 16 ++++++++--------
 CEX/TSX512.cpp    | 24 ++++++++++++------------
 13 files changed, 65 insertions(+), 42 deletions(-)

diff --git a/CEX/CFB.cpp b/CEX/CFB.cpp
index 05583a8..31e3b97 100644
--- a/CEX/CFB.cpp
+++ b/CEX/CFB.cpp
@@ -244,6 +244,7 @@ void CFB::Decrypt128(const std::vector<uint8_t> &Input, size_t InOffset, std::ve
 
 	m_blockCipher->Transform(m_cfbState->IV, 0, tmpr, 0);
 	MemoryTools::Copy(tmpr, 0, Output, OutOffset, m_cfbState->RegisterSize);
+	MemoryTools::Clear(tmpr, 0, tmpr.size());
 
 	// left shift the register
 	if (m_cfbState->IV.size() - m_cfbState->RegisterSize > 0)
@@ -328,6 +329,7 @@ void CFB::Encrypt128(const std::vector<uint8_t> &Input, size_t InOffset, std::ve
 	// encrypt the register
 	m_blockCipher->Transform(m_cfbState->IV, 0, tmpr, 0);
 	MemoryTools::Copy(tmpr, 0, Output, OutOffset, m_cfbState->RegisterSize);
+	MemoryTools::Clear(tmpr, 0, tmpr.size());
 
 	// xor the ciphertext with the plaintext by block size bytes
 	for (i = 0; i < m_cfbState->RegisterSize; i++)
diff --git a/CEX/CSX512.cpp b/CEX/CSX512.cpp
index 8c4d9f0..d38dab3 100644
--- a/CEX/CSX512.cpp
+++ b/CEX/CSX512.cpp
@@ -640,6 +640,7 @@ void CSX512::Generate(std::unique_ptr<CSX512State> &State, std::vector<uint8_t>
 		IntegerTools::LeIncrementW(Counter);
 		const size_t FNLLEN = Length % BLOCK_SIZE;
 		MemoryTools::Copy(otp, 0, Output, OutOffset + (Length - FNLLEN), FNLLEN);
+		MemoryTools::Clear(otp, 0, otp.size());
 	}
 }
 
diff --git a/CEX/CTR.cpp b/CEX/CTR.cpp
index 6267d2e..4e27dbb 100644
--- a/CEX/CTR.cpp
+++ b/CEX/CTR.cpp
@@ -203,7 +203,7 @@ void CTR::Initialize(bool Encryption, ISymmetricKey &Parameters)
 	}
 
 	m_blockCipher->Initialize(true, Parameters);
-	MemoryTools::Copy(Parameters.IV(), 0, m_ctrState->Nonce, 0, m_ctrState->Nonce.size());
+	MemoryTools::Copy(Parameters.SecureIV(), 0, m_ctrState->Nonce, 0, m_ctrState->Nonce.size());
 	m_ctrState->Encryption = Encryption;
 	m_ctrState->Initialized = true;
 }
@@ -311,6 +311,8 @@ void CTR::Generate(std::vector<uint8_t> &Output, size_t OutOffset, size_t Length
 			m_blockCipher->Transform2048(tmpc, 0, Output, OutOffset + bctr);
 			bctr += AVX512BLK;
 		}
+
+		MemoryTools::Clear(tmpc, 0, tmpc.size());
 	}
 #elif defined(CEX_HAS_AVX2)
 	const size_t AVX2BLK = 8 * BLOCK_SIZE;
@@ -341,6 +343,8 @@ void CTR::Generate(std::vector<uint8_t> &Output, size_t OutOffset, size_t Length
 			m_blockCipher->Transform1024(tmpc, 0, Output, OutOffset + bctr);
 			bctr += AVX2BLK;
 		}
+
+		MemoryTools::Clear(tmpc, 0, tmpc.size());
 	}
 #elif defined(CEX_HAS_AVX)
 	const size_t AVXBLK = 4 * BLOCK_SIZE;
@@ -363,6 +367,8 @@ void CTR::Generate(std::vector<uint8_t> &Output, size_t OutOffset, size_t Length
 			m_blockCipher->Transform512(tmpc, 0, Output, OutOffset + bctr);
 			bctr += AVXBLK;
 		}
+
+		MemoryTools::Clear(tmpc, 0, tmpc.size());
 	}
 #endif
 
@@ -381,6 +387,7 @@ void CTR::Generate(std::vector<uint8_t> &Output, size_t OutOffset, size_t Length
 		IntegerTools::BeIncrement8(Counter);
 		const size_t RMDLEN = Length % BLOCK_SIZE;
 		MemoryTools::Copy(otp, 0, Output, OutOffset + (Length - RMDLEN), RMDLEN);
+		MemoryTools::Clear(otp, 0, otp.size());
 	}
 }
 
diff --git a/CEX/ChaChaP20.cpp b/CEX/ChaChaP20.cpp
index 4bfadb1..5d1946f 100644
--- a/CEX/ChaChaP20.cpp
+++ b/CEX/ChaChaP20.cpp
@@ -711,6 +711,7 @@ void ChaChaP20::Generate(std::unique_ptr<CSX256State> &State, std::array<uint32_
 		IntegerTools::LeIncrementW(Counter);
 		const size_t FNLLEN = Length % BLOCK_SIZE;
 		MemoryTools::Copy(otp, 0, Output, OutOffset + (Length - FNLLEN), FNLLEN);
+		MemoryTools::Clear(otp, 0, otp.size());
 	}
 }
 
diff --git a/CEX/GCM.cpp b/CEX/GCM.cpp
index 1652268..1a03a37 100644
--- a/CEX/GCM.cpp
+++ b/CEX/GCM.cpp
@@ -237,6 +237,9 @@ void GCM::Initialize(bool Encryption, ISymmetricKey &Parameters)
 		// initialize the ghash function
 		m_macAuthenticator->Reset();
 		m_macAuthenticator->Initialize(gkey);
+		// erase the temporary hash key
+		MemoryTools::Clear(gkey, 0, gkey.size() * sizeof(uint64_t));
+		MemoryTools::Clear(tmph, 0, tmph.size());
 		// store the key in a secure-vector
 		m_gcmState->Key.resize(Parameters.KeySizes().KeySize());
 		MemoryTools::Copy(Parameters.SecureKey(), 0, m_gcmState->Key, 0, m_gcmState->Key.size());
@@ -266,6 +269,7 @@ void GCM::Initialize(bool Encryption, ISymmetricKey &Parameters)
 		m_macAuthenticator->Multiply(SecureUnlock(m_gcmState->Buffer), tmpn, m_gcmState->Buffer.size());
 		m_macAuthenticator->Finalize(tmpn, 0, m_gcmState->Buffer.size());
 		MemoryTools::Copy(tmpn, 0, m_gcmState->Nonce, 0, m_gcmState->Nonce.size());
+		MemoryTools::Clear(tmpn, 0, tmpn.size());
 	}
 
 	// initialize the CTR mode
@@ -433,6 +437,9 @@ bool GCM::Verify(const std::vector<uint8_t> &Input, size_t Offset, size_t Length
 		MemoryTools::Copy(code, 0, m_gcmState->Tag, 0, TagSize());
 	}
 
+	// erase the expected code
+	MemoryTools::Clear(code, 0, code.size());
+
 	return ret;
 }
 
diff --git a/CEX/HBA.cpp b/CEX/HBA.cpp
index 80fc7fa..5335eda 100644
--- a/CEX/HBA.cpp
+++ b/CEX/HBA.cpp
@@ -529,6 +529,8 @@ bool HBA::Verify(const std::vector<uint8_t> &Input, size_t InOffset, size_t Leng
 
 	// constant-time comparison of cipher-text MAC and MAC code generated internally
 	ret = IntegerTools::Compare(m_hbaState->MacTag, 0, Input, InOffset, Length);
+	// erase the expected code
+	MemoryTools::Clear(code, 0, code.size());
 
 	return ret;
 }
diff --git a/CEX/ICM.cpp b/CEX/ICM.cpp
index 7030c51..4ec2402 100644
--- a/CEX/ICM.cpp
+++ b/CEX/ICM.cpp
@@ -389,6 +389,7 @@ void ICM::Generate(std::vector<uint8_t> &Output, size_t OutOffset, size_t Length
 		m_blockCipher->EncryptBlock(tmpc, 0, tmpr, 0);
 		const size_t FNLLEN = Length % BLOCK_SIZE;
 		MemoryTools::Copy(tmpr, 0, Output, OutOffset + (Length - FNLLEN), FNLLEN);
+		MemoryTools::Clear(tmpr, 0, tmpr.size());
 		IntegerTools::LeIncrement(Counter);
 	}
 }
diff --git a/CEX/RCS.cpp b/CEX/RCS.cpp
index bfad689..28fb9ed 100644
--- a/CEX/RCS.cpp
+++ b/CEX/RCS.cpp
@@ -803,6 +803,7 @@ void RCS::Generate(std::vector<uint8_t> &Output, size_t OutOffset, size_t Length
 		IntegerTools::LeIncrement(Counter, 16);
 		const size_t RMDLEN = Length % BLOCK_SIZE;
 		MemoryTools::Copy(otp, 0, Output, OutOffset + (Length - RMDLEN), RMDLEN);
+		MemoryTools::Clear(otp, 0, otp.size());
 	}
 }
 
diff --git a/CEX/RWS.cpp b/CEX/RWS.cpp
index b9c6a39..e981589 100644
--- a/CEX/RWS.cpp
+++ b/CEX/RWS.cpp
@@ -766,6 +766,7 @@ void RWS::Generate(std::vector<uint8_t> &Output, size_t OutOffset, size_t Length
 		IntegerTools::LeIncrement(Counter, 16);
 		const size_t RMDLEN = Length % BLOCK_SIZE;
 		MemoryTools::Copy(otp, 0, Output, OutOffset + (Length - RMDLEN), RMDLEN);
+		MemoryTools::Clear(otp, 0, otp.size());
 	}
 }
 
diff --git a/CEX/SHX.cpp b/CEX/SHX.cpp
index baad0f1..7ec0bd8 100644
--- a/CEX/SHX.cpp
+++ b/CEX/SHX.cpp
@@ -413,7 +413,7 @@ void SHX::StandardExpand(const SecureVector<uint8_t> &Key, std::unique_ptr<ShxSt
 		}
 	}
 
-	MemoryTools::Clear(tmpw, 0, tmpw.size());
+	MemoryTools::Clear(tmpw, 0, tmpw.size() * sizeof(uint32_t));
 	kctr = 0;
 
 	// step 4: create the working keys by processing with the Sbox and IP
diff --git a/CEX/TSX1024.cpp b/CEX/TSX1024.cpp
index 0606717..cf3f002 100644
--- a/CEX/TSX1024.cpp
+++ b/CEX/TSX1024.cpp
@@ -222,14 +222,14 @@ void TSX1024::Initialize(bool Encryption, ISymmetricKey &Parameters)
 	}
 
 	// copy nonce
-	m_tsx1024State->Nonce[0] = IntegerTools::LeBytesTo64(Parameters.IV(), 0);
-	m_tsx1024State->Nonce[1] = IntegerTools::LeBytesTo64(Parameters.IV(), 8);
+	m_tsx1024State->Nonce[0] = IntegerTools::LeBytesTo64(Parameters.SecureIV(), 0);
+	m_tsx1024State->Nonce[1] = IntegerTools::LeBytesTo64(Parameters.SecureIV(), 8);
 
 	if (Parameters.KeySizes().InfoSize() != 0)
 	{
 		// custom code
-		m_tsx1024State->Tweak[0] = IntegerTools::LeBytesTo64(Parameters.Info(), 0);
-		m_tsx1024State->Tweak[1] = IntegerTools::LeBytesTo64(Parameters.Info(), 8);
+		m_tsx1024State->Tweak[0] = IntegerTools::LeBytesTo64(Parameters.SecureInfo(), 0);
+		m_tsx1024State->Tweak[1] = IntegerTools::LeBytesTo64(Parameters.SecureInfo(), 8);
 	}
 	else
 	{
@@ -240,22 +240,22 @@ void TSX1024::Initialize(bool Encryption, ISymmetricKey &Parameters)
 
 	if (IsAuthenticator() == false)
 	{
-		m_tsx1024State->Key[0] = IntegerTools::LeBytesTo64(Parameters.Key(), 0);
-		m_tsx1024State->Key[1] = IntegerTools::LeBytesTo64(Parameters.Key(), 8);
-		m_tsx1024State->Key[2] = IntegerTools::LeBytesTo64(Parameters.Key(), 16);
-		m_tsx1024State->Key[3] = IntegerTools::LeBytesTo64(Parameters.Key(), 24);
-		m_tsx1024State->Key[4] = IntegerTools::LeBytesTo64(Parameters.Key(), 32);
-		m_tsx1024State->Key[5] = IntegerTools::LeBytesTo64(Parameters.Key(), 40);
-		m_tsx1024State->Key[6] = IntegerTools::LeBytesTo64(Parameters.Key(), 48);
-		m_tsx1024State->Key[7] = IntegerTools::LeBytesTo64(Parameters.Key(), 56);
-		m_tsx1024State->Key[8] = IntegerTools::LeBytesTo64(Parameters.Key(), 64);
-		m_tsx1024State->Key[9] = IntegerTools::LeBytesTo64(Parameters.Key(), 72);
-		m_tsx1024State->Key[10] = IntegerTools::LeBytesTo64(Parameters.Key(), 80);
-		m_tsx1024State->Key[11] = IntegerTools::LeBytesTo64(Parameters.Key(), 88);
-		m_tsx1024State->Key[12] = IntegerTools::LeBytesTo64(Parameters.Key(), 96);
-		m_tsx1024State->Key[13] = IntegerTools::LeBytesTo64(Parameters.Key(), 104);
-		m_tsx1024State->Key[14] = IntegerTools::LeBytesTo64(Parameters.Key(), 112);
-		m_tsx1024State->Key[15] = IntegerTools::LeBytesTo64(Parameters.Key(), 120);
+		m_tsx1024State->Key[0] = IntegerTools::LeBytesTo64(Parameters.SecureKey(), 0);
+		m_tsx1024State->Key[1] = IntegerTools::LeBytesTo64(Parameters.SecureKey(), 8);
+		m_tsx1024State->Key[2] = IntegerTools::LeBytesTo64(Parameters.SecureKey(), 16);
+		m_tsx1024State->Key[3] = IntegerTools::LeBytesTo64(Parameters.SecureKey(), 24);
+		m_tsx1024State->Key[4] = IntegerTools::LeBytesTo64(Parameters.SecureKey(), 32);
+		m_tsx1024State->Key[5] = IntegerTools::LeBytesTo64(Parameters.SecureKey(), 40);
+		m_tsx1024State->Key[6] = IntegerTools::LeBytesTo64(Parameters.SecureKey(), 48);
+		m_tsx1024State->Key[7] = IntegerTools::LeBytesTo64(Parameters.SecureKey(), 56);
+		m_tsx1024State->Key[8] = IntegerTools::LeBytesTo64(Parameters.SecureKey(), 64);
+		m_tsx1024State->Key[9] = IntegerTools::LeBytesTo64(Parameters.SecureKey(), 72);
+		m_tsx1024State->Key[10] = IntegerTools::LeBytesTo64(Parameters.SecureKey(), 80);
+		m_tsx1024State->Key[11] = IntegerTools::LeBytesTo64(Parameters.SecureKey(), 88);
+		m_tsx1024State->Key[12] = IntegerTools::LeBytesTo64(Parameters.SecureKey(), 96);
+		m_tsx1024State->Key[13] = IntegerTools::LeBytesTo64(Parameters.SecureKey(), 104);
+		m_tsx1024State->Key[14] = IntegerTools::LeBytesTo64(Parameters.SecureKey(), 112);
+		m_tsx1024State->Key[15] = IntegerTools::LeBytesTo64(Parameters.SecureKey(), 120);
 	}
 	else
 	{
diff --git a/CEX/TSX256.cpp b/CEX/TSX256.cpp
index 1b41773..e5bc55e 100644
--- a/CEX/TSX256.cpp
+++ b/CEX/TSX256.cpp
@@ -223,14 +223,14 @@ void TSX256::Initialize(bool Encryption, ISymmetricKey &Parameters)
 	}
 
 	// copy nonce
-	m_tsx256State->Nonce[0] = IntegerTools::LeBytesTo64(Parameters.IV(), 0);
-	m_tsx256State->Nonce[1] = IntegerTools::LeBytesTo64(Parameters.IV(), 8);
+	m_tsx256State->Nonce[0] = IntegerTools::LeBytesTo64(Parameters.SecureIV(), 0);
+	m_tsx256State->Nonce[1] = IntegerTools::LeBytesTo64(Parameters.SecureIV(), 8);
 
 	if (Parameters.KeySizes().InfoSize() != 0)
 	{
 		// custom code
-		m_tsx256State->Tweak[0] = IntegerTools::LeBytesTo64(Parameters.Info(), 0);
-		m_tsx256State->Tweak[1] = IntegerTools::LeBytesTo64(Parameters.Info(), 8);
+		m_tsx256State->Tweak[0] = IntegerTools::LeBytesTo64(Parameters.SecureInfo(), 0);
+		m_tsx256State->Tweak[1] = IntegerTools::LeBytesTo64(Parameters.SecureInfo(), 8);
 	}
 	else
 	{
@@ -241,10 +241,10 @@ void TSX256::Initialize(bool Encryption, ISymmetricKey &Parameters)
 
 	if (IsAuthenticator() == false)
 	{
-		m_tsx256State->Key[0] = IntegerTools::LeBytesTo64(Parameters.Key(), 0);
-		m_tsx256State->Key[1] = IntegerTools::LeBytesTo64(Parameters.Key(), 8);
-		m_tsx256State->Key[2] = IntegerTools::LeBytesTo64(Parameters.Key(), 16);
-		m_tsx256State->Key[3] = IntegerTools::LeBytesTo64(Parameters.Key(), 24);
+		m_tsx256State->Key[0] = IntegerTools::LeBytesTo64(Parameters.SecureKey(), 0);
+		m_tsx256State->Key[1] = IntegerTools::LeBytesTo64(Parameters.SecureKey(), 8);
+		m_tsx256State->Key[2] = IntegerTools::LeBytesTo64(Parameters.SecureKey(), 16);
+		m_tsx256State->Key[3] = IntegerTools::LeBytesTo64(Parameters.SecureKey(), 24);
 	}
 	else
 	{
diff --git a/CEX/TSX512.cpp b/CEX/TSX512.cpp
index 7b8cd41..e7ed163 100644
--- a/CEX/TSX512.cpp
+++ b/CEX/TSX512.cpp
@@ -222,14 +222,14 @@ void TSX512::Initialize(bool Encryption, ISymmetricKey &Parameters)
 	}
 
 	// copy nonce
-	m_tsx512State->Nonce[0] = IntegerTools::LeBytesTo64(Parameters.IV(), 0);
-	m_tsx512State->Nonce[1] = IntegerTools::LeBytesTo64(Parameters.IV(), 8);
+	m_tsx512State->Nonce[0] = IntegerTools::LeBytesTo64(Parameters.SecureIV(), 0);
+	m_tsx512State->Nonce[1] = IntegerTools::LeBytesTo64(Parameters.SecureIV(), 8);
 
 	if (Parameters.KeySizes().InfoSize() != 0)
 	{
 		// custom code
-		m_tsx512State->Tweak[0] = IntegerTools::LeBytesTo64(Parameters.Info(), 0);
-		m_tsx512State->Tweak[1] = IntegerTools::LeBytesTo64(Parameters.Info(), 8);
+		m_tsx512State->Tweak[0] = IntegerTools::LeBytesTo64(Parameters.SecureInfo(), 0);
+		m_tsx512State->Tweak[1] = IntegerTools::LeBytesTo64(Parameters.SecureInfo(), 8);
 	}
 	else
 	{
@@ -240,14 +240,14 @@ void TSX512::Initialize(bool Encryption, ISymmetricKey &Parameters)
 
 	if (IsAuthenticator() == false)
 	{
-		m_tsx512State->Key[0] = IntegerTools::LeBytesTo64(Parameters.Key(), 0);
-		m_tsx512State->Key[1] = IntegerTools::LeBytesTo64(Parameters.Key(), 8);
-		m_tsx512State->Key[2] = IntegerTools::LeBytesTo64(Parameters.Key(), 16);
-		m_tsx512State->Key[3] = IntegerTools::LeBytesTo64(Parameters.Key(), 24);
-		m_tsx512State->Key[4] = IntegerTools::LeBytesTo64(Parameters.Key(), 32);
-		m_tsx512State->Key[5] = IntegerTools::LeBytesTo64(Parameters.Key(), 40);
-		m_tsx512State->Key[6] = IntegerTools::LeBytesTo64(Parameters.Key(), 48);
-		m_tsx512State->Key[7] = IntegerTools::LeBytesTo64(Parameters.Key(), 56);
+		m_tsx512State->Key[0] = IntegerTools::LeBytesTo64(Parameters.SecureKey(), 0);
+		m_tsx512State->Key[1] = IntegerTools::LeBytesTo64(Parameters.SecureKey(), 8);
+		m_tsx512State->Key[2] = IntegerTools::LeBytesTo64(Parameters.SecureKey(), 16);
+		m_tsx512State->Key[3] = IntegerTools::LeBytesTo64(Parameters.SecureKey(), 24);
+		m_tsx512State->Key[4] = IntegerTools::LeBytesTo64(Parameters.SecureKey(), 32);
+		m_tsx512State->Key[5] = IntegerTools::LeBytesTo64(Parameters.SecureKey(), 40);
+		m_tsx512State->Key[6] = IntegerTools::LeBytesTo64(Parameters.SecureKey(), 48);
+		m_tsx512State->Key[7] = IntegerTools::LeBytesTo64(Parameters.SecureKey(), 56);
 	}
 	else
 	{
-- 
2.43.0


From 5a93c00539ea8d6fba705105984262fa3b0f089c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:27 +0000
Subject: [PATCH 130/155] fix: the generators left seed material and drawn
 numbers in temporary buffers

---
 CEX/BCG.cpp          |  4 ++--
 CEX/HCG.cpp          |  6 +++---
 CEX/SecureRandom.cpp | 42 +++++++++++++++++++++++++++++++++---------
 3 files changed, 38 insertions(+), 14 deletions(-)

diff --git a/CEX/BCG.cpp b/CEX/BCG.cpp
index cd3df12..5bf9468 100644
--- a/CEX/BCG.cpp
+++ b/CEX/BCG.cpp
@@ -276,7 +276,7 @@ void BCG::Initialize(ISymmetricKey &Parameters)
 	// copy the version string to the customization parameter
 	MemoryTools::Copy(BCG_INFO, 0, m_bcgState->Custom, 0, BCG_INFO.size());
 	// copy the user defined string to the customization parameter
-	MemoryTools::Copy(Parameters.Info(), 0, m_bcgState->Custom, BCG_INFO.size(), Parameters.KeySizes().InfoSize());
+	MemoryTools::Copy(Parameters.SecureInfo(), 0, m_bcgState->Custom, BCG_INFO.size(), Parameters.KeySizes().InfoSize());
 
 	// create the cSHAKE name string
 	std::string tmpn = Name();
@@ -288,7 +288,7 @@ void BCG::Initialize(ISymmetricKey &Parameters)
 	// copy the name string to state
 	MemoryTools::CopyFromObject(tmpn.data(), m_bcgState->Name, sizeof(uint16_t), tmpn.size());
 	// copy the nonce to state
-	MemoryTools::Copy(Parameters.IV(), 0, m_bcgState->Nonce, 0, BLOCK_SIZE);
+	MemoryTools::Copy(Parameters.SecureIV(), 0, m_bcgState->Nonce, 0, BLOCK_SIZE);
 
 	// initialize cSHAKE with k,c,n
 	Kdf::SHAKE gen(ShakeModes::SHAKE256);
diff --git a/CEX/HCG.cpp b/CEX/HCG.cpp
index 134dc30..99bc65a 100644
--- a/CEX/HCG.cpp
+++ b/CEX/HCG.cpp
@@ -266,17 +266,17 @@ void HCG::Initialize(ISymmetricKey &Parameters)
 	ArrayTools::AppendString(Name(), m_hcgState->Code);
 	ArrayTools::AppendValue(static_cast<uint16_t>(SecurityStrength()), m_hcgState->Code);
 	// add the optional custom distribution code
-	ArrayTools::AppendVector(Parameters.Info(), m_hcgState->Code); 
+	ArrayTools::AppendVector(Parameters.SecureInfo(), m_hcgState->Code); 
 
 	if (Parameters.KeySizes().IVSize() != 0)
 	{
 		// copy the nonce into the state counter
 		const size_t CTRLEN = IntegerTools::Min(Parameters.KeySizes().IVSize(), m_hcgState->Nonce.size());
-		MemoryTools::Copy(Parameters.IV(), 0, m_hcgState->Nonce, 0, CTRLEN);
+		MemoryTools::Copy(Parameters.SecureIV(), 0, m_hcgState->Nonce, 0, CTRLEN);
 	}
 
 	// initialize the HMAC
-	SymmetricKey kp(Parameters.Key());
+	SymmetricKey kp(Parameters.SecureKey());
 	m_hcgGenerator->Initialize(kp);
 
 	// increment the counter by the code size
diff --git a/CEX/SecureRandom.cpp b/CEX/SecureRandom.cpp
index b7db81b..c24c10d 100644
--- a/CEX/SecureRandom.cpp
+++ b/CEX/SecureRandom.cpp
@@ -78,6 +78,7 @@ void SecureRandom::Fill(std::vector<uint16_t> &Output, size_t Offset, size_t Ele
 	std::vector<uint8_t> buf(Elements * sizeof(uint16_t));
 	Generate(buf);
 	MemoryTools::Copy(buf, 0, Output, Offset, buf.size());
+	MemoryTools::Clear(buf, 0, buf.size());
 }
 
 void SecureRandom::Fill(SecureVector<uint16_t> &Output, size_t Offset, size_t Elements)
@@ -90,6 +91,7 @@ void SecureRandom::Fill(SecureVector<uint16_t> &Output, size_t Offset, size_t El
 	SecureVector<uint8_t> buf(Elements * sizeof(uint16_t));
 	Generate(buf);
 	MemoryTools::Copy(buf, 0, Output, Offset, buf.size());
+	MemoryTools::Clear(buf, 0, buf.size());
 }
 
 void SecureRandom::Fill(std::vector<uint32_t> &Output, size_t Offset, size_t Elements)
@@ -102,6 +104,7 @@ void SecureRandom::Fill(std::vector<uint32_t> &Output, size_t Offset, size_t Ele
 	std::vector<uint8_t> buf(Elements * sizeof(uint32_t));
 	Generate(buf);
 	MemoryTools::Copy(buf, 0, Output, Offset, buf.size());
+	MemoryTools::Clear(buf, 0, buf.size());
 }
 
 void SecureRandom::Fill(SecureVector<uint32_t> &Output, size_t Offset, size_t Elements)
@@ -114,6 +117,7 @@ void SecureRandom::Fill(SecureVector<uint32_t> &Output, size_t Offset, size_t El
 	SecureVector<uint8_t> buf(Elements * sizeof(uint32_t));
 	Generate(buf);
 	MemoryTools::Copy(buf, 0, Output, Offset, buf.size());
+	MemoryTools::Clear(buf, 0, buf.size());
 }
 
 void SecureRandom::Fill(std::vector<uint64_t> &Output, size_t Offset, size_t Elements)
@@ -126,6 +130,7 @@ void SecureRandom::Fill(std::vector<uint64_t> &Output, size_t Offset, size_t Ele
 	std::vector<uint8_t> buf(Elements * sizeof(uint64_t));
 	Generate(buf);
 	MemoryTools::Copy(buf, 0, Output, Offset, buf.size());
+	MemoryTools::Clear(buf, 0, buf.size());
 }
 
 void SecureRandom::Fill(SecureVector<uint64_t> &Output, size_t Offset, size_t Elements)
@@ -138,6 +143,7 @@ void SecureRandom::Fill(SecureVector<uint64_t> &Output, size_t Offset, size_t El
 	SecureVector<uint8_t> buf(Elements * sizeof(uint64_t));
 	Generate(buf);
 	MemoryTools::Copy(buf, 0, Output, Offset, buf.size());
+	MemoryTools::Clear(buf, 0, buf.size());
 }
 
 std::vector<uint8_t> SecureRandom::Generate(size_t Length)
@@ -244,32 +250,40 @@ char SecureRandom::NextChar()
 {
 	std::vector<uint8_t> smp(sizeof(char));
 	Generate(smp);
+	const auto VAL = BitConverter::ToChar(smp, 0);
+	MemoryTools::Clear(smp, 0, smp.size());
 
-	return BitConverter::ToChar(smp, 0);
+	return VAL;
 }
 
 uint8_t SecureRandom::NextUChar()
 {
 	std::vector<uint8_t> smp(sizeof(char));
 	Generate(smp);
+	const auto VAL = BitConverter::ToUChar(smp, 0);
+	MemoryTools::Clear(smp, 0, smp.size());
 
-	return BitConverter::ToUChar(smp, 0);
+	return VAL;
 }
 
 double SecureRandom::NextDouble()
 {
 	std::vector<uint8_t> smp(sizeof(double));
 	Generate(smp);
+	const auto VAL = BitConverter::ToDouble(smp, 0);
+	MemoryTools::Clear(smp, 0, smp.size());
 
-	return BitConverter::ToDouble(smp, 0);
+	return VAL;
 }
 
 int16_t SecureRandom::NextInt16()
 {
 	std::vector<uint8_t> smp(sizeof(int16_t));
 	Generate(smp);
+	const auto VAL = BitConverter::ToInt16(smp, 0);
+	MemoryTools::Clear(smp, 0, smp.size());
 
-	return BitConverter::ToInt16(smp, 0);
+	return VAL;
 }
 
 int16_t SecureRandom::NextInt16(int16_t Maximum)
@@ -328,8 +342,10 @@ uint16_t SecureRandom::NextUInt16()
 {
 	std::vector<uint8_t> smp(sizeof(uint16_t));
 	Generate(smp);
+	const auto VAL = BitConverter::ToUInt16(smp, 0);
+	MemoryTools::Clear(smp, 0, smp.size());
 
-	return BitConverter::ToUInt16(smp, 0);
+	return VAL;
 }
 
 uint16_t SecureRandom::NextUInt16(uint16_t Maximum)
@@ -390,8 +406,10 @@ int32_t SecureRandom::NextInt32()
 {
 	std::vector<uint8_t> smp(sizeof(int32_t));
 	Generate(smp);
+	const auto VAL = BitConverter::ToInt32(smp, 0);
+	MemoryTools::Clear(smp, 0, smp.size());
 
-	return BitConverter::ToInt32(smp, 0);
+	return VAL;
 }
 
 int32_t SecureRandom::NextInt32(int32_t Maximum)
@@ -450,8 +468,10 @@ uint32_t SecureRandom::NextUInt32()
 {
 	std::vector<uint8_t> smp(sizeof(uint32_t));
 	Generate(smp);
+	const auto VAL = BitConverter::ToUInt32(smp, 0);
+	MemoryTools::Clear(smp, 0, smp.size());
 
-	return BitConverter::ToUInt32(smp, 0);
+	return VAL;
 }
 
 uint32_t SecureRandom::NextUInt32(uint32_t Maximum)
@@ -512,8 +532,10 @@ int64_t SecureRandom::NextInt64()
 {
 	std::vector<uint8_t> smp(sizeof(int64_t));
 	Generate(smp);
+	const auto VAL = BitConverter::ToInt64(smp, 0);
+	MemoryTools::Clear(smp, 0, smp.size());
 
-	return BitConverter::ToInt64(smp, 0);
+	return VAL;
 }
 
 int64_t SecureRandom::NextInt64(int64_t Maximum)
@@ -572,8 +594,10 @@ uint64_t SecureRandom::NextUInt64()
 {
 	std::vector<uint8_t> smp(sizeof(uint64_t));
 	Generate(smp);
+	const auto VAL = BitConverter::ToUInt64(smp, 0);
+	MemoryTools::Clear(smp, 0, smp.size());
 
-	return BitConverter::ToUInt64(smp, 0);
+	return VAL;
 }
 
 uint64_t SecureRandom::NextUInt64(uint64_t Maximum)
-- 
2.43.0


From a046f2cbcc325800fa1f07d9241cf5910258a3fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:27 +0000
Subject: [PATCH 131/155] fix: cloning, serializing and unlocking a symmetric
 key left copies of it in temporary buffers

---
 CEX/SymmetricKey.cpp       | 14 +++++++-------
 CEX/SymmetricSecureKey.cpp | 32 ++++++++++++++++++++------------
 2 files changed, 27 insertions(+), 19 deletions(-)

diff --git a/CEX/SymmetricKey.cpp b/CEX/SymmetricKey.cpp
index 7472940..25c3e0a 100644
--- a/CEX/SymmetricKey.cpp
+++ b/CEX/SymmetricKey.cpp
@@ -197,7 +197,7 @@ const SecureVector<uint8_t> SymmetricKey::SecureIV()
 
 SymmetricKey* SymmetricKey::Clone()
 {
-	return new SymmetricKey(Key(), IV(), Info());
+	return new SymmetricKey(SecureKey(), SecureIV(), SecureInfo());
 }
 
 void SymmetricKey::Reset()
@@ -263,9 +263,9 @@ SecureVector<uint8_t> SymmetricKey::Serialize(SymmetricKey &KeyParams)
 		throw CryptoSymmetricException(std::string("SymmetricKey"), std::string("Serialize"), std::string("The key is too large to be serialized!"), ErrorCodes::InvalidSize);
 	}
 
-	klen = static_cast<uint16_t>(KeyParams.Key().size());
-	nlen = static_cast<uint16_t>(KeyParams.IV().size());
-	ilen = static_cast<uint16_t>(KeyParams.Info().size());
+	klen = static_cast<uint16_t>(KeyParams.KeySizes().KeySize());
+	nlen = static_cast<uint16_t>(KeyParams.KeySizes().IVSize());
+	ilen = static_cast<uint16_t>(KeyParams.KeySizes().InfoSize());
 
 	ArrayTools::AppendVector(IntegerTools::Le16ToBytes<SecureVector<uint8_t>>(klen), tmpr);
 	ArrayTools::AppendVector(IntegerTools::Le16ToBytes<SecureVector<uint8_t>>(nlen), tmpr);
@@ -273,15 +273,15 @@ SecureVector<uint8_t> SymmetricKey::Serialize(SymmetricKey &KeyParams)
 
 	if (klen > 0)
 	{
-		ArrayTools::AppendVector(KeyParams.Key(), tmpr);
+		ArrayTools::AppendVector(KeyParams.SecureKey(), tmpr);
 	}
 	if (nlen > 0)
 	{
-		ArrayTools::AppendVector(KeyParams.IV(), tmpr);
+		ArrayTools::AppendVector(KeyParams.SecureIV(), tmpr);
 	}
 	if (ilen > 0)
 	{
-		ArrayTools::AppendVector(KeyParams.Info(), tmpr);
+		ArrayTools::AppendVector(KeyParams.SecureInfo(), tmpr);
 	}
 
 	return tmpr;
diff --git a/CEX/SymmetricSecureKey.cpp b/CEX/SymmetricSecureKey.cpp
index 464604c..e72ce7a 100644
--- a/CEX/SymmetricSecureKey.cpp
+++ b/CEX/SymmetricSecureKey.cpp
@@ -397,8 +397,8 @@ SymmetricSecureKey* SymmetricSecureKey::Clone()
 {
 	// a key created without a salt uses the default security policy
 	return (m_secureState->Salt.size() != 0) ?
-		new SymmetricSecureKey(Key(), IV(), Info(), m_secureState->Policy, SecureUnlock(m_secureState->Salt)) :
-		new SymmetricSecureKey(Key(), IV(), Info());
+		new SymmetricSecureKey(SecureKey(), SecureIV(), SecureInfo(), m_secureState->Policy, m_secureState->Salt) :
+		new SymmetricSecureKey(SecureKey(), SecureIV(), SecureInfo());
 }
 
 void SymmetricSecureKey::Reset()
@@ -464,9 +464,9 @@ SecureVector<uint8_t> SymmetricSecureKey::Serialize(SymmetricSecureKey &KeyParam
 		throw CryptoSymmetricException(CLASS_NAME, std::string("Serialize"), std::string("The key is too large to be serialized!"), ErrorCodes::InvalidSize);
 	}
 
-	klen = static_cast<uint16_t>(KeyParams.Key().size());
-	nlen = static_cast<uint16_t>(KeyParams.IV().size());
-	ilen = static_cast<uint16_t>(KeyParams.Info().size());
+	klen = static_cast<uint16_t>(KeyParams.KeySizes().KeySize());
+	nlen = static_cast<uint16_t>(KeyParams.KeySizes().IVSize());
+	ilen = static_cast<uint16_t>(KeyParams.KeySizes().InfoSize());
 
 	ArrayTools::AppendVector(IntegerTools::Le16ToBytes<SecureVector<uint8_t>>(klen), tmpr);
 	ArrayTools::AppendVector(IntegerTools::Le16ToBytes<SecureVector<uint8_t>>(nlen), tmpr);
@@ -474,15 +474,15 @@ SecureVector<uint8_t> SymmetricSecureKey::Serialize(SymmetricSecureKey &KeyParam
 
 	if (klen > 0)
 	{
-		ArrayTools::AppendVector(KeyParams.Key(), tmpr);
+		ArrayTools::AppendVector(KeyParams.SecureKey(), tmpr);
 	}
 	if (nlen > 0)
 	{
-		ArrayTools::AppendVector(KeyParams.IV(), tmpr);
+		ArrayTools::AppendVector(KeyParams.SecureIV(), tmpr);
 	}
 	if (ilen > 0)
 	{
-		ArrayTools::AppendVector(KeyParams.Info(), tmpr);
+		ArrayTools::AppendVector(KeyParams.SecureInfo(), tmpr);
 	}
 
 	return tmpr;
@@ -492,7 +492,7 @@ SecureVector<uint8_t> SymmetricSecureKey::Serialize(SymmetricSecureKey &KeyParam
 
 void SymmetricSecureKey::Encipher(std::unique_ptr<SecureKeyState> &State)
 {
-	IStreamCipher* cpr = GetStreamCipher(State->Policy);
+	std::unique_ptr<IStreamCipher> cpr(GetStreamCipher(State->Policy));
 	SymmetricKeySize ksc = cpr->LegalKeySizes()[0];
 	SecureVector<uint8_t> seed(ksc.KeySize() + ksc.IVSize());
 	std::vector<uint8_t> tmpt(0);
@@ -519,11 +519,15 @@ void SymmetricSecureKey::Encipher(std::unique_ptr<SecureKeyState> &State)
 	cpr->Transform(tmpt, 0, cpt, 0, tmpt.size());
 	// copy the encrypted cipher-text to secure state and erase buffer
 	State->State = SecureLockClear(cpt);
+	// erase the temporary key and the plain-text
+	MemoryTools::Clear(tmpt, 0, tmpt.size());
+	MemoryTools::Clear(tmpk, 0, tmpk.size());
+	MemoryTools::Clear(tmpn, 0, tmpn.size());
 }
 
 void SymmetricSecureKey::Extract(std::unique_ptr<SecureKeyState> &State, size_t StateOffset, SecureVector<uint8_t> &Output, size_t Length)
 {
-	IStreamCipher* cpr = GetStreamCipher(State->Policy);
+	std::unique_ptr<IStreamCipher> cpr(GetStreamCipher(State->Policy));
 	const size_t CPTSZE = cpr->IsAuthenticator() ? State->State.size() - cpr->TagSize() : State->State.size();
 	SymmetricKeySize ksc = cpr->LegalKeySizes()[0];
 	SecureVector<uint8_t> seed(ksc.KeySize() + ksc.IVSize());
@@ -545,8 +549,10 @@ void SymmetricSecureKey::Extract(std::unique_ptr<SecureKeyState> &State, size_t
 	MemoryTools::Clear(cpt, 0, cpt.size());
 	// copy the decrypted key to output
 	MemoryTools::Copy(tmpt, StateOffset, Output, 0, Length);
-	// erase the temp state
+	// erase the temp state and the cipher key
 	MemoryTools::Clear(tmpt, 0, tmpt.size());
+	MemoryTools::Clear(tmpk, 0, tmpk.size());
+	MemoryTools::Clear(tmpn, 0, tmpn.size());
 }
 
 IStreamCipher* SymmetricSecureKey::GetStreamCipher(SecurityPolicy Policy)
@@ -637,8 +643,10 @@ void SymmetricSecureKey::GetSystemKey(SecurityPolicy Policy, const SecureVector<
 	}
 
 	SHAKE gen(mode);
-	gen.Initialize(cust, SecureUnlock(Salt));
+	std::vector<uint8_t> tmps = SecureUnlock(Salt);
+	gen.Initialize(cust, tmps);
 	gen.Generate(Output, 0, Output.size());
+	MemoryTools::Clear(tmps, 0, tmps.size());
 }
 
 NAMESPACE_CIPHEREND
-- 
2.43.0


From a500b4d8f320ca191c50b4eced8872b920dc9ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:27 +0000
Subject: [PATCH 132/155] fix: the secure stream released its previous contents
 and its key without erasing them

---
 CEX/SecureStream.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/CEX/SecureStream.cpp b/CEX/SecureStream.cpp
index 1d07631..03e16ed 100644
--- a/CEX/SecureStream.cpp
+++ b/CEX/SecureStream.cpp
@@ -129,6 +129,7 @@ const uint64_t SecureStream::Position()
 
 void SecureStream::Close()
 {
+	MemoryTools::Clear(m_streamData, 0, m_streamData.size());
 	m_streamData.clear();
 	m_streamPosition = 0;
 }
@@ -191,6 +192,7 @@ uint8_t SecureStream::ReadByte()
 
 void SecureStream::Reset()
 {
+	MemoryTools::Clear(m_streamData, 0, m_streamData.size());
 	m_streamData.clear();
 	m_streamData.resize(0);
 	m_streamPosition = 0;
@@ -300,9 +302,12 @@ void SecureStream::WriteByte(uint8_t Value)
 void SecureStream::Expand(size_t Length)
 {
 	// the new bytes are zeroes in the plain-text, so the resize is done on the decrypted state
-	m_streamData.reserve(Length);
 	Transform();
-	m_streamData.resize(Length);
+	std::vector<uint8_t> tmpd(Length, 0x00);
+	MemoryTools::Copy(m_streamData, 0, tmpd, 0, m_streamData.size());
+	// erase the previous contents before they are released
+	MemoryTools::Clear(m_streamData, 0, m_streamData.size());
+	m_streamData.swap(tmpd);
 	Transform();
 }
 
@@ -344,7 +349,12 @@ void SecureStream::Transform()
 		cpr.Initialize(true, kp);
 		std::vector<uint8_t> state(m_streamData.size());
 		cpr.Transform(m_streamData, 0, state, 0, state.size());
-		m_streamData = state;
+		// erase the previous contents and the key
+		MemoryTools::Clear(m_streamData, 0, m_streamData.size());
+		m_streamData.swap(state);
+		MemoryTools::Clear(seed, 0, seed.size());
+		MemoryTools::Clear(key, 0, key.size());
+		MemoryTools::Clear(iv, 0, iv.size());
 	}
 }
 
-- 
2.43.0


From a4e379b6be975f96d996a8e40d2217ec240c0d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:27 +0000
Subject: [PATCH 133/155] fix: the cipher stream left plain-text blocks in
 temporary buffers

---
 CEX/CipherStream.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/CEX/CipherStream.cpp b/CEX/CipherStream.cpp
index 18401f3..4fc52a3 100644
--- a/CEX/CipherStream.cpp
+++ b/CEX/CipherStream.cpp
@@ -265,6 +265,7 @@ void CipherStream::BlockTransform(const std::vector<uint8_t> &Input, size_t InOf
 			}
 
 			MemoryTools::Copy(otp, 0, Output, OutOffset, FNLLEN);
+			MemoryTools::Clear(otp, 0, otp.size());
 		}
 	}
 
@@ -348,6 +349,10 @@ void CipherStream::BlockTransform(IByteStream* InStream, IByteStream* OutStream)
 		}
 	}
 
+	// erase the temporary blocks
+	MemoryTools::Clear(inp, 0, inp.size());
+	MemoryTools::Clear(otp, 0, otp.size());
+
 	CalculateProgress(INPLEN, OutStream->Position());
 }
 
-- 
2.43.0


From ecc628105245956a1173182fd733f9d68fc64ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:22:52 +0000
Subject: [PATCH 134/155] fix: KPA left the key and the root state in temporary
 buffers

---
 CEX/KPA.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/CEX/KPA.cpp b/CEX/KPA.cpp
index c46c9e9..f6dc680 100644
--- a/CEX/KPA.cpp
+++ b/CEX/KPA.cpp
@@ -272,6 +272,7 @@ KPA::KPA(KpaModes KbaModeType)
 		// reset the buffer and counters
 		MemoryTools::Clear(m_kbaState->Buffer, 0, m_kbaState->Buffer.size());
 		MemoryTools::Clear(fbuf, 0, fbuf.size());
+		MemoryTools::Clear(pstate, 0, pstate.size() * sizeof(uint64_t));
 		m_kbaState->Position = 0;
 		m_kbaState->Processed = 0;
 
@@ -363,7 +364,7 @@ KPA::KPA(KpaModes KbaModeType)
 
 		if (Parameters.KeySizes().KeySize())
 		{
-			key = Parameters.Key();
+			key = SecureUnlock(Parameters.SecureKey());
 			MemoryTools::Clear(pad, 0, m_kbaState->Rate);
 			oft = Keccak::LeftEncode(pad, 0, m_kbaState->Rate);
 			oft += Keccak::LeftEncode(pad, oft, 8ULL * Parameters.KeySizes().KeySize());
-- 
2.43.0


From daa30c894773147d6107ab94445a5b6f3f934d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:32:54 +0000
Subject: [PATCH 135/155] fix: serializing and unlocking an asymmetric key left
 copies of it in temporary buffers

---
 CEX/AsymmetricKey.cpp       |  2 +-
 CEX/AsymmetricSecureKey.cpp | 20 +++++++++++++++-----
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/CEX/AsymmetricKey.cpp b/CEX/AsymmetricKey.cpp
index 3eff3e4..2331066 100644
--- a/CEX/AsymmetricKey.cpp
+++ b/CEX/AsymmetricKey.cpp
@@ -164,7 +164,7 @@ SecureVector<uint8_t> AsymmetricKey::Serialize(AsymmetricKey &KeyParams)
 	ArrayTools::AppendValue(static_cast<uint8_t>(KeyParams.KeyClass()), tmpr);
 	ArrayTools::AppendValue(static_cast<uint8_t>(KeyParams.Parameters()), tmpr);
 	ArrayTools::AppendValue(static_cast<uint8_t>(KeyParams.PrimitiveType()), tmpr);
-	ArrayTools::AppendVector(KeyParams.Polynomial(), tmpr);
+	ArrayTools::AppendVector(KeyParams.SecurePolynomial(), tmpr);
 
 	return tmpr;
 }
diff --git a/CEX/AsymmetricSecureKey.cpp b/CEX/AsymmetricSecureKey.cpp
index 3fe3dcd..ddfe4b7 100644
--- a/CEX/AsymmetricSecureKey.cpp
+++ b/CEX/AsymmetricSecureKey.cpp
@@ -191,7 +191,9 @@ SecureVector<uint8_t> AsymmetricSecureKey::Serialize(AsymmetricSecureKey &KeyPar
 	ArrayTools::AppendValue(static_cast<uint8_t>(KeyParams.KeyClass()), tmpr);
 	ArrayTools::AppendValue(static_cast<uint8_t>(KeyParams.Parameters()), tmpr);
 	ArrayTools::AppendValue(static_cast<uint8_t>(KeyParams.PrimitiveType()), tmpr);
-	ArrayTools::AppendVector(KeyParams.Polynomial(), tmpr);
+	SecureVector<uint8_t> poly(KeyParams.m_secureState->Length);
+	KeyParams.SecurePolynomial(poly);
+	ArrayTools::AppendVector(poly, tmpr);
 
 	return tmpr;
 }
@@ -200,7 +202,7 @@ SecureVector<uint8_t> AsymmetricSecureKey::Serialize(AsymmetricSecureKey &KeyPar
 
 void AsymmetricSecureKey::Encipher(std::unique_ptr<AsymmetricSecureKeyState> &State)
 {
-	IStreamCipher* cpr = GetStreamCipher(State->Policy);
+	std::unique_ptr<IStreamCipher> cpr(GetStreamCipher(State->Policy));
 	SymmetricKeySize ksc = cpr->LegalKeySizes()[0];
 	SecureVector<uint8_t> seed(ksc.KeySize() + ksc.IVSize());
 	std::vector<uint8_t> tmpt(0);
@@ -228,11 +230,15 @@ void AsymmetricSecureKey::Encipher(std::unique_ptr<AsymmetricSecureKeyState> &St
 	cpr->Transform(tmpt, 0, cpt, 0, tmpt.size());
 	// copy the encrypted cipher-text to secure state and erase buffer
 	State->Polynomial = SecureLockClear(cpt);
+	// erase the temporary key and the plain-text
+	MemoryTools::Clear(tmpt, 0, tmpt.size());
+	MemoryTools::Clear(tmpk, 0, tmpk.size());
+	MemoryTools::Clear(tmpn, 0, tmpn.size());
 }
 
 void AsymmetricSecureKey::Extract(std::unique_ptr<AsymmetricSecureKeyState> &State, SecureVector<uint8_t> &Output, size_t Length)
 {
-	IStreamCipher* cpr = GetStreamCipher(State->Policy);
+	std::unique_ptr<IStreamCipher> cpr(GetStreamCipher(State->Policy));
 	const size_t CPTSZE = cpr->IsAuthenticator() ? State->Polynomial.size() - cpr->TagSize() : State->Polynomial.size();
 	SymmetricKeySize ksc = cpr->LegalKeySizes()[0];
 	SecureVector<uint8_t> seed(ksc.KeySize() + ksc.IVSize());
@@ -254,8 +260,10 @@ void AsymmetricSecureKey::Extract(std::unique_ptr<AsymmetricSecureKeyState> &Sta
 	MemoryTools::Clear(cpt, 0, cpt.size());
 	// copy the decrypted key to output
 	MemoryTools::Copy(tmpt, 0, Output, 0, Length);
-	// erase the temp state
+	// erase the temp state and the cipher key
 	MemoryTools::Clear(tmpt, 0, tmpt.size());
+	MemoryTools::Clear(tmpk, 0, tmpk.size());
+	MemoryTools::Clear(tmpn, 0, tmpn.size());
 }
 
 IStreamCipher* AsymmetricSecureKey::GetStreamCipher(SecurityPolicy Policy)
@@ -346,8 +354,10 @@ void AsymmetricSecureKey::GetSystemKey(SecurityPolicy Policy, const SecureVector
 	}
 
 	SHAKE gen(mode);
-	gen.Initialize(cust, SecureUnlock(Salt));
+	std::vector<uint8_t> tmps = SecureUnlock(Salt);
+	gen.Initialize(cust, tmps);
 	gen.Generate(Output, 0, Output.size());
+	MemoryTools::Clear(tmps, 0, tmps.size());
 }
 
 NAMESPACE_ASYMMETRICEND
-- 
2.43.0


From 287cbbf3c4a0ea2693b2ee2fc9c8e4cf99638ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:33 +0000
Subject: [PATCH 136/155] fix: closing or shutting down a socket could leak its
 handle, or act on a handle that was not its own

---
 CEX/Socket.cpp     |  2 +-
 CEX/SocketBase.cpp | 45 +++++++++++++++++++++++----------------------
 2 files changed, 24 insertions(+), 23 deletions(-)

diff --git a/CEX/Socket.cpp b/CEX/Socket.cpp
index f595aec..bf7cdcc 100644
--- a/CEX/Socket.cpp
+++ b/CEX/Socket.cpp
@@ -69,7 +69,7 @@ Socket::~Socket()
 
 void Socket::Clear()
 {
-	Connection = 0;
+	Connection = UNINITIALIZED_SOCKET;
 	Address.clear();
 	InstanceCount = 0;
 	Port = 0;
diff --git a/CEX/SocketBase.cpp b/CEX/SocketBase.cpp
index 2ff2977..c5b94a7 100644
--- a/CEX/SocketBase.cpp
+++ b/CEX/SocketBase.cpp
@@ -114,25 +114,18 @@ void SocketBase::CloseSocket(Socket &Source)
 	if (Source.Connection != UNINITIALIZED_SOCKET && Source.Connection != SOCKET_RET_ERROR)
 	{
 #if defined(CEX_OS_WINDOWS)
-		res = shutdown(Source.Connection, SD_SEND);
-
-		if (res != SOCKET_RET_ERROR)
-		{
-			closesocket(Source.Connection);
-		}
-		else
-		{
-			throw CryptoSocketException(std::string("Socket"), std::string("CloseSocket"), std::string("The socket closed abnormally!"), ErrorCodes::SocketFailure);
-		}
-
+		// a socket that is not connected can not be shut down, but the handle must always be released
+		shutdown(Source.Connection, SD_SEND);
+		res = closesocket(Source.Connection);
 #else
 		res = close(Source.Connection);
+#endif
+		Source.Clear();
 
 		if (res == SOCKET_RET_ERROR)
 		{
 			throw CryptoSocketException(std::string("Socket"), std::string("CloseSocket"), std::string("The socket closed abnormally!"), ErrorCodes::SocketFailure);
 		}
-#endif
 	}
 
 	Source.Clear();
@@ -263,24 +256,32 @@ void SocketBase::ShutDown(Socket &Source, SocketShutdownFlags Parameters)
 	CEXASSERT(Source.Connection != UNINITIALIZED_SOCKET, "the socket has not been initialized.");
 
 	int32_t res;
+	int32_t rsc;
 
-	if (Source.Connection != UNINITIALIZED_SOCKET && IsConnected(Source))
+	if (Source.Connection != UNINITIALIZED_SOCKET)
 	{
-		res = shutdown(Source.Connection, static_cast<int32_t>(Parameters));
+		res = SOCKET_RET_SUCCESS;
 
-		if (res == SOCKET_RET_ERROR)
+		if (IsConnected(Source))
 		{
-			throw CryptoSocketException(std::string("Socket"), std::string("ShutDown"), std::string("The socket shutdown function has errored!"), ErrorCodes::SocketFailure);
+			res = shutdown(Source.Connection, static_cast<int32_t>(Parameters));
 		}
-	}
 
+		// the handle is released, even if the shutdown has failed
 #if defined(CEX_OS_WINDOWS)
-	closesocket(Source.Connection);
+		rsc = closesocket(Source.Connection);
 #else
-	close(Source.Connection);
+		rsc = close(Source.Connection);
 #endif
 
-	Source.Connection = UNINITIALIZED_SOCKET;
+		Source.Connection = UNINITIALIZED_SOCKET;
+		Source.ConnectionStatus = SocketStates::None;
+
+		if (res == SOCKET_RET_ERROR || rsc == SOCKET_RET_ERROR)
+		{
+			throw CryptoSocketException(std::string("Socket"), std::string("ShutDown"), std::string("The socket shutdown function has errored!"), ErrorCodes::SocketFailure);
+		}
+	}
 }
 
 //~~~Helper Functions~~~//
@@ -421,7 +422,7 @@ bool SocketBase::Acceptv4(Socket &Source, Socket &Target)
 	salen = sizeof(sa);
 	memset(&sa, 0x00, salen);
 	rskt = Socket(Source);
-	rskt.Connection = 0;
+	rskt.Connection = UNINITIALIZED_SOCKET;
 	rskt.ConnectionStatus = SocketStates::None;
 
 #if defined(CEX_OS_POSIX)
@@ -458,7 +459,7 @@ bool SocketBase::Acceptv6(Socket &Source, Socket &Target)
 	salen = sizeof(sa);
 	memset(&sa, 0x00, salen);
 	rskt = Socket(Source);
-	rskt.Connection = 0;
+	rskt.Connection = UNINITIALIZED_SOCKET;
 	rskt.ConnectionStatus = SocketStates::None;
 
 #if defined(CEX_OS_POSIX)
-- 
2.43.0


From 2dec90def9ee44ea815017cd7931050501884f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:33 +0000
Subject: [PATCH 137/155] fix: a socket send added a byte to the message,
 stopped at a partial send, and was out-of-band by default

---
 CEX/SocketBase.cpp | 32 ++++++++++++++++++++++++++++----
 CEX/SocketClient.h |  2 +-
 2 files changed, 29 insertions(+), 5 deletions(-)

diff --git a/CEX/SocketBase.cpp b/CEX/SocketBase.cpp
index c5b94a7..86a6597 100644
--- a/CEX/SocketBase.cpp
+++ b/CEX/SocketBase.cpp
@@ -238,17 +238,41 @@ uint32_t SocketBase::Send(Socket &Source, const std::vector<uint8_t> &Input, siz
 {
 	CEXASSERT(Source.Connection != UNINITIALIZED_SOCKET, "the socket has not been initialized.");
 
+	size_t pos;
 	int32_t res;
 
+	if (Length > Input.size())
+	{
+		throw CryptoSocketException(std::string("Socket"), std::string("Send"), std::string("The length is larger than the input!"), ErrorCodes::InvalidParam);
+	}
 
-	res = send(Source.Connection, reinterpret_cast<const char*>(Input.data()), static_cast<int32_t>(Length) + 1, static_cast<int32_t>(Flags));
+	pos = 0;
 
-	if (res == SOCKET_RET_ERROR)
+	// the system can accept a part of the message
+	while (pos < Length)
 	{
-		throw CryptoSocketException(std::string("Socket"), std::string("Send"), std::string("The socket send function has failed!"), ErrorCodes::SocketFailure);
+		res = send(Source.Connection, reinterpret_cast<const char*>(Input.data() + pos), static_cast<int32_t>(Length - pos), static_cast<int32_t>(Flags));
+
+		if (res == SOCKET_RET_ERROR)
+		{
+			if (pos != 0 && GetLastError() == SocketExceptions::SocketWouldBlock)
+			{
+				// the number of bytes sent is returned
+				break;
+			}
+
+			throw CryptoSocketException(std::string("Socket"), std::string("Send"), std::string("The socket send function has failed!"), ErrorCodes::SocketFailure);
+		}
+
+		if (res == 0)
+		{
+			break;
+		}
+
+		pos += static_cast<size_t>(res);
 	}
 
-	return res;
+	return static_cast<uint32_t>(pos);
 }
 
 void SocketBase::ShutDown(Socket &Source, SocketShutdownFlags Parameters)
diff --git a/CEX/SocketClient.h b/CEX/SocketClient.h
index c53d418..76e5694 100644
--- a/CEX/SocketClient.h
+++ b/CEX/SocketClient.h
@@ -197,7 +197,7 @@ public:
 	/// <returns>The number of bytes sent to the remote host</returns>
 	///
 	/// <remarks>Successful send operation raises the SocketChanged event with the SocketEvents::Sent flag</remarks>
-	uint32_t Send(const std::vector<uint8_t> &Input, size_t Length, SocketSendFlags Flags = SocketSendFlags::SendOOB);
+	uint32_t Send(const std::vector<uint8_t> &Input, size_t Length, SocketSendFlags Flags = SocketSendFlags::None);
 
 	/// <summary>
 	/// Non-blocking transmission of data to the remote host
-- 
2.43.0


From b1e482e9218aeaf256e7dcc774efd732247509d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:33 +0000
Subject: [PATCH 138/155] fix: testing a socket for a connection waited for
 data and missed a connection closed by the peer

---
 CEX/SocketBase.cpp | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/CEX/SocketBase.cpp b/CEX/SocketBase.cpp
index 86a6597..05bbe8d 100644
--- a/CEX/SocketBase.cpp
+++ b/CEX/SocketBase.cpp
@@ -27,19 +27,35 @@ bool SocketBase::IsBlocking(Socket &Source)
 
 bool SocketBase::IsConnected(Socket &Source)
 {
+	sockaddr_storage sa;
+	timeval tmo;
+	socklen_t salen;
 	int32_t err;
 	char buf;
 	bool ret;
 
-	ret = true;
-
-	err = recv(Source.Connection, &buf, 1, MSG_PEEK);
+	salen = sizeof(sa);
+	ret = (getpeername(Source.Connection, reinterpret_cast<sockaddr*>(&sa), &salen) != SOCKET_RET_ERROR);
 
-	if (err == SOCKET_RET_ERROR)
+	if (ret == true)
 	{
-		if (GetLastError() != SocketExceptions::SocketWouldBlock)
+		// the peek would wait for data on a blocking socket
+		tmo.tv_sec = 0;
+		tmo.tv_usec = 0;
+
+		if (ReceiveReady(Source, &tmo) == true)
 		{
-			ret = false;
+			err = recv(Source.Connection, &buf, 1, MSG_PEEK);
+
+			if (err == 0)
+			{
+				// closed by the peer
+				ret = false;
+			}
+			else if (err == SOCKET_RET_ERROR && GetLastError() != SocketExceptions::SocketWouldBlock)
+			{
+				ret = false;
+			}
 		}
 	}
 
-- 
2.43.0


From a5c7858796cffeb44cad33b1b8b670510b9b9b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:33 +0000
Subject: [PATCH 139/155] fix: binding a socket ignored the address

---
 CEX/SocketBase.cpp | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/CEX/SocketBase.cpp b/CEX/SocketBase.cpp
index 05bbe8d..70d4b60 100644
--- a/CEX/SocketBase.cpp
+++ b/CEX/SocketBase.cpp
@@ -88,6 +88,7 @@ void SocketBase::Attach(Socket &Source, Socket &Target)
 bool SocketBase::Bind(Socket &Source, const ipv4_address &Address, uint16_t Port)
 {
 	sockaddr_in sa;
+	std::string sadd;
 	int32_t res;
 
 	std::memset(&sa, 0x00, sizeof(sa));
@@ -97,8 +98,17 @@ bool SocketBase::Bind(Socket &Source, const ipv4_address &Address, uint16_t Port
 #endif
 	sa.sin_family = AF_INET;
 	sa.sin_port = htons(static_cast<uint16_t>(Port));
+	sadd = ipv4_address::ToString(Address);
+
+#if defined(CEX_OS_WINDOWS)
+	inet_pton(AF_INET, sadd.c_str(), &(sa.sin_addr));
+#else
+	sa.sin_addr.s_addr = inet_addr(sadd.c_str());
+#endif
+
 	res = bind(Source.Connection, reinterpret_cast<const sockaddr*>(&sa), sizeof(sa));
-	Source.Address = Address.ToString(Address);
+	Source.Address = sadd;
+	Source.Port = Port;
 	Source.AddressFamily = SocketAddressFamilies::IPv4;
 
 	return (res != SOCKET_RET_ERROR);
@@ -107,6 +117,7 @@ bool SocketBase::Bind(Socket &Source, const ipv4_address &Address, uint16_t Port
 bool SocketBase::Bind(Socket &Source, const ipv6_address &Address, uint16_t Port)
 {
 	sockaddr_in6 sa;
+	std::string sadd;
 	int32_t res;
 
 	std::memset(&sa, 0x00, sizeof(sa));
@@ -116,8 +127,13 @@ bool SocketBase::Bind(Socket &Source, const ipv6_address &Address, uint16_t Port
 #endif
 	sa.sin6_family = AF_INET6;
 	sa.sin6_port = htons(static_cast<uint16_t>(Port));
+	sadd = ipv6_address::ToString(Address);
+
+	inet_pton(AF_INET6, sadd.c_str(), &(sa.sin6_addr));
+
 	res = bind(Source.Connection, reinterpret_cast<const sockaddr*>(&sa), sizeof(sa));
-	Source.Address = Address.ToString(Address);
+	Source.Address = sadd;
+	Source.Port = Port;
 	Source.AddressFamily = SocketAddressFamilies::IPv6;
 
 	return (res != SOCKET_RET_ERROR);
-- 
2.43.0


From 207f9c23dcd02fc88584f8cf67175a99bd2f4f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:33 +0000
Subject: [PATCH 140/155] fix: a socket option was sent with the level and the
 option exchanged, and its failure was lost

---
 CEX/SocketBase.cpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/CEX/SocketBase.cpp b/CEX/SocketBase.cpp
index 70d4b60..fea1414 100644
--- a/CEX/SocketBase.cpp
+++ b/CEX/SocketBase.cpp
@@ -439,15 +439,19 @@ void SocketBase::ShutDownSockets()
 
 void SocketBase::SocketOption(Socket &Source, SocketProtocols Protocol, SocketOptions TcpOptions)
 {
-#if defined(CEX_OS_WINDOWS)
-	char code;
-	code = static_cast<char>(Protocol);
-#else
 	int32_t code;
-	code = static_cast<int32_t>(Protocol);
-#endif
+	int32_t level;
+	int32_t res;
 
-	setsockopt(Source.Connection, static_cast<int32_t>(TcpOptions), static_cast<int32_t>(Protocol), &code, sizeof(code));
+	code = 1;
+	// only the no-delay option belongs to the protocol
+	level = (TcpOptions == SocketOptions::TcpNoDelay) ? static_cast<int32_t>(Protocol) : SOL_SOCKET;
+	res = setsockopt(Source.Connection, level, static_cast<int32_t>(TcpOptions), reinterpret_cast<const char*>(&code), sizeof(code));
+
+	if (res == SOCKET_RET_ERROR)
+	{
+		throw CryptoSocketException(std::string("Socket"), std::string("SocketOption"), std::string("The option is invalid or refused!"), ErrorCodes::SocketFailure);
+	}
 }
 
 void SocketBase::StartSockets()
-- 
2.43.0


From 8ca8f97b2cfe3dedd0feb31bde3761688f2b554d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:45 +0000
Subject: [PATCH 141/155] fix: internet addresses did not survive a conversion
 or a move, and a malformed address overran a buffer

---
 CEX/InternetAddress.h | 253 ++++++++++++++++++++++++++++--------------
 1 file changed, 170 insertions(+), 83 deletions(-)

diff --git a/CEX/InternetAddress.h b/CEX/InternetAddress.h
index a75b756..c2ffa5b 100644
--- a/CEX/InternetAddress.h
+++ b/CEX/InternetAddress.h
@@ -2,10 +2,14 @@
 #define CEX_INTERNETADRESS_H
 
 #include "CexDomain.h"
+#include "CryptoSocketException.h"
 #include "IntegerTools.h"
+#include <cctype>
 
 NAMESPACE_ROOT
 
+using Exception::CryptoSocketException;
+using Enumeration::ErrorCodes;
 using Tools::IntegerTools;
 
 /// <summary>
@@ -131,9 +135,9 @@ typedef struct ipv4_address
 	ipv4_address& operator=(ipv4_address&& Source) noexcept
 	{
 		std::swap(a1, Source.a1);
-		std::swap(a2, Source.a1);
-		std::swap(a3, Source.a1);
-		std::swap(a4, Source.a1);
+		std::swap(a2, Source.a2);
+		std::swap(a3, Source.a3);
+		std::swap(a4, Source.a4);
 
 		return *this;
 	}
@@ -176,25 +180,52 @@ typedef struct ipv4_address
 	/// <returns>The IPv4 address structure</returns>
 	static ipv4_address FromString(const std::string &Address)
 	{
-		CEXASSERT(Address.size() >= 7, "The address is of an invalid format.");
-
-		const std::string DELIM = ".";
-		ipv4_address add; 
-		std::string sadd;
-		size_t len;
+		ipv4_address add;
+		std::vector<uint8_t> tmpa(4);
+		size_t i;
 		size_t pos;
+		uint32_t val;
+
+		pos = 0;
+
+		for (i = 0; i < tmpa.size(); ++i)
+		{
+			if (i != 0)
+			{
+				if (pos >= Address.size() || Address[pos] != '.')
+				{
+					throw CryptoSocketException(std::string("ipv4_address"), std::string("FromString"), std::string("The address is of an invalid format!"), ErrorCodes::InvalidParam);
+				}
 
-		sadd = Address;
-		len = sadd.find(DELIM);
-		add.a1 = IntegerTools::FromString<uint8_t>(sadd, 0, len);
-		pos = len + 1;
-		len = Address.find(DELIM, pos);
-		add.a2 = IntegerTools::FromString<uint8_t>(sadd, pos, len - pos);
-		pos = len + 1;
-		len = Address.find(DELIM, pos);
-		add.a3 = IntegerTools::FromString<uint8_t>(sadd, pos, len - pos);
-		pos = len + 1;
-		add.a4 = IntegerTools::FromString<uint8_t>(sadd, pos, Address.size() - pos);
+				++pos;
+			}
+
+			const size_t START = pos;
+			val = 0;
+
+			while (pos < Address.size() && pos - START < 3 && Address[pos] >= '0' && Address[pos] <= '9')
+			{
+				val = (val * 10) + static_cast<uint32_t>(Address[pos] - '0');
+				++pos;
+			}
+
+			if (pos == START || val > 255)
+			{
+				throw CryptoSocketException(std::string("ipv4_address"), std::string("FromString"), std::string("The address is of an invalid format!"), ErrorCodes::InvalidParam);
+			}
+
+			tmpa[i] = static_cast<uint8_t>(val);
+		}
+
+		if (pos != Address.size())
+		{
+			throw CryptoSocketException(std::string("ipv4_address"), std::string("FromString"), std::string("The address is of an invalid format!"), ErrorCodes::InvalidParam);
+		}
+
+		add.a1 = tmpa[0];
+		add.a2 = tmpa[1];
+		add.a3 = tmpa[2];
+		add.a4 = tmpa[3];
 
 		return add;
 	}
@@ -513,21 +544,21 @@ typedef struct ipv6_address
 	ipv6_address& operator=(ipv6_address&& Source) noexcept
 	{
 		std::swap(a1, Source.a1);
-		std::swap(a2, Source.a1);
-		std::swap(a3, Source.a1);
-		std::swap(a4, Source.a1);
-		std::swap(a5, Source.a1);
-		std::swap(a6, Source.a1);
-		std::swap(a7, Source.a1);
-		std::swap(a8, Source.a1);
-		std::swap(a9, Source.a1);
-		std::swap(a10, Source.a1);
-		std::swap(a11, Source.a1);
-		std::swap(a12, Source.a1);
-		std::swap(a13, Source.a1);
-		std::swap(a14, Source.a1);
-		std::swap(a15, Source.a1);
-		std::swap(a16, Source.a1);
+		std::swap(a2, Source.a2);
+		std::swap(a3, Source.a3);
+		std::swap(a4, Source.a4);
+		std::swap(a5, Source.a5);
+		std::swap(a6, Source.a6);
+		std::swap(a7, Source.a7);
+		std::swap(a8, Source.a8);
+		std::swap(a9, Source.a9);
+		std::swap(a10, Source.a10);
+		std::swap(a11, Source.a11);
+		std::swap(a12, Source.a12);
+		std::swap(a13, Source.a13);
+		std::swap(a14, Source.a14);
+		std::swap(a15, Source.a15);
+		std::swap(a16, Source.a16);
 
 		return *this;
 	}
@@ -627,66 +658,102 @@ typedef struct ipv6_address
 	/// <returns>The IPv6 address structure</returns>
 	static ipv6_address FromString(const std::string &Address)
 	{
-		const std::string DELIM = std::string(":");
-		const std::string DEMRK = std::string("::");
-		const std::string LPBK = std::string("::1");
-		const std::string DZONE = std::string("%");
+		const size_t NOZERO = static_cast<size_t>(-1);
 		ipv6_address add;
 		std::vector<uint8_t> tmpa(16);
 		std::string sadd;
-		std::string str1;
-		std::string str2;
+		size_t ctr;
+		size_t end;
 		size_t i;
-		size_t j;
+		size_t len;
 		size_t pos;
-
-		pos = Address.find(DZONE);
-
-		if (pos == std::string::npos)
+		size_t zpos;
+		uint32_t val;
+		bool valid;
+
+		// the zone index is not a part of the address
+		sadd = Address.substr(0, Address.find('%'));
+		end = sadd.size();
+		ctr = 0;
+		pos = 0;
+		zpos = NOZERO;
+		valid = true;
+
+		if (end > 1 && sadd[0] == ':' && sadd[1] == ':')
 		{
-			sadd = Address;
+			zpos = 0;
+			pos = 2;
 		}
-		else
+
+		while (valid == true && pos < end)
 		{
-			sadd = Address.substr(0, pos);
-		}
+			// read a group of one to four hexadecimal digits
+			val = 0;
+			len = 0;
 
-		pos = sadd.find(DEMRK);
+			while (pos + len < end && len < 4 && std::isxdigit(static_cast<unsigned char>(sadd[pos + len])) != 0)
+			{
+				const int32_t C = std::tolower(static_cast<unsigned char>(sadd[pos + len]));
+				val = (val << 4) | static_cast<uint32_t>(C <= '9' ? C - '0' : C - 'a' + 10);
+				++len;
+			}
 
-		if (pos != std::string::npos)
-		{
-			if (sadd != LPBK)
+			if (pos + len < end && sadd[pos + len] == '.' && ctr <= 12)
 			{
-				str1 = sadd.substr(0, pos);
-				str2 = sadd.substr(pos + 2);
+				// the last four bytes are written as an ipv4 address
+				ipv4_address tail = ipv4_address::FromString(sadd.substr(pos));
+				tmpa[ctr] = tail.a1;
+				tmpa[ctr + 1] = tail.a2;
+				tmpa[ctr + 2] = tail.a3;
+				tmpa[ctr + 3] = tail.a4;
+				ctr += 4;
+				pos = end;
+				break;
+			}
 
-				str1.erase(remove(str1.begin(), str1.end(), ':'), str1.end());
-				str2.erase(remove(str2.begin(), str2.end(), ':'), str2.end());
-				pos = tmpa.size() - (str2.size() / 2);
+			valid = (len != 0 && ctr < tmpa.size());
 
-				for (i = 0, j = 0; i < str1.size(); i += 2, ++j)
-				{
-					tmpa[j] = IntegerTools::HexToInt<uint8_t>(str1, i);
-				}
+			if (valid == true)
+			{
+				tmpa[ctr] = static_cast<uint8_t>(val >> 8);
+				tmpa[ctr + 1] = static_cast<uint8_t>(val);
+				ctr += 2;
+				pos += len;
 
-				for (i = 0, j = pos; i < str2.size(); i += 2, ++j)
+				if (pos < end)
 				{
-					tmpa[j] = IntegerTools::HexToInt<uint8_t>(str2, i);
+					// a group is followed by a delimiter, and one run of zeroes can be omitted
+					valid = (sadd[pos] == ':' && pos + 1 < end);
+					++pos;
+
+					if (valid == true && sadd[pos] == ':')
+					{
+						valid = (zpos == NOZERO);
+						zpos = ctr;
+						++pos;
+					}
 				}
 			}
-			else
-			{
-				tmpa[tmpa.size() - 1] = 1;
-			}
 		}
-		else
+
+		if (valid == false || (zpos == NOZERO && ctr != tmpa.size()) || (zpos != NOZERO && ctr > tmpa.size() - 2))
 		{
-			str1 = sadd;
-			str1.erase(remove(str1.begin(), str1.end(), ':'), str1.end());
+			throw CryptoSocketException(std::string("ipv6_address"), std::string("FromString"), std::string("The address is of an invalid format!"), ErrorCodes::InvalidParam);
+		}
+
+		if (zpos != NOZERO)
+		{
+			// move the groups that follow the omitted zeroes to the end
+			len = ctr - zpos;
 
-			for (i = 0; i < str1.size(); i += 2)
+			for (i = 1; i <= len; ++i)
 			{
-				tmpa[i] = IntegerTools::HexToInt<uint8_t>(str1, i);
+				tmpa[tmpa.size() - i] = tmpa[ctr - i];
+			}
+
+			for (i = zpos; i < tmpa.size() - len; ++i)
+			{
+				tmpa[i] = 0;
 			}
 		}
 
@@ -751,26 +818,46 @@ typedef struct ipv6_address
 		std::vector<uint8_t> tmpa;
 		std::string tmps;
 		size_t i;
+		size_t len;
+		size_t zlen;
+		size_t zpos;
 
 		tmpa = ToVector(Address);
+		zlen = 0;
+		zpos = tmpa.size();
 
-		for (i = 1; i < 16; i += 2)
+		// find the longest run of zero groups
+		for (i = 0; i < tmpa.size(); i += 2)
 		{
-			if (tmpa[i - 1] == 0 && tmpa[i] == 0)
+			len = 0;
+
+			while (i + len < tmpa.size() && tmpa[i + len] == 0 && tmpa[i + len + 1] == 0)
 			{
-				if (tmps.size() > 2 && tmps.substr(tmps.size() - 2, 2) != DEMRK)
-				{
-					tmps += DELIM;
-				}
+				len += 2;
 			}
-			else
+
+			if (len > zlen)
 			{
-				tmps += IntegerTools::IntToHex(tmpa[i - 1]) + IntegerTools::IntToHex(tmpa[i]);
+				zlen = len;
+				zpos = i;
+			}
+		}
 
-				if (i < 14)
+		for (i = 0; i < tmpa.size(); i += 2)
+		{
+			if (i == zpos)
+			{
+				tmps += DEMRK;
+				i += zlen - 2;
+			}
+			else
+			{
+				if (tmps.size() != 0 && tmps[tmps.size() - 1] != ':')
 				{
 					tmps += DELIM;
 				}
+
+				tmps += IntegerTools::IntToHex(tmpa[i]) + IntegerTools::IntToHex(tmpa[i + 1]);
 			}
 		}
 
-- 
2.43.0


From 00d199fcdc47a074a5e9f5f68db9d172314b2037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:45 +0000
Subject: [PATCH 142/155] fix: an asynchronous socket operation built its
 address from a null pointer

---
 CEX/IAsyncResult.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/CEX/IAsyncResult.h b/CEX/IAsyncResult.h
index d8d8f42..b598728 100644
--- a/CEX/IAsyncResult.h
+++ b/CEX/IAsyncResult.h
@@ -22,7 +22,7 @@ public:
 	IAsyncResult(const Socket &Parent, uint32_t Option)
 		:
 		Data(0),
-		Address(0),
+		Address(),
 		Flag(0),
 		Parent(Parent),
 		Option(Option)
@@ -32,7 +32,7 @@ public:
 	IAsyncResult(const Socket &Parent, uint32_t Option, uint32_t Flag)
 		:
 		Data(0),
-		Address(0),
+		Address(),
 		Flag(Flag),
 		Parent(Parent),
 		Option(Option)
@@ -42,7 +42,7 @@ public:
 	IAsyncResult(const Socket &Parent, const std::vector<uint8_t> Data, uint32_t Option, uint32_t Flag)
 		:
 		Data(Data),
-		Address(0),
+		Address(),
 		Flag(Flag),
 		Parent(Parent),
 		Option(Option)
-- 
2.43.0


From 0f20746b9bee5a960e600fa4815792c4a992d377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:41:00 +0000
Subject: [PATCH 143/155] fix: the socket client leaked or re-used handles,
 lost asynchronous failures, and transmitted bytes that were not received

---
 CEX/SocketClient.cpp | 117 +++++++++++++++++++++++++++++++++----------
 CEX/SocketClient.h   |   8 +++
 2 files changed, 98 insertions(+), 27 deletions(-)

diff --git a/CEX/SocketClient.cpp b/CEX/SocketClient.cpp
index 2ea8e2a..d6a30e9 100644
--- a/CEX/SocketClient.cpp
+++ b/CEX/SocketClient.cpp
@@ -17,7 +17,8 @@ SocketClient::SocketClient(SocketAddressFamilies AddressFamily, SocketProtocols
 		throw CryptoSocketException(std::string("SocketClient"), std::string("Ctor"), std::string("The protocol can not be none!"), ErrorCodes::InvalidParam),
 	SocketTransport != SocketTransports::None ?
 		SocketTransport :
-		throw CryptoSocketException(std::string("SocketClient"), std::string("Ctor"), std::string("The transport can not be none!"), ErrorCodes::InvalidParam))
+		throw CryptoSocketException(std::string("SocketClient"), std::string("Ctor"), std::string("The transport can not be none!"), ErrorCodes::InvalidParam)),
+	m_isOwner(false)
 {
 #if defined(CEX_OS_WINDOWS)
 	SocketBase::StartSockets();
@@ -26,7 +27,8 @@ SocketClient::SocketClient(SocketAddressFamilies AddressFamily, SocketProtocols
 
 SocketClient::SocketClient(Socket &Source)
 	:
-	m_baseSocket(Source)
+	m_baseSocket(Source),
+	m_isOwner(false)
 {
 #if defined(CEX_OS_WINDOWS)
 	SocketBase::StartSockets();
@@ -35,6 +37,18 @@ SocketClient::SocketClient(Socket &Source)
 
 SocketClient::~SocketClient()
 {
+	try
+	{
+		// the handle of an attached socket belongs to the caller
+		if (m_isOwner == true)
+		{
+			ReleaseSocket();
+		}
+	}
+	catch (CryptoSocketException&)
+	{
+	}
+
 	m_baseSocket.Clear();
 
 #if defined(CEX_OS_WINDOWS)
@@ -101,10 +115,7 @@ bool SocketClient::Connect(const ipv4_address &Address, uint16_t Port)
 	bool ret;
 
 	// create the socket
-	if (SocketBase::Create(m_baseSocket) == false)
-	{
-		throw CryptoSocketException(std::string("SocketClient"), std::string("Connect"), std::string("The socket could not be created!"), ErrorCodes::SocketInvalid);
-	}
+	CreateSocket();
 
 	// connect
 	ret = SocketBase::Connect(m_baseSocket, Address, Port);
@@ -115,7 +126,9 @@ bool SocketClient::Connect(const ipv4_address &Address, uint16_t Port)
 	}
 	else
 	{
-		OnSocketError(SocketBase::GetLastError(), std::string("The connection was refused"));
+		const SocketExceptions ERRCODE = SocketBase::GetLastError();
+		ReleaseSocket();
+		OnSocketError(ERRCODE, std::string("The connection was refused"));
 	}
 
 	return ret;
@@ -126,10 +139,7 @@ bool SocketClient::Connect(const ipv6_address &Address, uint16_t Port)
 	bool ret;
 
 	// create the socket
-	if (SocketBase::Create(m_baseSocket) == false)
-	{
-		throw CryptoSocketException(std::string("SocketClient"), std::string("Connect"), std::string("The socket could not be created!"), ErrorCodes::SocketInvalid);
-	}
+	CreateSocket();
 
 	// connect
 	ret = SocketBase::Connect(m_baseSocket, Address, Port);
@@ -140,7 +150,9 @@ bool SocketClient::Connect(const ipv6_address &Address, uint16_t Port)
 	}
 	else
 	{
-		OnSocketError(SocketBase::GetLastError(), std::string("The connection was refused"));
+		const SocketExceptions ERRCODE = SocketBase::GetLastError();
+		ReleaseSocket();
+		OnSocketError(ERRCODE, std::string("The connection was refused"));
 	}
 
 	return ret;
@@ -158,22 +170,33 @@ void SocketClient::ConnectAsync(const std::string &Address, uint16_t Port)
 
 void SocketClient::ConnectCallback(IAsyncResult* Result)
 {
-	std::mutex m;
-	std::unique_lock<std::mutex> lock(m);
 	bool ret;
 
 	if (Result != nullptr)
 	{
-		ret = Connect(Result->Address, static_cast<uint16_t>(Result->Option));
-
-
-		if (ret == true)
+		try
 		{
-			OnSocketConnected(0, Result->Address);
+			if (m_baseSocket.AddressFamily == SocketAddressFamilies::IPv4)
+			{
+				ret = Connect(ipv4_address::FromString(Result->Address), static_cast<uint16_t>(Result->Option));
+			}
+			else
+			{
+				ret = Connect(ipv6_address::FromString(Result->Address), static_cast<uint16_t>(Result->Option));
+			}
+
+			if (ret == true)
+			{
+				OnSocketConnected(0, Result->Address);
+			}
+			else
+			{
+				OnSocketError(SocketBase::GetLastError(), std::string("The host is unreachable"));
+			}
 		}
-		else
+		catch (CryptoSocketException &ex)
 		{
-			OnSocketError(SocketBase::GetLastError(), std::string("The host is unreachable"));
+			OnSocketError(SocketBase::GetLastError(), ex.Message());
 		}
 
 		delete Result;
@@ -243,8 +266,6 @@ void SocketClient::ReceiveAsync(size_t BufferLength, SocketReceiveFlags Flags)
 
 void SocketClient::ReceiveCallback(IAsyncResult* Result)
 {
-	std::mutex m;
-	std::unique_lock<std::mutex> lock(m);
 	uint32_t ret(0);
 
 	if (Result != nullptr)
@@ -262,7 +283,24 @@ void SocketClient::ReceiveCallback(IAsyncResult* Result)
 					break;
 				}
 
-				OnSocketReceived(ret, otp);
+				// the event transmits the bytes that were received
+				const std::vector<uint8_t> MSG(otp.begin(), otp.begin() + ret);
+				OnSocketReceived(ret, MSG);
+			}
+		}
+		catch (CryptoSocketException &ex)
+		{
+			OnSocketError(SocketBase::GetLastError(), ex.Message());
+		}
+
+		try
+		{
+			std::unique_lock<std::mutex> lock(m_socketLock);
+
+			// the socket could have been closed while waiting for data
+			if (m_baseSocket.Connection == Result->Parent.Connection)
+			{
+				SocketBase::CloseSocket(m_baseSocket);
 			}
 		}
 		catch (CryptoSocketException &ex)
@@ -270,7 +308,6 @@ void SocketClient::ReceiveCallback(IAsyncResult* Result)
 			OnSocketError(SocketBase::GetLastError(), ex.Message());
 		}
 
-		SocketBase::CloseSocket(Result->Parent);
 		OnSocketDisconnected(0, "The socket was closed normally");
 
 		delete Result;
@@ -285,6 +322,8 @@ uint32_t SocketClient::Send(const std::vector<uint8_t> &Input, size_t Length, So
 
 	try
 	{
+		// concurrent messages are not mixed
+		std::unique_lock<std::mutex> lock(m_sendLock);
 		ret = SocketBase::Send(m_baseSocket, Input, Length, Flags);
 	}
 	catch (CryptoSocketException&)
@@ -316,8 +355,6 @@ void SocketClient::SendAsync(const std::vector<uint8_t> &Input, size_t Length, S
 
 void SocketClient::SendCallback(IAsyncResult* Result)
 {
-	std::mutex m;
-	std::unique_lock<std::mutex> lock(m);
 	uint32_t ret;
 
 	if (Result != nullptr)
@@ -326,6 +363,7 @@ void SocketClient::SendCallback(IAsyncResult* Result)
 
 		try
 		{
+			std::unique_lock<std::mutex> lock(m_sendLock);
 			ret = SocketBase::Send(Result->Parent, Result->Data, Result->Option, static_cast<SocketSendFlags>(Result->Flag));
 		}
 		catch (CryptoSocketException &ex)
@@ -350,6 +388,7 @@ void SocketClient::ShutDown()
 {
 	try
 	{
+		std::unique_lock<std::mutex> lock(m_socketLock);
 		SocketBase::ShutDown(m_baseSocket, SocketShutdownFlags::Receive);
 	}
 	catch (CryptoSocketException&)
@@ -362,4 +401,28 @@ void SocketClient::ShutDown()
 	m_baseSocket.Clear();
 }
 
+//~~~Private Functions~~~//
+
+void SocketClient::CreateSocket()
+{
+	// release the previous connection
+	if (m_isOwner == true)
+	{
+		ReleaseSocket();
+	}
+
+	if (SocketBase::Create(m_baseSocket) == false)
+	{
+		throw CryptoSocketException(std::string("SocketClient"), std::string("Connect"), std::string("The socket could not be created!"), ErrorCodes::SocketInvalid);
+	}
+
+	m_isOwner = true;
+}
+
+void SocketClient::ReleaseSocket()
+{
+	std::unique_lock<std::mutex> lock(m_socketLock);
+	SocketBase::CloseSocket(m_baseSocket);
+}
+
 NAMESPACE_NETWORKEND
\ No newline at end of file
diff --git a/CEX/SocketClient.h b/CEX/SocketClient.h
index 76e5694..d1ba09f 100644
--- a/CEX/SocketClient.h
+++ b/CEX/SocketClient.h
@@ -19,6 +19,9 @@ class SocketClient
 private:
 
 	Socket m_baseSocket;
+	bool m_isOwner;
+	std::mutex m_sendLock;
+	std::mutex m_socketLock;
 
 public:
 
@@ -224,6 +227,11 @@ public:
 	/// <exception cref="CryptoSocketException">Thrown if the socket returns an error</exception>
 	/// <remarks>Successful change to shutdown state raises the SocketChanged event with the SocketEvents::ShutDown flag</remarks>
 	void ShutDown();
+
+private:
+
+	void CreateSocket();
+	void ReleaseSocket();
 };
 
 NAMESPACE_NETWORKEND
-- 
2.43.0


From 7ee8eafc2aa579178a679ea517cc30951d05e387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:41:00 +0000
Subject: [PATCH 144/155] fix: the socket server leaked its handles, released
 others twice, and could not be stopped

---
 CEX/SocketServer.cpp | 244 +++++++++++++++++++++++++------------------
 CEX/SocketServer.h   |   4 +
 2 files changed, 149 insertions(+), 99 deletions(-)

diff --git a/CEX/SocketServer.cpp b/CEX/SocketServer.cpp
index 3d5dc51..8da5350 100644
--- a/CEX/SocketServer.cpp
+++ b/CEX/SocketServer.cpp
@@ -8,6 +8,7 @@ class SocketServer::SocketServerState
 public:
 
 	Socket BaseSocket;
+	std::mutex PoolLock;
 	std::vector<Socket*> SocketPool;
 	uint32_t BackLog;
 	uint32_t MaxConnections;
@@ -44,7 +45,7 @@ public:
 	{
 		size_t i;
 
-		BaseSocket.Clear();
+		Release(BaseSocket);
 
 		if (SocketPool.size() != 0)
 		{
@@ -52,10 +53,8 @@ public:
 			{
 				if (SocketPool[i] != nullptr)
 				{
-					Socket* s = SocketPool[i];
-					SocketBase::CloseSocket(*s);
-					delete s;
-					SocketPool.erase(SocketPool.begin() + i);
+					Release(*SocketPool[i]);
+					delete SocketPool[i];
 				}
 			}
 
@@ -68,6 +67,17 @@ public:
 		IsClosed = false;
 		IsListening = false;
 	}
+
+	static void Release(Socket &Source)
+	{
+		try
+		{
+			SocketBase::CloseSocket(Source);
+		}
+		catch (CryptoSocketException&)
+		{
+		}
+	}
 };
 
 //~~~Constructors~~~//
@@ -135,14 +145,12 @@ Socket SocketServer::Listen(const ipv4_address &Address, uint16_t Port)
 	Socket target;
 
 	// create the socket
-	if (SocketBase::Create(m_socketServerState->BaseSocket) == false)
-	{
-		throw CryptoSocketException(std::string("SocketServer"), std::string("Listen"), std::string("The socket could not be created!"), ErrorCodes::SocketInvalid);
-	}
+	CreateListener();
 
 	// bind the socket
 	if (SocketBase::Bind(m_socketServerState->BaseSocket, Address, Port) == false)
 	{
+		CloseListener();
 		throw CryptoSocketException(std::string("SocketServer"), std::string("Listen"), std::string("The socket could not be bound!"), ErrorCodes::SocketRefused);
 	}
 
@@ -153,6 +161,7 @@ Socket SocketServer::Listen(const ipv4_address &Address, uint16_t Port)
 	}
 	else
 	{
+		CloseListener();
 		throw CryptoSocketException(std::string("SocketServer"), std::string("Listen"), std::string("The socket failed to enter the listening state!"), ErrorCodes::SocketFailure);
 	}
 
@@ -177,14 +186,12 @@ Socket SocketServer::Listen(const ipv6_address &Address, uint16_t Port)
 	Socket target;
 
 	// create the socket
-	if (SocketBase::Create(m_socketServerState->BaseSocket) == false)
-	{
-		throw CryptoSocketException(std::string("SocketServer"), std::string("Listen"), std::string("The socket could not be created!"), ErrorCodes::SocketInvalid);
-	}
+	CreateListener();
 
 	// bind the socket
 	if (SocketBase::Bind(m_socketServerState->BaseSocket, Address, Port) == false)
 	{
+		CloseListener();
 		throw CryptoSocketException(std::string("SocketServer"), std::string("Listen"), std::string("The socket could not be bound!"), ErrorCodes::SocketRefused);
 	}
 
@@ -195,6 +202,7 @@ Socket SocketServer::Listen(const ipv6_address &Address, uint16_t Port)
 	}
 	else
 	{
+		CloseListener();
 		throw CryptoSocketException(std::string("SocketServer"), std::string("Listen"), std::string("The socket failed to enter the listening state!"), ErrorCodes::SocketFailure);
 	}
 
@@ -217,10 +225,7 @@ Socket SocketServer::Listen(const ipv6_address &Address, uint16_t Port)
 void SocketServer::ListenAsync(const ipv4_address &Address, uint16_t Port)
 {
 	// create the socket
-	if (SocketBase::Create(m_socketServerState->BaseSocket) == false)
-	{
-		throw CryptoSocketException(std::string("SocketServer"), std::string("ListenAsync"), std::string("The socket could not be created!"), ErrorCodes::SocketInvalid);
-	}
+	CreateListener();
 
 	// set the socket options
 	SetOptions();
@@ -228,35 +233,27 @@ void SocketServer::ListenAsync(const ipv4_address &Address, uint16_t Port)
 	// bind the socket
 	if (SocketBase::Bind(m_socketServerState->BaseSocket, Address, Port) == false)
 	{
+		CloseListener();
 		throw CryptoSocketException(std::string("SocketServer"), std::string("ListenAsync"), std::string("The socket could not be bound!"), ErrorCodes::SocketRefused);
 	}
 
 	// listen for incoming connections
 	if (SocketBase::Listen(m_socketServerState->BaseSocket, Backlog()) == true)
 	{
-		std::function<void()> f = [this]() { AcceptBegin(); };
-		std::packaged_task<void()> task(f);
-		std::future<void> result = task.get_future();
-		m_ayncListener = new std::thread(std::move(task));
-
-		m_socketServerState->IsListening = true;
-		m_ayncListener->detach();
-		//thd->join(); // Note: for testing, remove!
+		StartListener();
 	}
 	else
 	{
-		SocketBase::CloseSocket(m_socketServerState->BaseSocket);
-		OnSocketError(SocketBase::GetLastError(), std::string("The socket could not enter the listening state"));
+		const SocketExceptions ERRCODE = SocketBase::GetLastError();
+		CloseListener();
+		OnSocketError(ERRCODE, std::string("The socket could not enter the listening state"));
 	}
 }
 
 void SocketServer::ListenAsync(const ipv6_address &Address, uint16_t Port)
 {
 	// create the socket
-	if (SocketBase::Create(m_socketServerState->BaseSocket) == false)
-	{
-		throw CryptoSocketException(std::string("SocketServer"), std::string("ListenAsync"), std::string("The socket could not be created!"), ErrorCodes::SocketInvalid);
-	}
+	CreateListener();
 
 	// set the socket options
 	SetOptions();
@@ -264,117 +261,88 @@ void SocketServer::ListenAsync(const ipv6_address &Address, uint16_t Port)
 	// bind the socket
 	if (SocketBase::Bind(m_socketServerState->BaseSocket, Address, Port) == false)
 	{
+		CloseListener();
 		throw CryptoSocketException(std::string("SocketServer"), std::string("ListenAsync"), std::string("The socket could not be bound!"), ErrorCodes::SocketRefused);
 	}
 
 	// listen for incoming connections
 	if (SocketBase::Listen(m_socketServerState->BaseSocket, Backlog()) == true)
 	{
-		std::function<void()> f = [this]() { AcceptBegin(); };
-		std::packaged_task<void()> task(f);
-		std::future<void> result = task.get_future();
-		m_ayncListener = new std::thread(std::move(task));
-
-		m_socketServerState->IsListening = true;
-		m_ayncListener->detach();
+		StartListener();
 	}
 	else
 	{
-		SocketBase::CloseSocket(m_socketServerState->BaseSocket);
-		OnSocketError(SocketBase::GetLastError(), std::string("The socket could not enter the listening state"));
+		const SocketExceptions ERRCODE = SocketBase::GetLastError();
+		CloseListener();
+		OnSocketError(ERRCODE, std::string("The socket could not enter the listening state"));
 	}
 }
 
 void SocketServer::ListenStop()
 {
-	size_t i;
+	std::thread* listener;
 
-	for (i = 0; i < m_socketServerState->SocketPool.size(); ++i)
-	{
-		Socket* sk = m_socketServerState->SocketPool[i];
-
-		if (sk != nullptr)
-		{
-			if (SocketBase::IsConnected(*sk) == true)
-			{
-				SocketBase::ShutDown(*sk, SocketShutdownFlags::Both);
-			}
+	// closing the listening socket ends the wait for a connection
+	m_socketServerState->IsClosed = true;
+	CloseListener();
 
-			m_socketServerState->SocketPool.erase(m_socketServerState->SocketPool.begin() + i);
+	listener = m_ayncListener;
+	m_ayncListener = nullptr;
 
-			delete sk;
+	if (listener != nullptr)
+	{
+		if (listener->get_id() == std::this_thread::get_id())
+		{
+			// called by an event handler
+			listener->detach();
+		}
+		else
+		{
+			listener->join();
 		}
-	}
 
-	if (m_ayncListener != nullptr)
-	{
-		delete m_ayncListener;
+		delete listener;
 	}
+
+	ReleasePool();
 }
 
 void SocketServer::ShutDown()
 {
-	std::mutex m;
-	std::unique_lock<std::mutex> lock(m);
-	size_t i;
-
 	ListenStop();
-
-	for (i = 0; i < m_socketServerState->SocketPool.size(); ++i)
-	{
-		Socket* s = m_socketServerState->SocketPool[i];
-
-		if (s != nullptr)
-		{
-			try
-			{
-				SocketBase::ShutDown(*s, SocketShutdownFlags::Both);
-			}
-			catch (CryptoSocketException&)
-			{
-				OnSocketError(SocketExceptions::SocketShutDown, std::string("The child socket did not shutdown gracefully"));
-			}
-
-			delete s;
-		}
-	}
-
-	m_socketServerState->SocketPool.clear();
-
-	try
-	{
-		SocketBase::ShutDown(m_socketServerState->BaseSocket, SocketShutdownFlags::Both);
-	}
-	catch(CryptoSocketException&)
-	{
-		throw;
-	}
-
-	m_socketServerState->BaseSocket.Clear();
 }
 
 //~~~Private Functions~~~//
 
 void SocketServer::AcceptBegin()
 {
-	std::mutex m;
-	std::unique_lock<std::mutex> lock(m);
+	Socket listener;
+	size_t plen;
 
 	// accept connection requests while open
 	while (!IsClosed())
 	{
 		m_socketServerState->InstanceCounter -= PollSockets();
 
-		if (m_socketServerState->SocketPool.size() < MaxConnections())
+		{
+			std::unique_lock<std::mutex> lock(m_socketServerState->PoolLock);
+			plen = m_socketServerState->SocketPool.size();
+			listener = m_socketServerState->BaseSocket;
+		}
+
+		if (plen < MaxConnections())
 		{
 			// engage the accept callback
 			++m_socketServerState->InstanceCounter;
-			IAsyncResult* ar = new IAsyncResult(m_socketServerState->BaseSocket, m_socketServerState->InstanceCounter);
+			IAsyncResult* ar = new IAsyncResult(listener, m_socketServerState->InstanceCounter);
 			AcceptCallback(ar);
 		}
+		else
+		{
+			std::this_thread::yield();
+		}
 	}
 
-	// join threads and delete all sockets
 	AcceptEnd();
 }
 
@@ -395,9 +363,11 @@ void SocketServer::AcceptCallback(IAsyncResult* Result)
 		}
 		else
 		{
+			target->InstanceCount = Result->Option;
 			// send the socket to the main thread
 			OnAsyncSocketAccepted(target->InstanceCount, *target);
 			// add the socket to the pool
+			std::unique_lock<std::mutex> lock(m_socketServerState->PoolLock);
 			m_socketServerState->SocketPool.push_back(target);
 		}
 
@@ -407,31 +377,107 @@ void SocketServer::AcceptCallback(IAsyncResult* Result)
 
 void SocketServer::AcceptEnd()
 {
+	m_socketServerState->IsListening = false;
+}
+
+void SocketServer::CloseListener()
+{
+	Socket listener;
+
+	m_socketServerState->IsListening = false;
+
+	{
+		// the accept thread copies the socket
+		std::unique_lock<std::mutex> lock(m_socketServerState->PoolLock);
+		listener = m_socketServerState->BaseSocket;
+		m_socketServerState->BaseSocket.Clear();
+	}
+
+	try
+	{
+		SocketBase::ShutDown(listener, SocketShutdownFlags::Both);
+	}
+	catch (CryptoSocketException&)
+	{
+		OnSocketError(SocketExceptions::SocketShutDown, std::string("The listening socket did not shutdown gracefully"));
+	}
+}
+
+void SocketServer::CreateListener()
+{
+	// stop a listener that is active
 	ListenStop();
+	m_socketServerState->IsClosed = false;
+
+	if (SocketBase::Create(m_socketServerState->BaseSocket) == false)
+	{
+		throw CryptoSocketException(std::string("SocketServer"), std::string("Listen"), std::string("The socket could not be created!"), ErrorCodes::SocketInvalid);
+	}
 }
 
 uint32_t SocketServer::PollSockets()
 {
+	std::unique_lock<std::mutex> lock(m_socketServerState->PoolLock);
 	size_t i;
 	uint32_t ret;
 
+	i = 0;
 	ret = 0;
 
-	for (i = 0; i < m_socketServerState->SocketPool.size(); ++i)
+	while (i < m_socketServerState->SocketPool.size())
 	{
 		Socket* sk = m_socketServerState->SocketPool[i];
 
 		if (sk != nullptr && SocketBase::IsConnected(*sk) == false)
 		{
 			m_socketServerState->SocketPool.erase(m_socketServerState->SocketPool.begin() + i);
+			SocketServerState::Release(*sk);
 			delete sk;
 			++ret;
 		}
+		else
+		{
+			++i;
+		}
 	}
 
 	return ret;
 }
 
+void SocketServer::ReleasePool()
+{
+	std::vector<Socket*> pool;
+	size_t i;
+
+	{
+		std::unique_lock<std::mutex> lock(m_socketServerState->PoolLock);
+		pool.swap(m_socketServerState->SocketPool);
+	}
+
+	for (i = 0; i < pool.size(); ++i)
+	{
+		if (pool[i] != nullptr)
+		{
+			try
+			{
+				SocketBase::ShutDown(*pool[i], SocketShutdownFlags::Both);
+			}
+			catch (CryptoSocketException&)
+			{
+				OnSocketError(SocketExceptions::SocketShutDown, std::string("The child socket did not shutdown gracefully"));
+			}
+
+			delete pool[i];
+		}
+	}
+}
+
+void SocketServer::StartListener()
+{
+	m_socketServerState->IsListening = true;
+	m_ayncListener = new std::thread([this]() { AcceptBegin(); });
+}
+
 void SocketServer::SetOptions()
 {
 #if defined(CEX_OS_WINDOWS)
diff --git a/CEX/SocketServer.h b/CEX/SocketServer.h
index 90045c6..912f6bf 100644
--- a/CEX/SocketServer.h
+++ b/CEX/SocketServer.h
@@ -176,6 +176,10 @@ public:
 private:
 
 	void AcceptBegin();
+	void CloseListener();
+	void CreateListener();
+	void ReleasePool();
+	void StartListener();
 	void AcceptEnd();
 	void AcceptCallback(IAsyncResult* Result);
 	uint32_t PollSockets();
-- 
2.43.0


From aaae8e1485b2ec768aaafe64f04e70d4946f5065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:41:54 +0000
Subject: [PATCH 145/155] fix: the address of a host, of a peer and of a socket
 was never the one returned by the system

---
 CEX/NetworkTools.cpp | 118 +++++++++++++++++++++++--------------------
 1 file changed, 62 insertions(+), 56 deletions(-)

diff --git a/CEX/NetworkTools.cpp b/CEX/NetworkTools.cpp
index fc9f02b..99e5235 100644
--- a/CEX/NetworkTools.cpp
+++ b/CEX/NetworkTools.cpp
@@ -2,6 +2,26 @@
 
 NAMESPACE_TOOLS
 
+static std::string AddressToString(const sockaddr_storage &Address)
+{
+	sockaddr_in6 sa6;
+	sockaddr_in sa4;
+	std::string name;
+
+	if (Address.ss_family == AF_INET6)
+	{
+		std::memcpy(&sa6, &Address, sizeof(sa6));
+		name = ipv6_address::ToString(ipv6_address(reinterpret_cast<uint8_t*>(&sa6.sin6_addr)));
+	}
+	else
+	{
+		std::memcpy(&sa4, &Address, sizeof(sa4));
+		name = ipv4_address::ToString(ipv4_address(reinterpret_cast<uint8_t*>(&sa4.sin_addr)));
+	}
+
+	return name;
+}
+
 ipv4_address NetworkTools::GetIPv4Address()
 {
 	std::string sadd;
@@ -55,6 +75,7 @@ ipv6_address NetworkTools::GetIPv6Address()
 	socket_t sock;
 	sockaddr_in6 loopback;
 	socklen_t addlen;
+	ipv6_address add;
 
 	std::memset(&loopback, 0, sizeof(loopback));
 	loopback.sin6_family = AF_INET6;
@@ -87,14 +108,18 @@ ipv6_address NetworkTools::GetIPv6Address()
 #endif
 	}
 
-	return ipv6_address::FromString(sadd);
+	if (sadd.size() != 0)
+	{
+		add = ipv6_address::FromString(sadd);
+	}
+
+	return add;
 }
 
 ipv4_info NetworkTools::GetIPv4Info(const std::string &Host, const std::string &Service)
 {
 	ipv4_info info = { 0 };
 	sockaddr_in sa;
-	std::string sai;
 	int32_t res;
 
 	std::memset(&info, 0x00, sizeof(info));
@@ -117,19 +142,20 @@ ipv4_info NetworkTools::GetIPv4Info(const std::string &Host, const std::string &
 
 	if (res == 0)
 	{
-		char ipstr[INET_ADDRSTRLEN] = { 0 };
-		sai.assign(ipstr);
-		inet_ntop(AF_INET, &sa.sin_addr, ipstr, INET_ADDRSTRLEN); // fix and test this
-		ipv4_address ipa = ipv4_address::FromString(sai);
-		info.address = ipa;
-		info.port = (uint16_t)ntohs(((struct sockaddr_in*)result->ai_addr)->sin_port);
-
-		if (result != NULL)
+		for (addrinfo* p = result; p != NULL; p = p->ai_next)
 		{
-			freeaddrinfo(result);
+			if (p->ai_family == AF_INET)
+			{
+				std::memcpy(&sa, p->ai_addr, sizeof(sa));
+				ipv4_address ipa(reinterpret_cast<uint8_t*>(&sa.sin_addr));
+				info.address = ipa;
+				info.port = static_cast<uint16_t>(ntohs(sa.sin_port));
+				break;
+			}
 		}
-	}
 
+		freeaddrinfo(result);
+	}
 
 
 #else
@@ -151,6 +177,11 @@ ipv4_info NetworkTools::GetIPv4Info(const std::string &Host, const std::string &
 
 #endif
 
+	if (res != 0)
+	{
+		throw CryptoSocketException(std::string("NetworkTools"), std::string("GetIPv4Info"), std::string("The host could not be resolved!"), ErrorCodes::SocketFailure);
+	}
+
 	return info;
 }
 
@@ -180,31 +211,19 @@ ipv6_info NetworkTools::GetIPv6Info(const std::string &Host, const std::string &
 
 	if (res == 0)
 	{
-		addrinfo *p;
-		void *addr;
-		char ipstr[INET6_ADDRSTRLEN] = { 0 };
-		std::string sai;
-
-		for (p = result; p != NULL; p = p->ai_next)
+		for (addrinfo* p = result; p != NULL; p = p->ai_next)
 		{
 			if (p->ai_family == AF_INET6)
 			{
-				struct sockaddr_in6 *ipv6 = reinterpret_cast<struct sockaddr_in6*>(p->ai_addr);
-				addr = &(ipv6->sin6_addr);
-				inet_ntop(p->ai_family, addr, reinterpret_cast<PSTR>(ipstr), sizeof(ipstr));
+				std::memcpy(&sa, p->ai_addr, sizeof(sa));
+				ipv6_address ipa(reinterpret_cast<uint8_t*>(&sa.sin6_addr));
+				info.address = ipa;
+				info.port = static_cast<uint16_t>(ntohs(sa.sin6_port));
 				break;
 			}
 		}
 
-		sai.assign(ipstr);
-		ipv6_address ipa = ipv6_address::FromString(sai);
-		info.address = ipa;
-		info.port = static_cast<uint16_t>(ntohs(sa.sin6_port));
-
-		if (result != NULL)
-		{
-			freeaddrinfo(result);
-		}
+		freeaddrinfo(result);
 	}
 
 #else
@@ -226,6 +245,11 @@ ipv6_info NetworkTools::GetIPv6Info(const std::string &Host, const std::string &
 
 #endif
 
+	if (res != 0)
+	{
+		throw CryptoSocketException(std::string("NetworkTools"), std::string("GetIPv6Info"), std::string("The host could not be resolved!"), ErrorCodes::SocketFailure);
+	}
+
 	return info;
 }
 
@@ -336,58 +360,40 @@ std::string NetworkTools::GetPeerName(Socket &Source)
 {
 	CEXASSERT(Source.Connection != UNINITIALIZED_SOCKET, "the socket has not been initialized.");
 
-	sockaddr psa;
+	sockaddr_storage psa;
 	socklen_t psalen;
-	std::string name("");
-	size_t slen;
 	int32_t res;
 
-	psalen = 0;
+	psalen = sizeof(psa);
 
-	res = getpeername(Source.Connection, &psa, &psalen);
+	res = getpeername(Source.Connection, reinterpret_cast<sockaddr*>(&psa), &psalen);
 
 	if (res == SOCKET_RET_ERROR)
 	{
 		throw CryptoSocketException(std::string("Socket"), std::string("GetPeerName"), std::string("The socket address is invalid!"), ErrorCodes::SocketFailure);
 	}
 
-	slen = static_cast<size_t>(psalen);
-
-	if (slen != 0)
-	{
-		name = reinterpret_cast<char*>(psa.sa_data);
-	}
-
-	return name;
+	return AddressToString(psa);
 }
 
 std::string NetworkTools::GetSocketName(Socket &Source)
 {
 	CEXASSERT(Source.Connection != UNINITIALIZED_SOCKET, "the socket has not been initialized.");
 
-	sockaddr psa;
+	sockaddr_storage psa;
 	socklen_t psalen;
-	std::string name;
-	size_t slen;
 	int32_t res;
 
-	psalen = 0;
+	psalen = sizeof(psa);
 
-	res = getsockname(Source.Connection, &psa, &psalen);
+	res = getsockname(Source.Connection, reinterpret_cast<sockaddr*>(&psa), &psalen);
 
 	if (res == SOCKET_RET_ERROR)
 	{
 		throw CryptoSocketException(std::string("Socket"), std::string("GetSocketName"), std::string("The socket address is invalid!"), ErrorCodes::SocketFailure);
 	}
 
-	slen = static_cast<size_t>(psalen);
-
-	if (slen != 0)
-	{
-		name = reinterpret_cast<char*>(psa.sa_data);
-	}
-
-	return name;
+	return AddressToString(psa);
 }
 
 uint16_t NetworkTools::PortNameToNumber(const std::string &Name, const std::string &Protocol)
-- 
2.43.0


From f94a83c2cbca770921f432b32ad306c1777394ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:57:24 +0000
Subject: [PATCH 146/155] fix: ParallelFor loses the exception of a task

---
 CEX/ParallelTools.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/CEX/ParallelTools.cpp b/CEX/ParallelTools.cpp
index b11d185..74157c6 100644
--- a/CEX/ParallelTools.cpp
+++ b/CEX/ParallelTools.cpp
@@ -42,6 +42,12 @@ void ParallelTools::ParallelFor(size_t From, size_t To, const std::function<void
 		futures[i].wait();
 	}
 
+	// every task has finished, the failure of a task is the failure of the loop
+	for (size_t i = 0; i < futures.size(); ++i)
+	{
+		futures[i].get();
+	}
+
 	futures.clear();
 #endif
 }
-- 
2.43.0


From f63c21da8ab879840744b805392106a3addde302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:57:24 +0000
Subject: [PATCH 147/155] fix: assigning an event to itself, or two events to
 each other, deadlocks

---
 CEX/EventHandler.h | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/CEX/EventHandler.h b/CEX/EventHandler.h
index 52cb276..20e0bda 100644
--- a/CEX/EventHandler.h
+++ b/CEX/EventHandler.h
@@ -120,10 +120,15 @@ public:
 	// copy assignment operator
 	event& operator=(const event& src)
 	{
-		std::lock_guard<std::mutex> lock(m_handlersLocker);
-		std::lock_guard<std::mutex> lock2(src.m_handlersLocker);
+		if (this != &src)
+		{
+			// both locks are taken as one, two events can be assigned to each other
+			std::unique_lock<std::mutex> lock(m_handlersLocker, std::defer_lock);
+			std::unique_lock<std::mutex> lock2(src.m_handlersLocker, std::defer_lock);
+			std::lock(lock, lock2);
 
-		m_handlers = src.m_handlers;
+			m_handlers = src.m_handlers;
+		}
 
 		return *this;
 	}
@@ -131,10 +136,14 @@ public:
 	// move assignment operator
 	event& operator=(event&& src)
 	{
-		std::lock_guard<std::mutex> lock(m_handlersLocker);
-		std::lock_guard<std::mutex> lock2(src.m_handlersLocker);
+		if (this != &src)
+		{
+			std::unique_lock<std::mutex> lock(m_handlersLocker, std::defer_lock);
+			std::unique_lock<std::mutex> lock2(src.m_handlersLocker, std::defer_lock);
+			std::lock(lock, lock2);
 
-		std::swap(m_handlers, src.m_handlers);
+			std::swap(m_handlers, src.m_handlers);
+		}
 
 		return *this;
 	}
-- 
2.43.0


From 02e87eb694b8f9616eebc52a3af0f6946c32484d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:57:24 +0000
Subject: [PATCH 148/155] fix: an asynchronous event call uses the handlers of
 a later time, and the event after its end

---
 CEX/EventHandler.h | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/CEX/EventHandler.h b/CEX/EventHandler.h
index 20e0bda..bb16033 100644
--- a/CEX/EventHandler.h
+++ b/CEX/EventHandler.h
@@ -206,7 +206,16 @@ public:
 
 	std::future<void> call_async(Args... params) const
 	{
-		return std::async(std::launch::async, [this](Args... asyncParams) { call(asyncParams...); }, params...);
+		// the handlers are those registered at the time of the call, the event can end before they run
+		handler_collection_type handlersCopy = get_handlers_copy();
+
+		return std::async(std::launch::async, [handlersCopy](Args... asyncParams)
+		{
+			for (const auto& handler : handlersCopy)
+			{
+				handler(asyncParams...);
+			}
+		}, params...);
 	}
 
 	inline void operator()(Args... params) const
-- 
2.43.0


From a164617d020f734d5691f48bab643bf8900e096a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:57:24 +0000
Subject: [PATCH 149/155] fix: ThreadPool does not compile, locks itself out,
 loses wake-ups and ends the process when a task fails

---
 CEX/ThreadPool.h | 183 ++++++++++++++++++++++++++++++++---------------
 1 file changed, 125 insertions(+), 58 deletions(-)

diff --git a/CEX/ThreadPool.h b/CEX/ThreadPool.h
index f81c32e..925723d 100644
--- a/CEX/ThreadPool.h
+++ b/CEX/ThreadPool.h
@@ -2,12 +2,14 @@
 #define CEX_THREADPOOL_H
 
 #include "CexDomain.h"
-#include <atomic>
 #include <condition_variable>
+#include <exception>
 #include <functional>
 #include <list>
 #include <mutex>
 #include <thread>
+#include <utility>
+#include <vector>
 
 NAMESPACE_ROOT
 
@@ -22,14 +24,14 @@ private:
 
     std::vector<std::thread> m_threadPool;
     std::list<std::function<void(void)>> m_threadQueue;
-    std::atomic_size_t      m_jobsRemaining;
-    std::atomic_size_t      m_maxThreads;
-    std::atomic_bool        m_jobsAbort;
-    std::atomic_bool        m_jobsFinished;
+    size_t                  m_jobsRemaining;
+    size_t                  m_maxThreads;
+    size_t                  m_detachedThreads;
+    size_t                  m_poolVersion;
+    std::exception_ptr      m_taskError;
     std::condition_variable m_jobsAvailable;
     std::condition_variable m_waitCondition;
     std::mutex              m_queueMutex;
-    std::mutex              m_waitMutex;
 
 public:
 
@@ -47,8 +49,8 @@ public:
         m_maxThreads(MaximumThreads > 1 && MaximumThreads <= DEF_MAXTHREADS ?
             MaximumThreads : 
             DEF_MAXTHREADS),
-        m_jobsAbort(false), 
-        m_jobsFinished(false)
+        m_detachedThreads(0),
+        m_poolVersion(0)
     {
     }
 
@@ -57,7 +59,14 @@ public:
     /// </summary>
     ~ThreadPool() 
     {
-        JoinAll();
+        try
+        {
+            JoinAll();
+        }
+        catch (...)
+        {
+            // the failure of a task can not leave the destructor
+        }
     }
 
     /// <summary>
@@ -87,7 +96,7 @@ public:
     {
         std::lock_guard<std::mutex> guard(m_queueMutex);
 
-        return DEF_MAXTHREADS;
+        return m_maxThreads;
     }
 
     /// <summary>
@@ -99,18 +108,33 @@ public:
     {
         std::lock_guard<std::mutex> guard(m_queueMutex);
 
-        if (ThreadCount() < MaximumThreads())
+        m_threadQueue.emplace_back(Task);
+        ++m_jobsRemaining;
+
+        if (m_threadPool.size() < m_maxThreads)
         {
-            m_threadPool.push_back(std::thread([this] { this->Task(); }));
+            try
+            {
+                const size_t VERSION = m_poolVersion;
+                m_threadPool.push_back(std::thread([this, VERSION] { this->Task(VERSION); }));
+            }
+            catch (...)
+            {
+                // the threads that exist will run the job, without one it is refused
+                if (m_threadPool.size() == 0)
+                {
+                    m_threadQueue.pop_back();
+                    --m_jobsRemaining;
+                    throw;
+                }
+            }
         }
 
-        m_threadQueue.emplace_back(Task);
-        ++m_jobsRemaining;
         m_jobsAvailable.notify_one();
     }
 
     /// <summary>
-    /// Add a detached new job to the thread pool
+    /// Add a new job with a thread of its own to the thread pool
     /// </summary>
     /// 
     /// <param name="Task">The asynchronous task to run</param>
@@ -118,96 +142,139 @@ public:
     {
         std::lock_guard<std::mutex> guard(m_queueMutex);
 
-        if (ThreadCount() < MaximumThreads())
+        std::thread thd([this, Task]
         {
-            std::thread thd([this] { this->Task(); });
-            thd.detach();
-            m_threadPool.push_back(thd);
-        }
+            Run(Task);
+
+            std::lock_guard<std::mutex> lock(m_queueMutex);
+            --m_jobsRemaining;
+            --m_detachedThreads;
+            m_waitCondition.notify_all();
+        });
 
-        m_threadQueue.emplace_back(Task);
         ++m_jobsRemaining;
-        m_jobsAvailable.notify_one();
+        ++m_detachedThreads;
+        thd.detach();
     }
 
     /// <summary>
     /// Join all threads in the pool.
+    /// <para>The exception of a task that has failed is thrown when the threads have ended.</para>
     /// </summary>
     /// 
     /// <param name="WaitForAll">If true, waits for the thread queue to empty, else completes current jobs</param>
     void JoinAll(bool WaitForAll = true)
     {
-        if (!m_jobsFinished)
-        {
-            if (WaitForAll)
-            {
-                WaitAll();
-            }
+        std::unique_lock<std::mutex> lock(m_queueMutex);
+        std::vector<std::thread> threads;
 
-            // wake up any thread that's waiting for a new job
-            m_jobsAbort = true;
+        if (WaitForAll)
+        {
+            m_waitCondition.wait(lock, [this] { return m_jobsRemaining == 0; });
+        }
+        else
+        {
+            // the jobs that have not been started are removed
+            m_jobsRemaining -= m_threadQueue.size();
+            m_threadQueue.clear();
+        }
 
-            m_jobsAvailable.notify_all();
+        // wake up any thread that's waiting for a new job
+        ++m_poolVersion;
+        threads.swap(m_threadPool);
+        m_jobsAvailable.notify_all();
+        lock.unlock();
 
-            for (auto &x : m_threadPool)
+        for (auto &x : threads)
+        {
+            if (x.joinable())
             {
-                if (x.joinable())
-                {
-                    x.join();
-                }
+                x.join();
             }
-
-            m_jobsFinished = true;
         }
+
+        lock.lock();
+        m_waitCondition.wait(lock, [this] { return m_detachedThreads == 0; });
+        m_waitCondition.notify_all();
+        Rethrow();
     }
 
     /// <summary>
     /// Wait for the pool to empty all work items
+    /// <para>The exception of a task that has failed is thrown when the work items have ended.</para>
     /// </summary>
     void WaitAll()
     {
-        if (m_jobsRemaining > 0)
+        std::unique_lock<std::mutex> lock(m_queueMutex);
+
+        m_waitCondition.wait(lock, [this] { return m_jobsRemaining == 0; });
+        Rethrow();
+    }
+
+private:
+
+    void Rethrow()
+    {
+        std::exception_ptr err;
+
+        std::swap(err, m_taskError);
+
+        if (err != nullptr)
         {
-            std::unique_lock<std::mutex> lock(m_waitMutex);
-            m_waitCondition.wait(lock, [this] { return this->m_jobsRemaining == 0; });
-            lock.unlock();
+            std::rethrow_exception(err);
         }
     }
 
-private:
+    void Run(const std::function<void(void)> &Job)
+    {
+        try
+        {
+            Job();
+        }
+        catch (...)
+        {
+            std::lock_guard<std::mutex> lock(m_queueMutex);
+
+            if (m_taskError == nullptr)
+            {
+                m_taskError = std::current_exception();
+            }
+        }
+    }
 
-    void Task()
+    void Task(size_t Version)
     {
-        while (!m_jobsAbort)
+        std::function<void(void)> func;
+
+        while (NextJob(Version, func))
         {
-            NextJob()();
+            Run(func);
+            func = nullptr;
 
+            std::lock_guard<std::mutex> lock(m_queueMutex);
             --m_jobsRemaining;
-            m_waitCondition.notify_one();
+            m_waitCondition.notify_all();
         }
     }
 
-    std::function<void(void)> NextJob()
+    bool NextJob(size_t Version, std::function<void(void)> &Job)
     {
         std::unique_lock<std::mutex> lock(m_queueMutex);
-        std::function<void(void)> func;
+        bool ret;
 
         // wait for a job if we don't have any.
-        m_jobsAvailable.wait(lock, [this]() ->bool { return m_threadQueue.size() || m_jobsAbort; });
+        m_jobsAvailable.wait(lock, [this, Version]() ->bool { return m_threadQueue.size() || m_poolVersion != Version; });
+
+        ret = (m_poolVersion == Version);
 
         // get job from the thread queue
-        if (!m_jobsAbort)
+        if (ret)
         {
-            func = m_threadQueue.front();
+            Job = m_threadQueue.front();
             m_threadQueue.pop_front();
         }
-        else
-        {
-            func = []{};
-            ++m_jobsRemaining;
-        }
 
-        return func;
+        return ret;
     }
 };
 
-- 
2.43.0


From 53b6e826d3faf51e8d5620e058de12fbbff6fde4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:42:37 +0000
Subject: [PATCH 150/155] fix: SecureStream is left decrypted when it is asked
 to grow beyond memory

---
 CEX/SecureStream.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/CEX/SecureStream.cpp b/CEX/SecureStream.cpp
index 03e16ed..6bf3ead 100644
--- a/CEX/SecureStream.cpp
+++ b/CEX/SecureStream.cpp
@@ -302,8 +302,9 @@ void SecureStream::WriteByte(uint8_t Value)
 void SecureStream::Expand(size_t Length)
 {
 	// the new bytes are zeroes in the plain-text, so the resize is done on the decrypted state
-	Transform();
+	// a length that can not be had is refused before anything changes
 	std::vector<uint8_t> tmpd(Length, 0x00);
+	Transform();
 	MemoryTools::Copy(m_streamData, 0, tmpd, 0, m_streamData.size());
 	// erase the previous contents before they are released
 	MemoryTools::Clear(m_streamData, 0, m_streamData.size());
-- 
2.43.0


From 7ee98d02a8ea79e85a5ecc7f4ee67fb6f68fe521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:42:37 +0000
Subject: [PATCH 151/155] fix: every CSP instance writes to one global handle
 that nothing uses

---
 CEX/CSP.cpp | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/CEX/CSP.cpp b/CEX/CSP.cpp
index ecdf0a9..184ffcf 100644
--- a/CEX/CSP.cpp
+++ b/CEX/CSP.cpp
@@ -24,7 +24,6 @@ using Tools::MemoryTools;
 
 #if defined(CEX_OS_WINDOWS)
 #	pragma comment(lib, "crypt32.lib")
-	HCRYPTPROV m_hProvider = 0;
 #elif defined (CEX_OS_POSIX)
 #	if !defined(O_NOCTTY)
 #		define O_NOCTTY 0
@@ -53,10 +52,6 @@ CSP::~CSP()
 	{
 		m_pvdSelfTest.reset(nullptr);
 	}
-
-#if defined(CEX_OS_WINDOWS)
-	m_hProvider = 0;
-#endif
 }
 
 //~~~Public Functions~~~//
-- 
2.43.0


From ee8c902fd61ab4e8db50a4590d19dc297bfe4195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:42:37 +0000
Subject: [PATCH 152/155] fix: HasRdRand and HasRdtsc write shared flags
 without synchronisation

---
 CEX/SystemTools.cpp | 4 ++--
 CEX/SystemTools.h   | 5 +++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/CEX/SystemTools.cpp b/CEX/SystemTools.cpp
index 98c4d40..edfe189 100644
--- a/CEX/SystemTools.cpp
+++ b/CEX/SystemTools.cpp
@@ -2,8 +2,8 @@
 
 NAMESPACE_TOOLS
 
-bool SystemTools::TMR_RDTSC = false;
-bool SystemTools::HAS_RDRAND = false;
+std::atomic<bool> SystemTools::TMR_RDTSC(false);
+std::atomic<bool> SystemTools::HAS_RDRAND(false);
 
 std::string SystemTools::ComputerName()
 {
diff --git a/CEX/SystemTools.h b/CEX/SystemTools.h
index 75d23ef..a4dfb15 100644
--- a/CEX/SystemTools.h
+++ b/CEX/SystemTools.h
@@ -22,6 +22,7 @@
 #include "CexDomain.h"
 #include "ArrayTools.h"
 #include "CpuDetect.h"
+#include <atomic>
 #include <chrono>
 #include <string>
 
@@ -79,8 +80,8 @@ private:
 	static const int32_t CEX_VERSION_PATCH = 0;
 	static const int32_t CEX_VERSION_RELEASE = 4;
 
-	static bool HAS_RDRAND;
-	static bool TMR_RDTSC;
+	static std::atomic<bool> HAS_RDRAND;
+	static std::atomic<bool> TMR_RDTSC;
 
 public:
 
-- 
2.43.0


From 80646c7d2ad67166b103acc77f0149220318d10f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:42:37 +0000
Subject: [PATCH 153/155] fix: the timers share state between instances without
 synchronisation

---
 CEX/Timer.cpp | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/CEX/Timer.cpp b/CEX/Timer.cpp
index 3a6fd08..124a3e7 100644
--- a/CEX/Timer.cpp
+++ b/CEX/Timer.cpp
@@ -100,14 +100,11 @@ TimerWord Timer::GetCurrentTimerValue()
 TimerWord Timer::TicksPerSecond()
 {
 #if defined(CEX_OS_WINDOWS)
-	static LARGE_INTEGER freq = { 0 };
+	LARGE_INTEGER freq = { 0 };
 
-	if (freq.QuadPart == 0)
+	if (!QueryPerformanceFrequency(&freq))
 	{
-		if (!QueryPerformanceFrequency(&freq))
-		{
-			throw CryptoProcessingException(std::string("TicksPerSecond"), std::string("Timer"), std::string("QueryPerformanceCounter failed!"), Enumeration::ErrorCodes::Unreachable);
-		}
+		throw CryptoProcessingException(std::string("TicksPerSecond"), std::string("Timer"), std::string("QueryPerformanceCounter failed!"), Enumeration::ErrorCodes::Unreachable);
 	}
 
 	return freq.QuadPart;
@@ -125,7 +122,7 @@ TimerWord ThreadUserTimer::GetCurrentTimerValue()
 
 	TimerWord twrd;
 	uint64_t high;
-	static bool cthd;
+	bool cthd;
 
 	cthd = true;
 	twrd = 0;
-- 
2.43.0


From db095db573a5471c05735ee1a21f11c345e0707a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:07:08 +0000
Subject: [PATCH 154/155] fix: resolving an IPv4 host reads its address through
 a null pointer

---
 CEX/NetworkTools.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CEX/NetworkTools.cpp b/CEX/NetworkTools.cpp
index 99e5235..5e19989 100644
--- a/CEX/NetworkTools.cpp
+++ b/CEX/NetworkTools.cpp
@@ -118,7 +118,7 @@ ipv6_address NetworkTools::GetIPv6Address()
 
 ipv4_info NetworkTools::GetIPv4Info(const std::string &Host, const std::string &Service)
 {
-	ipv4_info info = { 0 };
+	ipv4_info info;
 	sockaddr_in sa;
 	int32_t res;
 
-- 
2.43.0


From 7733be49be24a265ddd7b0a3b2de009edd473554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:08:08 +0000
Subject: [PATCH 155/155] fix: shutting down a socket can wait for ever for
 data that another thread has received

---
 CEX/SocketBase.cpp | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/CEX/SocketBase.cpp b/CEX/SocketBase.cpp
index fea1414..435900a 100644
--- a/CEX/SocketBase.cpp
+++ b/CEX/SocketBase.cpp
@@ -5,12 +5,18 @@ NAMESPACE_NETWORK
 #if defined(CEX_OS_WINDOWS)
 	const int32_t SOCKET_EINVAL = WSAEINVAL;
 	const int32_t SOCKET_EWOULDBLOCK = WSAEWOULDBLOCK;
+	const int32_t SOCKET_ENOTCONN = WSAENOTCONN;
+	const int32_t SOCKET_ECONNRESET = WSAECONNRESET;
+	const int32_t SOCKET_ECONNABORTED = WSAECONNABORTED;
 #else
 	const int32_t SD_RECEIVE = 0x00000000L;
 	const int32_t SD_SEND = 0x00000001L;
 	const int32_t SD_BOTH = 0x00000002L;
 	const int32_t SOCKET_EINVAL = EINVAL;
 	const int32_t SOCKET_EWOULDBLOCK = EWOULDBLOCK;
+	const int32_t SOCKET_ENOTCONN = ENOTCONN;
+	const int32_t SOCKET_ECONNRESET = ECONNRESET;
+	const int32_t SOCKET_ECONNABORTED = ECONNABORTED;
 #endif
 
 //~~~Accessors~~~//
@@ -316,11 +322,18 @@ void SocketBase::ShutDown(Socket &Source, SocketShutdownFlags Parameters)
 
 	if (Source.Connection != UNINITIALIZED_SOCKET)
 	{
-		res = SOCKET_RET_SUCCESS;
+		// testing the connection first could wait for data that another thread has received
+		res = shutdown(Source.Connection, static_cast<int32_t>(Parameters));
 
-		if (IsConnected(Source))
+		if (res == SOCKET_RET_ERROR)
 		{
-			res = shutdown(Source.Connection, static_cast<int32_t>(Parameters));
+			const int32_t ERRCODE = static_cast<int32_t>(GetLastError());
+
+			if (ERRCODE == SOCKET_ENOTCONN || ERRCODE == SOCKET_ECONNRESET || ERRCODE == SOCKET_ECONNABORTED)
+			{
+				// there is no connection to shut down
+				res = SOCKET_RET_SUCCESS;
+			}
 		}
 
 		// the handle is released, even if the shutdown has failed
-- 
2.43.0

