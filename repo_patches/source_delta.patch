From c7a27f35290b41becf9c15cc59d78cabd31545db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:09:44 +0000
Subject: [PATCH 01/80] fix: fromHex wrote beyond the output array when the
 text was longer than it

---
 src/Conversion.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Conversion.cpp b/src/Conversion.cpp
index 7a37261..0e012b8 100644
--- a/src/Conversion.cpp
+++ b/src/Conversion.cpp
@@ -111,6 +111,10 @@ size_t fromHex(const char * hex, size_t hexLen, uint8_t * array, size_t arraySiz
         if((v1 > 0x0F) || (v2 > 0x0F)){ // if invalid char stop parsing
             return i;
         }
+        if(i >= arraySize){ // output array is too small
+            memzero(array, arraySize);
+            return 0;
+        }
         array[i] = (v1<<4) | v2;
     }
     return hexLen/2;
-- 
2.43.0


From eb324836806a5c765598bc5665ad1f2f6c0576d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:09:44 +0000
Subject: [PATCH 02/80] fix: fromBin decoded texts of more than 2048 bits to
 wrong bytes

---
 src/Conversion.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Conversion.cpp b/src/Conversion.cpp
index 0e012b8..e11c024 100644
--- a/src/Conversion.cpp
+++ b/src/Conversion.cpp
@@ -149,7 +149,7 @@ size_t fromBin(const char * bin, size_t binLen, uint8_t * array, size_t arraySiz
     for(size_t i = 0; i < binLen; i++){
         // we go in reverse order (from the end of the string)
         uint8_t exp = (i%8); // shift
-        uint8_t n = (i/8); // current byte from the end
+        size_t n = (i/8); // current byte from the end
         char c = bin[binLen-i-1];
         if(c == '1'){
             // set bit
-- 
2.43.0


From 92781474948fd1553904eb4b645abb83f5822fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:09:44 +0000
Subject: [PATCH 03/80] fix: toBase58Check read beyond the array when it
 consisted of zero bytes

---
 src/Conversion.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Conversion.cpp b/src/Conversion.cpp
index e11c024..a7335b7 100644
--- a/src/Conversion.cpp
+++ b/src/Conversion.cpp
@@ -351,7 +351,7 @@ size_t toBase58Check(const uint8_t * array, size_t arraySize, char * output, siz
 #if USE_ARDUINO_STRING || USE_STD_STRING
 String toBase58Check(const uint8_t * array, size_t arraySize){
     if(array == NULL){ return String(); }
-    size_t len = toBase58Length(array, arraySize + 4) + 1; // +4 checksum +1 for null terminator
+    size_t len = toBase58Length(array, arraySize) + 6 + 1; // 4-byte checksum (at most 6 characters) +1 for null terminator
     char * buf = (char *)malloc(len);
     if(buf == NULL){ return String(); }
     toBase58Check(array, arraySize, buf, len);
-- 
2.43.0


From b5d9499312f9609a279f1599db116088395ba356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:09:44 +0000
Subject: [PATCH 04/80] fix: base58 and base43 decoders dropped or invented
 leading zero bytes

---
 src/Conversion.cpp | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/Conversion.cpp b/src/Conversion.cpp
index a7335b7..8b569c1 100644
--- a/src/Conversion.cpp
+++ b/src/Conversion.cpp
@@ -362,11 +362,15 @@ String toBase58Check(const uint8_t * array, size_t arraySize){
 #endif
 
 
-// TODO: add zero count, fix wrong length
 size_t fromBase58Length(const char * array, size_t arraySize){
     if(array == NULL){ return 0; }
-    size_t size = arraySize * 361 / 493 + 1;
-    return size;
+    // every leading zero character stands for a whole zero byte
+    size_t zeroCount = 0;
+    while(zeroCount < arraySize && array[zeroCount] == BASE58_CHARS[0]){
+        zeroCount++;
+    }
+    size_t size = (arraySize - zeroCount) * 361 / 493 + 1;
+    return size + zeroCount;
 }
 
 size_t fromBase58(const char * encoded, size_t encodedSize, uint8_t * output, size_t outputSize){
@@ -386,7 +390,7 @@ size_t fromBase58(const char * encoded, size_t encodedSize, uint8_t * output, si
     uint8_t * tmp = (uint8_t *) calloc(size, sizeof(uint8_t));
     if(tmp == NULL){ return 0; }
 
-    uint8_t zeroCount = 0;
+    size_t zeroCount = 0;
     for(size_t i = 0; i<encodedSize; i++){
         if(encoded[i] == BASE58_CHARS[0]){
             zeroCount++;
@@ -412,7 +416,7 @@ size_t fromBase58(const char * encoded, size_t encodedSize, uint8_t * output, si
         }
     }
     // shifting array
-    uint8_t shift = 0;
+    size_t shift = 0;
     for(size_t i = zeroCount; i < size; i++){
         if(tmp[i] == 0){
             shift++;
@@ -559,11 +563,15 @@ String toBase43(const uint8_t * array, size_t arraySize){
     return s;
 }
 #endif
-// TODO: add zero count, fix wrong length
 size_t fromBase43Length(const char * array, size_t arraySize){
     if(array == NULL){ return 0; }
-    size_t size = arraySize * 68 / 100 + 1;
-    return size;
+    // every leading zero character stands for a whole zero byte
+    size_t zeroCount = 0;
+    while(zeroCount < arraySize && array[zeroCount] == BASE43_CHARS[0]){
+        zeroCount++;
+    }
+    size_t size = (arraySize - zeroCount) * 68 / 100 + 1;
+    return size + zeroCount;
 }
 
 size_t fromBase43(const char * encoded, size_t encodedSize, uint8_t * output, size_t outputSize){
@@ -583,7 +591,7 @@ size_t fromBase43(const char * encoded, size_t encodedSize, uint8_t * output, si
     uint8_t * tmp = (uint8_t *) calloc(size, sizeof(uint8_t));
     if(tmp == NULL){ return 0; }
 
-    uint8_t zeroCount = 0;
+    size_t zeroCount = 0;
     for(size_t i = 0; i<encodedSize; i++){
         if(encoded[i] == BASE43_CHARS[0]){
             zeroCount++;
@@ -609,7 +617,7 @@ size_t fromBase43(const char * encoded, size_t encodedSize, uint8_t * output, si
         }
     }
     // shifting array
-    uint8_t shift = 0;
+    size_t shift = 0;
     for(size_t i = zeroCount; i < size; i++){
         if(tmp[i] == 0){
             shift++;
-- 
2.43.0


From b97160fc3b130995e07305da5b02db0f3e64b025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:09:44 +0000
Subject: [PATCH 05/80] fix: base58 and base43 decoders treated a NUL character
 as a digit

---
 src/Conversion.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Conversion.cpp b/src/Conversion.cpp
index 8b569c1..e884f55 100644
--- a/src/Conversion.cpp
+++ b/src/Conversion.cpp
@@ -381,7 +381,7 @@ size_t fromBase58(const char * encoded, size_t encodedSize, uint8_t * output, si
     // looking for the end of char array
     for(l=0; l<encodedSize; l++){
         const char * pch = strchr(BASE58_CHARS, encoded[l]);
-        if(pch==NULL){ // char not in the alphabet
+        if(pch==NULL || encoded[l] == 0){ // char not in the alphabet
             break;
         }
     }
@@ -582,7 +582,7 @@ size_t fromBase43(const char * encoded, size_t encodedSize, uint8_t * output, si
     // looking for the end of char array
     for(l=0; l<encodedSize; l++){
         const char * pch = strchr(BASE43_CHARS, encoded[l]);
-        if(pch==NULL){ // char not in the alphabet
+        if(pch==NULL || encoded[l] == 0){ // char not in the alphabet
             break;
         }
     }
-- 
2.43.0


From d82bdcd25a03f0f59d6679a17e2db828ac3f2f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:09:44 +0000
Subject: [PATCH 06/80] fix: toBase64 of an empty array read and wrote out of
 bounds

---
 src/Conversion.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Conversion.cpp b/src/Conversion.cpp
index e884f55..e32ca17 100644
--- a/src/Conversion.cpp
+++ b/src/Conversion.cpp
@@ -665,6 +665,9 @@ size_t toBase64(const uint8_t * array, size_t arraySize, char * output, size_t o
     if(outputSize < toBase64Length(array, arraySize, flags)){
         return 0;
     }
+    if(arraySize == 0){
+        return 0;
+    }
     while(3 * cur + 3 < arraySize){
         uint32_t val = bigEndianToInt(array+3*cur, 3);
         for(uint8_t i=0; i<4; i++){
-- 
2.43.0


From 98c67bc2f185bb8c0aab394e173f85a5a00825b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:09:44 +0000
Subject: [PATCH 07/80] fix: fromBase64 read beyond unpadded text, ignored text
 after padding and treated NUL as a digit

---
 src/Conversion.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/Conversion.cpp b/src/Conversion.cpp
index e32ca17..75b58c5 100644
--- a/src/Conversion.cpp
+++ b/src/Conversion.cpp
@@ -722,7 +722,7 @@ String toBase64(const uint8_t * array, size_t arraySize, uint8_t flags){
 }
 #endif
 size_t fromBase64Length(const char * array, size_t arraySize, uint8_t flags){
-    if(array == NULL){ return 0; }
+    if(array == NULL || arraySize == 0){ return 0; }
     if(arraySize % 4 != 0 && (flags & BASE64_NOPADDING) == 0){ return 0; }
     size_t v = (arraySize / 4) * 3;
     if(flags & BASE64_NOPADDING){
@@ -753,7 +753,9 @@ size_t fromBase64(const char * encoded, size_t encodedSize, uint8_t * output, si
         }
         uint32_t val = 0;
         for(size_t i=0; i<4; i++){
-            char c = encoded[cur*4+i];
+            // end of the text ends the last group if it is not padded
+            bool end = (cur*4+i >= encodedSize);
+            char c = end ? '=' : encoded[cur*4+i];
             // replace characters for urlsafe version
             if(c=='-' && (flags & BASE64_URLSAFE)){
                 c = '+';
@@ -762,8 +764,10 @@ size_t fromBase64(const char * encoded, size_t encodedSize, uint8_t * output, si
                 c = '/';
             }
             const char * pch = strchr(BASE64_CHARS, c);
-            if(pch==NULL || ((flags & BASE64_NOPADDING) && (c == 0))){
-                if((encoded[cur*4+i] == '=') || (c == 0 && (flags & BASE64_NOPADDING))){
+            if(pch==NULL || c == 0){
+                // padding is only allowed at the very end of the text
+                bool last = (cur*4+4 >= encodedSize) && (i == 3 || end || (cur*4+3 < encodedSize && encoded[cur*4+3] == '='));
+                if(c == '=' && last){
                     if(i==3){
                         val = (val >> 2);
                         if(outputSize < 3*cur+2){
-- 
2.43.0


From cb0338b0616af978b7336a27167541d329191d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:09:44 +0000
Subject: [PATCH 08/80] fix: readVarInt read from an empty array

---
 src/Conversion.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Conversion.cpp b/src/Conversion.cpp
index 75b58c5..e286984 100644
--- a/src/Conversion.cpp
+++ b/src/Conversion.cpp
@@ -879,6 +879,9 @@ uint8_t lenVarInt(uint64_t num){
     return 9;
 }
 uint64_t readVarInt(const uint8_t * array, size_t arraySize){
+    if(arraySize == 0){
+        return 0;
+    }
     if(array[0] < 0xfd){
         return array[0];
     }else{
-- 
2.43.0


From 838f3f3c082b1d582e0bec172308a5e19e0654e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:09:44 +0000
Subject: [PATCH 09/80] fix: intToLittleEndian and intToBigEndian repeated the
 number in arrays longer than 8 bytes

---
 src/Conversion.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Conversion.cpp b/src/Conversion.cpp
index e286984..e70debd 100644
--- a/src/Conversion.cpp
+++ b/src/Conversion.cpp
@@ -845,7 +845,7 @@ uint64_t littleEndianToInt(const uint8_t * array, size_t arraySize){
 
 void intToLittleEndian(uint64_t num, uint8_t * array, size_t arraySize){
     for(size_t i = 0; i < arraySize; i++){
-        array[i] = ((num >> (8*i)) & 0xFF);
+        array[i] = (i < sizeof(num)) ? ((num >> (8*i)) & 0xFF) : 0;
     }
 }
 
@@ -860,7 +860,7 @@ uint64_t bigEndianToInt(const uint8_t * array, size_t arraySize){
 
 void intToBigEndian(uint64_t num, uint8_t * array, size_t arraySize){
     for(size_t i = 0; i < arraySize; i++){
-        array[arraySize-i-1] = ((num >> (8*i)) & 0xFF);
+        array[arraySize-i-1] = (i < sizeof(num)) ? ((num >> (8*i)) & 0xFF) : 0;
     }
 }
 
-- 
2.43.0


From 26234a8d1e13b4c04a666e05498e8b7bf7c4afd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:15:09 +0000
Subject: [PATCH 10/80] fix: ECScalar plus or minus an integer of more than 29
 bits was wrong or aborted

---
 src/BitcoinCurve.cpp | 16 ++--------------
 1 file changed, 2 insertions(+), 14 deletions(-)

diff --git a/src/BitcoinCurve.cpp b/src/BitcoinCurve.cpp
index 941b47f..62d4ede 100644
--- a/src/BitcoinCurve.cpp
+++ b/src/BitcoinCurve.cpp
@@ -206,13 +206,7 @@ ECScalar ECScalar::operator+(const ECScalar& other) const{
 	return sum;
 }
 ECScalar ECScalar::operator+(const uint32_t& i) const{
-	bignum256 a;
-	bn_read_be(this->num, &a);
-	bn_addi(&a, i);
-	bn_mod(&a, &secp256k1.order);
-	ECScalar sum;
-	bn_write_be(&a, sum.num);
-	return sum;
+	return *this + ECScalar(i);
 }
 ECScalar ECScalar::operator-() const{
     bignum256 a, b;
@@ -223,13 +217,7 @@ ECScalar ECScalar::operator-() const{
 	return neg;
 }
 ECScalar ECScalar::operator-(const uint32_t& i) const{
-    bignum256 a;
-	bn_read_be(this->num, &a);
-	bn_subi(&a, i, &secp256k1.order);
-    bn_mod(&a, &secp256k1.order);
-	ECScalar sum;
-	bn_write_be(&a, sum.num);
-	return sum;
+	return *this - ECScalar(i);
 }
 ECScalar ECScalar::operator-(const ECScalar& other) const{
 	return (*this+(-other));
-- 
2.43.0


From 31d68535761d784101370ba471a7a547b11eba98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:15:09 +0000
Subject: [PATCH 11/80] fix: negated zero ECScalar was the group order instead
 of zero

---
 src/BitcoinCurve.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/BitcoinCurve.cpp b/src/BitcoinCurve.cpp
index 62d4ede..004510f 100644
--- a/src/BitcoinCurve.cpp
+++ b/src/BitcoinCurve.cpp
@@ -212,6 +212,7 @@ ECScalar ECScalar::operator-() const{
     bignum256 a, b;
 	bn_read_be(this->num, &a);
 	bn_subtract(&secp256k1.order, &a, &b);
+	bn_mod(&b, &secp256k1.order); // -0 is 0
 	ECScalar neg;
 	bn_write_be(&b, neg.num);
 	return neg;
-- 
2.43.0


From 1dfb3a4b723b33d5b73eb043dbbaf298bccb5d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:15:09 +0000
Subject: [PATCH 12/80] fix: dividing an ECScalar by zero accessed memory out
 of bounds

---
 src/BitcoinCurve.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/BitcoinCurve.cpp b/src/BitcoinCurve.cpp
index 004510f..b90d4f5 100644
--- a/src/BitcoinCurve.cpp
+++ b/src/BitcoinCurve.cpp
@@ -234,6 +234,9 @@ ECScalar ECScalar::operator*(const ECScalar& other) const{
 	return mul;
 }
 ECScalar ECScalar::operator/(const ECScalar& other) const{
+	if(!other.ECScalar::isValid()){ // division by zero
+		return ECScalar();
+	}
     bignum256 a, b;
 	bn_read_be(this->num, &a);
 	bn_read_be(other.num, &b);
-- 
2.43.0


From abdc62c80497b20a97dc3e28b293b60a3c1a48d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:15:09 +0000
Subject: [PATCH 13/80] fix: ECPoint comparison was reversed

---
 src/BitcoinCurve.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/BitcoinCurve.cpp b/src/BitcoinCurve.cpp
index b90d4f5..b19c1de 100644
--- a/src/BitcoinCurve.cpp
+++ b/src/BitcoinCurve.cpp
@@ -254,11 +254,11 @@ bool ECScalar::operator<(const ECScalar& other) const{
 	return bn_is_less(&a, &b);
 }
 bool ECPoint::operator<(const ECPoint& other) const{
-	uint8_t sec1[65];
-	uint8_t sec2[65];
+	uint8_t sec1[65] = { 0 };
+	uint8_t sec2[65] = { 0 };
 	sec(sec1, sizeof(sec1));
 	other.sec(sec2, sizeof(sec2));
-	return memcmp(sec1, sec2, sizeof(sec1)) > 0;
+	return memcmp(sec1, sec2, sizeof(sec1)) < 0;
 }
 ECPoint operator*(const ECScalar& scalar, const ECPoint& point){
 	ECPoint r;
-- 
2.43.0


From 797fbfbf43b2390b40e8553ca735422d8d1886ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:15:09 +0000
Subject: [PATCH 14/80] fix: compressed keys with coordinates that are not on
 the curve were reported valid

---
 src/BitcoinCurve.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/BitcoinCurve.cpp b/src/BitcoinCurve.cpp
index b19c1de..efc6c3c 100644
--- a/src/BitcoinCurve.cpp
+++ b/src/BitcoinCurve.cpp
@@ -111,7 +111,8 @@ bool ECPoint::isValid() const{
 	}
     curve_point pub;
 	uint8_t buf[65];
-	sec(buf, 65);
+	buf[0] = 0x04; // check both coordinates, even if the key is compressed
+	memcpy(buf+1, point, 64);
 	return ecdsa_read_pubkey(&secp256k1, buf, &pub);
 };
 bool ECPoint::isEven() const{
-- 
2.43.0


From 60f164a773c54396689df2f56210576d7106f0ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:15:09 +0000
Subject: [PATCH 15/80] fix: public keys parsed in pieces could get the sign of
 another key

---
 src/BitcoinCurve.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/BitcoinCurve.cpp b/src/BitcoinCurve.cpp
index efc6c3c..5754cc9 100644
--- a/src/BitcoinCurve.cpp
+++ b/src/BitcoinCurve.cpp
@@ -8,7 +8,6 @@ const ECPoint InfinityPoint;
 const ECPoint GeneratorPoint("0279be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798");
 
 size_t ECPoint::from_stream(ParseStream *s){
-	static uint8_t first_byte;
 	if(status == PARSING_FAILED){
 		return 0;
 	}
@@ -29,12 +28,12 @@ size_t ECPoint::from_stream(ParseStream *s){
 				bytes_parsed += bytes_read;
 				return bytes_read;
 			}
-			first_byte = c;
 			if(c == 0x04){ // uncompressed
 				bytes_to_read += 32;
 				compressed = false;
 			}else{
 				compressed = true;
+				point[63] = c; // sign of y, stored here until x is complete
 			}
 		}
 	}
@@ -45,7 +44,7 @@ size_t ECPoint::from_stream(ParseStream *s){
 	if(bytes_to_read==0){
 		if(compressed){
 			uint8_t buf[33];
-			buf[0] = first_byte;
+			buf[0] = point[63];
 			memcpy(buf+1, point, 32);
             uint8_t arr[65];
             ecdsa_uncompress_pubkey(&secp256k1, buf, arr);
-- 
2.43.0


From f3fe61a31eb31c8de1469bf768dcbcf79e62f4a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:15:09 +0000
Subject: [PATCH 16/80] fix: parsing a public key that is not on the curve used
 uninitialised memory

---
 src/BitcoinCurve.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BitcoinCurve.cpp b/src/BitcoinCurve.cpp
index 5754cc9..940e0a9 100644
--- a/src/BitcoinCurve.cpp
+++ b/src/BitcoinCurve.cpp
@@ -46,7 +46,7 @@ size_t ECPoint::from_stream(ParseStream *s){
 			uint8_t buf[33];
 			buf[0] = point[63];
 			memcpy(buf+1, point, 32);
-            uint8_t arr[65];
+            uint8_t arr[65] = { 0 };
             ecdsa_uncompress_pubkey(&secp256k1, buf, arr);
             memcpy(point, arr+1, 64);
 		}
-- 
2.43.0


From cbbcdba22c46cd9a205bdb6f2c694cd63482e17d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:15:09 +0000
Subject: [PATCH 17/80] fix: ECPoint left its data uninitialised if the key
 could not be parsed

---
 src/BitcoinCurve.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/BitcoinCurve.cpp b/src/BitcoinCurve.cpp
index 940e0a9..42f1e44 100644
--- a/src/BitcoinCurve.cpp
+++ b/src/BitcoinCurve.cpp
@@ -92,6 +92,7 @@ ECPoint::ECPoint(const uint8_t pubkeyArr[64], bool use_compressed){
 	compressed = use_compressed;
 };
 ECPoint::ECPoint(const uint8_t * secArr){ 
+	reset();
 	if(secArr[0] == 0x04){
 		ECPoint::fromSec(secArr, 65);
 	}else{
-- 
2.43.0


From 6997130395534ae5922878dc71cf7e0a30f3f25e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:15:09 +0000
Subject: [PATCH 18/80] fix: adding invalid points used uninitialised memory

---
 src/BitcoinCurve.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/BitcoinCurve.cpp b/src/BitcoinCurve.cpp
index 42f1e44..30985d5 100644
--- a/src/BitcoinCurve.cpp
+++ b/src/BitcoinCurve.cpp
@@ -129,9 +129,13 @@ ECPoint ECPoint::operator+(const ECPoint& other) const{
     curve_point p1, p2;
 	uint8_t buf[65];
 	sec(buf, 65);
-	ecdsa_read_pubkey(&secp256k1, buf, &p1);
+	if(!ecdsa_read_pubkey(&secp256k1, buf, &p1)){
+		return ECPoint();
+	}
 	other.sec(buf, 65);
-	ecdsa_read_pubkey(&secp256k1, buf, &p2);
+	if(!ecdsa_read_pubkey(&secp256k1, buf, &p2)){
+		return ECPoint();
+	}
     point_add(&secp256k1,&p1,&p2);
     ECPoint sum;
 	bn_write_be(&p2.x, sum.point);
-- 
2.43.0


From 1dc8372c0bdec40bdf137f878e58e393534dc2d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:15:40 +0000
Subject: [PATCH 19/80] fix: multiplying the point at infinity accessed memory
 out of bounds

---
 src/BitcoinCurve.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/BitcoinCurve.cpp b/src/BitcoinCurve.cpp
index 30985d5..933ee53 100644
--- a/src/BitcoinCurve.cpp
+++ b/src/BitcoinCurve.cpp
@@ -266,6 +266,9 @@ bool ECPoint::operator<(const ECPoint& other) const{
 	return memcmp(sec1, sec2, sizeof(sec1)) < 0;
 }
 ECPoint operator*(const ECScalar& scalar, const ECPoint& point){
+	if(point == InfinityPoint){
+		return point;
+	}
 	ECPoint r;
 	uint8_t num[32];
 	scalar.getSecret(num);
-- 
2.43.0


From cbb3b91a7df2594b3d087b3065b72f9d4f3b8542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:23:56 +0000
Subject: [PATCH 20/80] fix: valid ECDSA signatures of a zero digest were
 rejected

---
 src/utility/trezor/ecdsa.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utility/trezor/ecdsa.c b/src/utility/trezor/ecdsa.c
index b123b91..f853571 100755
--- a/src/utility/trezor/ecdsa.c
+++ b/src/utility/trezor/ecdsa.c
@@ -1102,7 +1102,7 @@ int ecdsa_verify_digest(const ecdsa_curve *curve, const uint8_t *pub_key, const
 	if (bn_is_zero(&z)) {
 		// our message hashes to zero
 		// I don't expect this to happen any time soon
-		result = 3;
+		point_set_infinity(&res);
 	} else {
 		scalar_multiply(curve, &z, &res);
 	}
-- 
2.43.0


From 5a55d7561751265420a2134f441fa571165127d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:23:56 +0000
Subject: [PATCH 21/80] fix: HDPublicKey rejected valid signatures, keys that
 failed to parse accepted them

---
 src/Bitcoin.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Bitcoin.cpp b/src/Bitcoin.cpp
index 419a2fe..dfbb53d 100644
--- a/src/Bitcoin.cpp
+++ b/src/Bitcoin.cpp
@@ -437,8 +437,11 @@ Script PublicKey::script(ScriptType type) const{
 bool PublicKey::verify(const Signature sig, const uint8_t hash[32]) const{
     uint8_t signature[64] = {0};
     sig.bin(signature, 64);
+    if(!ECPoint::isValid()){
+        return false;
+    }
     uint8_t pub[65];
-    serialize(pub, 65);
+    sec(pub, 65);
     return (ecdsa_verify_digest(&secp256k1, pub, signature, hash)==0);
 }
 bool PublicKey::schnorr_verify(const SchnorrSignature sig, const uint8_t hash[32]) const{
-- 
2.43.0


From fee70acf655ec06c337a637dd5f8f149240193df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:23:56 +0000
Subject: [PATCH 22/80] fix: secrets not smaller than the group order aborted
 the program

---
 src/Bitcoin.cpp      | 2 +-
 src/Bitcoin.h        | 2 +-
 src/BitcoinCurve.cpp | 7 +++++++
 src/BitcoinCurve.h   | 2 +-
 4 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/Bitcoin.cpp b/src/Bitcoin.cpp
index dfbb53d..454fc62 100644
--- a/src/Bitcoin.cpp
+++ b/src/Bitcoin.cpp
@@ -510,7 +510,7 @@ PrivateKey::PrivateKey(void){
 }
 PrivateKey::PrivateKey(const uint8_t * secret_arr, bool use_compressed, const Network * net){
     reset();
-    memcpy(num, secret_arr, 32);
+    ECScalar::setSecret(secret_arr);
     network = net;
     pubKey = *this * GeneratorPoint;
     pubKey.compressed = use_compressed;
diff --git a/src/Bitcoin.h b/src/Bitcoin.h
index 2fcc15d..7e33168 100644
--- a/src/Bitcoin.h
+++ b/src/Bitcoin.h
@@ -180,7 +180,7 @@ public:
     /** \brief Length of the key in WIF format (52). In reality not always 52... */
     virtual size_t stringLength() const{ return 52; };
     virtual size_t length() const{ return 32; };
-    void setSecret(const uint8_t secret_arr[32]){ memcpy(num, secret_arr, 32); pubKey = *this * GeneratorPoint; };
+    void setSecret(const uint8_t secret_arr[32]){ ECScalar::setSecret(secret_arr); pubKey = *this * GeneratorPoint; };
 
     /** \brief Pointer to the network to use. Mainnet or Testnet */
     const Network * network;
diff --git a/src/BitcoinCurve.cpp b/src/BitcoinCurve.cpp
index 933ee53..4ba9dbc 100644
--- a/src/BitcoinCurve.cpp
+++ b/src/BitcoinCurve.cpp
@@ -165,6 +165,13 @@ ECPoint ECPoint::operator-(const ECPoint& other) const{
 
 /*********** ECScalar ******************/
 
+void ECScalar::setSecret(const uint8_t secret_arr[32]){
+	bignum256 n;
+	bn_read_be(secret_arr, &n);
+	bn_mod(&n, &secp256k1.order);
+	bn_write_be(&n, num);
+	memzero(&n, sizeof(n));
+}
 size_t ECScalar::from_stream(ParseStream *s){
 	if(status == PARSING_FAILED){
 		return 0;
diff --git a/src/BitcoinCurve.h b/src/BitcoinCurve.h
index 1709010..10a92bb 100644
--- a/src/BitcoinCurve.h
+++ b/src/BitcoinCurve.h
@@ -117,7 +117,7 @@ public:
     ~ECScalar(){ memzero(num, 32); };
 
     /** \brief Populates array with the secret key */
-    virtual void setSecret(const uint8_t secret_arr[32]){ memcpy(num, secret_arr, 32); };
+    virtual void setSecret(const uint8_t secret_arr[32]);
     /** \brief Sets the secret key */
     void getSecret(uint8_t buffer[32]) const{ memcpy(buffer, num, 32); };
 
-- 
2.43.0


From b6b35f34ab4e64db462e6c74179778704c1c09af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:23:56 +0000
Subject: [PATCH 23/80] fix: the group order was accepted as a private key

---
 src/Bitcoin.cpp      | 8 ++++----
 src/BitcoinCurve.cpp | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/Bitcoin.cpp b/src/Bitcoin.cpp
index 454fc62..20d95b3 100644
--- a/src/Bitcoin.cpp
+++ b/src/Bitcoin.cpp
@@ -490,14 +490,14 @@ size_t PrivateKey::from_stream(ParseStream *s){
     }
     if(bytes_parsed+bytes_read == 32){
         status = PARSING_DONE;
-        uint8_t zero[32] = { 0 };
-        if(memcmp(num, zero, 32)==0){ // should we add something else here?
-            status = PARSING_FAILED;
-        }
         bignum256 n;
         bn_read_be(num, &n);
         bn_mod(&n, &secp256k1.order);
         bn_write_be(&n, num);
+        uint8_t zero[32] = { 0 };
+        if(memcmp(num, zero, 32)==0){ // should we add something else here?
+            status = PARSING_FAILED;
+        }
         pubKey = *this * GeneratorPoint;
     }
     bytes_parsed += bytes_read;
diff --git a/src/BitcoinCurve.cpp b/src/BitcoinCurve.cpp
index 4ba9dbc..14fddb3 100644
--- a/src/BitcoinCurve.cpp
+++ b/src/BitcoinCurve.cpp
@@ -187,14 +187,14 @@ size_t ECScalar::from_stream(ParseStream *s){
 	}
 	if(bytes_parsed+bytes_read == 32){
 		status = PARSING_DONE;
-		uint8_t zero[32] = { 0 };
-		if(memcmp(num, zero, 32)==0){ // should we add something else here?
-		status = PARSING_FAILED;
-		}
 		bignum256 n;
 		bn_read_be(num, &n);
 		bn_mod(&n, &secp256k1.order);
 		bn_write_be(&n, num);
+		uint8_t zero[32] = { 0 };
+		if(memcmp(num, zero, 32)==0){ // should we add something else here?
+		status = PARSING_FAILED;
+		}
 	}
 	bytes_parsed += bytes_read;
 	return bytes_read;
-- 
2.43.0


From 46e3d93293da36adae356ee0bb8e15ec257b975f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:24:16 +0000
Subject: [PATCH 24/80] fix: schnorr_verify accepted negated and otherwise
 invalid signatures

---
 src/Bitcoin.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/Bitcoin.cpp b/src/Bitcoin.cpp
index 20d95b3..5011d33 100644
--- a/src/Bitcoin.cpp
+++ b/src/Bitcoin.cpp
@@ -445,6 +445,9 @@ bool PublicKey::verify(const Signature sig, const uint8_t hash[32]) const{
     return (ecdsa_verify_digest(&secp256k1, pub, signature, hash)==0);
 }
 bool PublicKey::schnorr_verify(const SchnorrSignature sig, const uint8_t hash[32]) const{
+    if(!ECPoint::isValid()){
+        return false;
+    }
     PublicKey pub = *this;
     if(!pub.isEven()){
         pub = -pub;
@@ -453,6 +456,9 @@ bool PublicKey::schnorr_verify(const SchnorrSignature sig, const uint8_t hash[32
     sig.serialize(rs, sizeof(rs));
     PublicKey R;
     R.from_x(rs, 32);
+    if(!R.isValid()){ // r is not an x coordinate of a point on the curve
+        return false;
+    }
     // calculate hash using tagged hash with "BIP0340/challenge" prefix
     uint8_t e[32];
     uint8_t tmp[32];
@@ -466,11 +472,13 @@ bool PublicKey::schnorr_verify(const SchnorrSignature sig, const uint8_t hash[32
     tch.write(hash, 32);
     tch.end(e);
     PrivateKey challenge(e);
-    PublicKey S = challenge*pub + R;
-    S.x(tmp, sizeof(tmp));
     PrivateKey s(rs+32);
-    s.publicKey().x(e, 32);
-    return memcmp(tmp, e, 32) == 0;
+    s.getSecret(tmp);
+    if(memcmp(tmp, rs+32, 32) != 0){ // s is not smaller than the group order
+        return false;
+    }
+    // both coordinates should match
+    return s.publicKey() == challenge*pub + R;
 };
 
 // ---------------------------------------------------------------- PrivateKey class
-- 
2.43.0


From f80eec6ff47c941247cd997210932583453556d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:24:16 +0000
Subject: [PATCH 25/80] fix: DER signatures could not be parsed in pieces and
 their total length was not checked

---
 src/Bitcoin.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/Bitcoin.cpp b/src/Bitcoin.cpp
index 5011d33..e9204f1 100644
--- a/src/Bitcoin.cpp
+++ b/src/Bitcoin.cpp
@@ -174,6 +174,10 @@ size_t Signature::from_stream(ParseStream *stream){
         r[bytes_parsed+bytes_read-4+32-tot[1]] = stream->read();
         bytes_read++;
     }
+    if(bytes_parsed+bytes_read < 4 || bytes_parsed+bytes_read < (size_t)4+tot[1]){ // r is not complete yet
+        bytes_parsed += bytes_read;
+        return bytes_read;
+    }
     if(rlen() != tot[1]){ status = PARSING_FAILED; return bytes_read; }
     // s
     if(stream->available() && bytes_parsed+bytes_read < (size_t)4+tot[1]+1){
@@ -184,7 +188,8 @@ size_t Signature::from_stream(ParseStream *stream){
     if(stream->available() && bytes_parsed+bytes_read < (size_t)4+tot[1]+2){
         tot[2] = stream->read();
         bytes_read++;
-        if(tot[2] > 33){ status = PARSING_FAILED; return bytes_read; }
+        // s should be at the end
+        if(tot[2] > 33 || tot[0] != 2+tot[1]+2+tot[2]){ status = PARSING_FAILED; return bytes_read; }
     }
     if(stream->available() && tot[2]==33 && bytes_parsed+bytes_read < (size_t)4+tot[1]+3){
         c = stream->read();
@@ -195,8 +200,8 @@ size_t Signature::from_stream(ParseStream *stream){
         s[bytes_parsed+bytes_read-4-tot[1]-2-tot[2]+32] = stream->read();
         bytes_read++;
     }
-    if(slen() != tot[2]){ status = PARSING_FAILED; return bytes_read; }
-    if(bytes_parsed+bytes_read == (size_t)4+tot[1]+2+tot[2]){
+    if(bytes_parsed+bytes_read >= (size_t)4+tot[1]+2 && bytes_parsed+bytes_read == (size_t)4+tot[1]+2+tot[2]){
+        if(slen() != tot[2]){ status = PARSING_FAILED; return bytes_read; }
         status = PARSING_DONE;
     }
     bytes_parsed+=bytes_read;
-- 
2.43.0


From d0d435ceb6d345655c1352450be52db63b0c24ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:24:16 +0000
Subject: [PATCH 26/80] fix: signatures that were not parsed completely were
 reported valid

---
 src/Bitcoin.cpp | 1 +
 src/Bitcoin.h   | 4 ++--
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Bitcoin.cpp b/src/Bitcoin.cpp
index e9204f1..f6e90b3 100644
--- a/src/Bitcoin.cpp
+++ b/src/Bitcoin.cpp
@@ -297,6 +297,7 @@ void Signature::bin(uint8_t * arr, size_t len) const{
     }
 }
 void Signature::fromBin(const uint8_t * arr, size_t len){
+    reset();
     size_t l = len;
     if(l > 32){
         l = 32;
diff --git a/src/Bitcoin.h b/src/Bitcoin.h
index 7e33168..99c511b 100644
--- a/src/Bitcoin.h
+++ b/src/Bitcoin.h
@@ -438,7 +438,7 @@ public:
     /** \brief parses array as <r[32]><s[32]><index> */
     void fromBin(const uint8_t * arr, size_t len);
 
-    bool isValid() const{ uint8_t arr[32] = { 0 }; return !((memcmp(r, arr, 32) == 0) && (memcmp(s, arr, 32)==0)); };
+    bool isValid() const{ uint8_t arr[32] = { 0 }; return (status == PARSING_DONE) && !((memcmp(r, arr, 32) == 0) && (memcmp(s, arr, 32)==0)); };
     explicit operator bool() const{ return isValid(); };
 
     bool operator==(const Signature& other) const{ return (memcmp(r, other.r, 32) == 0) && (memcmp(s, other.s, 32) == 0); };
@@ -462,7 +462,7 @@ public:
     explicit SchnorrSignature(const char * rs);
     virtual size_t length() const{ return 64; };
 
-    bool isValid() const{ uint8_t arr[32] = { 0 }; return !((memcmp(r, arr, 32) == 0) && (memcmp(s, arr, 32)==0)); };
+    bool isValid() const{ uint8_t arr[32] = { 0 }; return (status == PARSING_DONE) && !((memcmp(r, arr, 32) == 0) && (memcmp(s, arr, 32)==0)); };
     explicit operator bool() const{ return isValid(); };
 
     bool operator==(const SchnorrSignature& other) const{ return (memcmp(r, other.r, 32) == 0) && (memcmp(s, other.s, 32) == 0); };
-- 
2.43.0


From 81612829f7088abb6f84d7d907b089a989a3ba23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:24:16 +0000
Subject: [PATCH 27/80] fix: Signature::der wrote beyond the array if it was
 too small

---
 src/Bitcoin.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Bitcoin.cpp b/src/Bitcoin.cpp
index f6e90b3..d3bedc1 100644
--- a/src/Bitcoin.cpp
+++ b/src/Bitcoin.cpp
@@ -258,6 +258,9 @@ size_t Signature::fromDer(const uint8_t * raw, size_t rawLen){
 }
 size_t Signature::der(uint8_t * bytes, size_t len) const{
     memzero(bytes, len);
+    if(len < Signature::length()){
+        return 0;
+    }
     uint8_t _rlen = rlen();
     uint8_t _slen = slen();
     bytes[0] = 0x30;
-- 
2.43.0


From 9440257c3259f8a8e9c0593654a66c7430e26d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:32:29 +0000
Subject: [PATCH 28/80] fix: mnemonics of 15 and 21 words were generated but
 not accepted

---
 src/utility/trezor/bip39.c | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/utility/trezor/bip39.c b/src/utility/trezor/bip39.c
index e02422f..8799e57 100755
--- a/src/utility/trezor/bip39.c
+++ b/src/utility/trezor/bip39.c
@@ -116,7 +116,7 @@ int mnemonic_to_entropy(const char *mnemonic, uint8_t *entropy)
 	n++;
 
 	// check number of words
-	if (n != 12 && n != 18 && n != 24) {
+	if (n % 3 || n < 12 || n > 24) {
 		return 0;
 	}
 
@@ -167,21 +167,15 @@ int mnemonic_check(const char *mnemonic)
 {
 	uint8_t bits[32 + 1];
 	int seed_len = mnemonic_to_entropy(mnemonic, bits);
-	if (seed_len != (12 * 11) && seed_len != (18 * 11) && seed_len != (24 * 11)) {
+	if (seed_len == 0) {
 		return 0;
 	}
 	int words = seed_len / 11;
 
 	uint8_t checksum = bits[words * 4 / 3];
 	sha256_Raw(bits, words * 4 / 3, bits);
-	if (words == 12) {
-		return (bits[0] & 0xF0) == (checksum & 0xF0); // compare first 4 bits
-	} else if (words == 18) {
-		return (bits[0] & 0xFC) == (checksum & 0xFC); // compare first 6 bits
-	} else if (words == 24) {
-		return bits[0] == checksum; // compare 8 bits
-	}
-	return 0;
+	uint8_t mask = 0xFF << (8 - words / 3); // one checksum bit per 3 words
+	return (bits[0] & mask) == (checksum & mask);
 }
 
 // passphrase must be at most 256 characters otherwise it would be truncated
-- 
2.43.0


From b35370b42d466b30b34d095e1e59d99a08158f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:32:29 +0000
Subject: [PATCH 29/80] fix: mnemonicToEntropy read beyond the text instead of
 using its length

---
 src/Bitcoin.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/Bitcoin.cpp b/src/Bitcoin.cpp
index d3bedc1..53b2901 100644
--- a/src/Bitcoin.cpp
+++ b/src/Bitcoin.cpp
@@ -41,9 +41,14 @@ const char * mnemonicFromEntropy(const uint8_t * entropy_data, size_t dataLen){
     return mnemonic_from_data(entropy_data, dataLen);
 }
 size_t mnemonicToEntropy(const char * mnemonic, size_t mnemonicLen, uint8_t * output, size_t outputLen){
+    char phrase[24*10] = { 0 }; // 24 words of up to 8 letters
+    if(mnemonic == NULL || mnemonicLen >= sizeof(phrase)){
+        return 0;
+    }
+    memcpy(phrase, mnemonic, mnemonicLen); // mnemonic is not necessarily null-terminated
     int num_words = 1;
-    for (size_t i = 0; i < strlen(mnemonic); i++){
-        if(mnemonic[i] == ' '){
+    for (size_t i = 0; i < strlen(phrase); i++){
+        if(phrase[i] == ' '){
             num_words ++;
         }
     }
@@ -52,7 +57,8 @@ size_t mnemonicToEntropy(const char * mnemonic, size_t mnemonicLen, uint8_t * ou
         return 0;
     }
     uint8_t res[33] = {0};
-    int r = mnemonic_to_entropy(mnemonic, res);
+    int r = mnemonic_to_entropy(phrase, res);
+    memzero(phrase, sizeof(phrase));
     if(r == 0){
         return 0;
     }
-- 
2.43.0


From 387d79044648920e192c32f7b93358f885ffd10f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:32:29 +0000
Subject: [PATCH 30/80] fix: malformed derivation paths gave wrong keys or read
 out of bounds

---
 src/HDWallet.cpp | 61 +++++++++++++++++++++++++++++++++++-------------
 1 file changed, 45 insertions(+), 16 deletions(-)

diff --git a/src/HDWallet.cpp b/src/HDWallet.cpp
index f822fc4..7d7e8a6 100644
--- a/src/HDWallet.cpp
+++ b/src/HDWallet.cpp
@@ -478,14 +478,21 @@ HDPrivateKey HDPrivateKey::derive(const char * path) const{
     static const char VALID_CHARS[] = "0123456789/'h";
     size_t len = strlen(path);
     const char * cur = path;
+    HDPrivateKey pk; // invalid private key to return if something failed
     if(path[0] == 'm'){ // remove leading "m/"
-        cur+=2;
-        len-=2;
+        if(len > 1 && path[1] != '/'){
+            return pk;
+        }
+        size_t skip = (len > 1) ? 2 : 1;
+        cur+=skip;
+        len-=skip;
+    }
+    if(len == 0){ // the key itself
+        return *this;
     }
     if(cur[len-1] == '/'){ // remove trailing "/"
         len--;
     }
-    HDPrivateKey pk; // invalid private key to return if something failed
     size_t derivationLen = 1;
     // checking if all chars are valid and counting derivation length
     for(size_t i=0; i<len; i++){
@@ -500,23 +507,32 @@ HDPrivateKey HDPrivateKey::derive(const char * path) const{
     uint32_t * derivation = (uint32_t *)calloc(derivationLen, sizeof(uint32_t));
     if(derivation == NULL){ return pk; }
     size_t current = 0;
-    for(size_t i=0; i<len; i++){
+    bool empty = true; // no digits in the current index yet
+    bool ok = true;
+    for(size_t i=0; ok && i<len; i++){
         if(cur[i] == '/'){ // next
+            ok = !empty;
+            empty = true;
             current++;
             continue;
         }
         const char * pch = strchr(VALID_CHARS, cur[i]);
         uint32_t val = pch-VALID_CHARS;
         if(derivation[current] >= HARDENED_INDEX){ // can't have anything after hardened
-            free(derivation);
-            return pk;
-        }
-        if(val < 10){
+            ok = false;
+        }else if(val < 10){
+            ok = (derivation[current] <= (0xFFFFFFFF - val)/10); // should fit in 32 bits
             derivation[current] = derivation[current]*10 + val;
+            empty = false;
         }else{ // h or ' -> hardened
+            ok = !empty;
             derivation[current] += HARDENED_INDEX;
         }
     }
+    if(!ok || empty){
+        free(derivation);
+        return pk;
+    }
     pk = derive(derivation, derivationLen);
     free(derivation);
     return pk;
@@ -817,14 +833,21 @@ HDPublicKey HDPublicKey::derive(const char * path) const{
     static const char VALID_CHARS[] = "0123456789/";
     size_t len = strlen(path);
     const char * cur = path;
+    HDPublicKey pk; // dummy to return if something failed
     if(path[0] == 'm'){ // remove leading "m/"
-        cur+=2;
-        len-=2;
+        if(len > 1 && path[1] != '/'){
+            return pk;
+        }
+        size_t skip = (len > 1) ? 2 : 1;
+        cur+=skip;
+        len-=skip;
+    }
+    if(len == 0){ // the key itself
+        return *this;
     }
     if(cur[len-1] == '/'){ // remove trailing "/"
         len--;
     }
-    HDPublicKey pk; // dummy to return if something failed
     size_t derivationLen = 1;
     // checking if all chars are valid and counting derivation length
     for(size_t i=0; i<len; i++){
@@ -839,18 +862,24 @@ HDPublicKey HDPublicKey::derive(const char * path) const{
     uint32_t * derivation = (uint32_t *)calloc(derivationLen, sizeof(uint32_t));
     if(derivation == NULL){ return pk; }
     size_t current = 0;
-    for(size_t i=0; i<len; i++){
+    bool empty = true; // no digits in the current index yet
+    bool ok = true;
+    for(size_t i=0; ok && i<len; i++){
         if(cur[i] == '/'){ // next
-            if(derivation[current] >= HARDENED_INDEX){ // can't be hardened
-                free(derivation);
-                return pk;
-            }
+            ok = !empty;
+            empty = true;
             current++;
             continue;
         }
         const char * pch = strchr(VALID_CHARS, cur[i]);
         uint32_t val = pch-VALID_CHARS;
+        ok = (derivation[current] <= (HARDENED_INDEX - 1 - val)/10); // can't be hardened
         derivation[current] = derivation[current]*10 + val;
+        empty = false;
+    }
+    if(!ok || empty){
+        free(derivation);
+        return pk;
     }
     pk = derive(derivation, derivationLen);
     free(derivation);
-- 
2.43.0


From 80ad47e17983b4c826d1e21cee9849364ee71673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:32:29 +0000
Subject: [PATCH 31/80] fix: hardened public derivation gave a wrong key

---
 src/HDWallet.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/HDWallet.cpp b/src/HDWallet.cpp
index 7d7e8a6..9624fe7 100644
--- a/src/HDWallet.cpp
+++ b/src/HDWallet.cpp
@@ -791,6 +791,9 @@ String HDPublicKey::fingerprint() const{
 
 HDPublicKey HDPublicKey::child(uint32_t index) const{
     HDPublicKey child;
+    if(index >= HARDENED_INDEX){ // hardened child can't be derived from the public key
+        return child;
+    }
 
     uint8_t secArr[65] = { 0 };
     int l = sec(secArr, sizeof(secArr));
-- 
2.43.0


From c5a9346278c6cd19d9cb89779d7669c55c5679fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:32:29 +0000
Subject: [PATCH 32/80] fix: children of invalid keys were valid and the depth
 wrapped around at 255

---
 src/HDWallet.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/HDWallet.cpp b/src/HDWallet.cpp
index 9624fe7..5e52b12 100644
--- a/src/HDWallet.cpp
+++ b/src/HDWallet.cpp
@@ -384,6 +384,9 @@ HDPrivateKey HDPrivateKey::child(uint32_t index, bool hardened) const{
         hardened = true;
     }
     HDPrivateKey child;
+    if(!isValid() || depth == 0xFF){ // nothing to derive from or too deep
+        return child;
+    }
 
     uint8_t sec[65] = { 0 };
     PublicKey p = publicKey();
@@ -794,6 +797,9 @@ HDPublicKey HDPublicKey::child(uint32_t index) const{
     if(index >= HARDENED_INDEX){ // hardened child can't be derived from the public key
         return child;
     }
+    if(!isValid() || depth == 0xFF){ // nothing to derive from or too deep
+        return child;
+    }
 
     uint8_t secArr[65] = { 0 };
     int l = sec(secArr, sizeof(secArr));
-- 
2.43.0


From 8fac83063a9f0f4a5e1cc06ce755d9c0b9b55b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:33:07 +0000
Subject: [PATCH 33/80] fix: private keys created from an invalid WIF string
 used uninitialised memory

---
 src/Bitcoin.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/Bitcoin.cpp b/src/Bitcoin.cpp
index 53b2901..cfcb40b 100644
--- a/src/Bitcoin.cpp
+++ b/src/Bitcoin.cpp
@@ -726,10 +726,16 @@ SchnorrSignature PrivateKey::schnorr_sign(const uint8_t hash[32]) const{
 }
 #if USE_ARDUINO_STRING || USE_STD_STRING
 PrivateKey::PrivateKey(const String wifString){
+    reset();
+    memzero(num, 32);
+    network = &DEFAULT_NETWORK;
     fromWIF(wifString.c_str());
 }
 #else
 PrivateKey::PrivateKey(const char * wifArr){
+    reset();
+    memzero(num, 32);
+    network = &DEFAULT_NETWORK;
     fromWIF(wifArr);
 }
 #endif
-- 
2.43.0


From 090d251f4554f84902d93a304315d3d652f04a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:33:07 +0000
Subject: [PATCH 34/80] fix: WIF strings with an invalid key or compression
 flag were accepted and failures kept the old key

---
 src/Bitcoin.cpp | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/Bitcoin.cpp b/src/Bitcoin.cpp
index cfcb40b..3c97311 100644
--- a/src/Bitcoin.cpp
+++ b/src/Bitcoin.cpp
@@ -584,13 +584,16 @@ String PrivateKey::wif() const{
 #endif
 int PrivateKey::fromWIF(const char * wifArr, size_t wifSize){
     uint8_t arr[40] = { 0 };
+    // invalid key if something goes wrong
+    memzero(num, 32);
+    pubKey = PublicKey();
+    network = &DEFAULT_NETWORK;
     size_t l = fromBase58Check(wifArr, wifSize, arr, sizeof(arr));
     if( (l < 33) || (l > 34) ){
-        memzero(num, 32);
+        memzero(arr, sizeof(arr));
         return 0;
     }
     bool compressed;
-    network = &DEFAULT_NETWORK;
     bool found = false;
     for(int i=0; i<networks_len; i++){
         if(arr[0] == networks[i]->wif){
@@ -599,15 +602,19 @@ int PrivateKey::fromWIF(const char * wifArr, size_t wifSize){
             break;
         }
     }
-    if(!found){
-        return 0;
+    compressed = (l == 34);
+    if(compressed && arr[33] != 0x01){
+        found = false;
     }
-
-    if(l == 34){
-        compressed = (arr[33] > 0);
+    bignum256 n;
+    bn_read_be(arr+1, &n);
+    if(bn_is_zero(&n) || !bn_is_less(&n, &secp256k1.order)){
+        found = false;
     }
-    if(l == 33){
-        compressed = false;
+    memzero(&n, sizeof(n));
+    if(!found){
+        memzero(arr, sizeof(arr));
+        return 0;
     }
     memcpy(num, arr+1, 32);
     memzero(arr, 40); // clear memory
-- 
2.43.0


From 6765ba2d5b80978d9bbb9f75bec35a484782f20f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:33:07 +0000
Subject: [PATCH 35/80] fix: extended private keys with secrets not smaller
 than the group order aborted the program

---
 src/HDWallet.cpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/HDWallet.cpp b/src/HDWallet.cpp
index 5e52b12..9383a23 100644
--- a/src/HDWallet.cpp
+++ b/src/HDWallet.cpp
@@ -41,7 +41,7 @@ HDPrivateKey::HDPrivateKey(const uint8_t secret[32],
                            const Network * net,
                            ScriptType key_type){
     init();
-    memcpy(num, secret, 32);
+    ECScalar::setSecret(secret); // should be smaller than the group order
     network = net;
     pubKey = *this * GeneratorPoint;
     pubKey.compressed = true;
@@ -248,9 +248,17 @@ int HDPrivateKey::fromSeed(const uint8_t * seed, size_t seedSize, const Network
     sha.write(seed, seedSize);
     sha.endHMAC(raw);
     // sha512Hmac((byte *)key, strlen(key), seed, 64, raw);
-    memcpy(num, raw, 32);
     network = net;
+    bignum256 n;
+    bn_read_be(raw, &n);
+    if(bn_is_zero(&n) || !bn_is_less(&n, &secp256k1.order)){ // invalid master key
+        memzero(raw, sizeof(raw));
+        return 0;
+    }
+    memcpy(num, raw, 32);
     memcpy(chainCode, raw+32, 32);
+    memzero(&n, sizeof(n));
+    memzero(raw, sizeof(raw));
     pubKey = *this * GeneratorPoint;
     pubKey.compressed = true;
     return 1;
@@ -285,8 +293,10 @@ int HDPrivateKey::fromMnemonic(const char * mnemonic, size_t mnemonicSize, const
             seed[j] = seed[j] ^ u[j];
         }
     }
-    fromSeed(seed, sizeof(seed), net);
-    return 1;
+    int res = fromSeed(seed, sizeof(seed), net);
+    memzero(seed, sizeof(seed));
+    memzero(u, sizeof(u));
+    return res;
 }
 #if USE_ARDUINO_STRING || USE_STD_STRING
 int HDPrivateKey::fromMnemonic(String mnemonic, String password, const Network * net, void (*progress_callback)(float)){
-- 
2.43.0


From 2b086c14e10b2969576d8da43255c371f0a80117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:33:07 +0000
Subject: [PATCH 36/80] fix: extended private keys of wrong length or with an
 invalid secret were accepted

---
 src/HDWallet.cpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/HDWallet.cpp b/src/HDWallet.cpp
index 9383a23..d2e285a 100644
--- a/src/HDWallet.cpp
+++ b/src/HDWallet.cpp
@@ -204,6 +204,7 @@ size_t HDPrivateKey::from_stream(ParseStream *s){
         bytes_read++;
         if(c != 0){
             status = PARSING_FAILED;
+            memzero(num, 32);
             return bytes_read;
         }
     }
@@ -214,14 +215,13 @@ size_t HDPrivateKey::from_stream(ParseStream *s){
     }
     if(bytes_parsed+bytes_read == 78){
         status = PARSING_DONE;
-        uint8_t zero[32] = { 0 };
-        if(memcmp(num, zero, 32)==0){ // should we add something else here?
-            status = PARSING_FAILED;
-        }
         bignum256 n;
         bn_read_be(num, &n);
-        bn_mod(&n, &secp256k1.order);
-        bn_write_be(&n, num);
+        if(bn_is_zero(&n) || !bn_is_less(&n, &secp256k1.order)){
+            status = PARSING_FAILED;
+            memzero(num, 32);
+        }
+        memzero(&n, sizeof(n));
         pubKey = *this * GeneratorPoint;
         pubKey.compressed = true;
     }
@@ -232,11 +232,13 @@ size_t HDPrivateKey::from_str(const char * xprvArr, size_t xprvLen){
     init();
     uint8_t arr[85] = { 0 };
     size_t l = fromBase58Check(xprvArr, xprvLen, arr, sizeof(arr));
-    if(l == 0){
+    if(l != length()){
+        memzero(arr, sizeof(arr));
         return 0; // decoding error
     }
-    ParseByteStream s(arr, sizeof(arr));
+    ParseByteStream s(arr, l);
     HDPrivateKey::from_stream(&s);
+    memzero(arr, sizeof(arr));
     return xprvLen;
 }
 int HDPrivateKey::fromSeed(const uint8_t * seed, size_t seedSize, const Network * net){
-- 
2.43.0


From 7cfe42ea53d1ab02502f61a9da2733dd21684163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:33:07 +0000
Subject: [PATCH 37/80] fix: extended public keys of wrong length were accepted
 and failed ones used uninitialised or old data

---
 src/HDWallet.cpp | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/HDWallet.cpp b/src/HDWallet.cpp
index d2e285a..33d0b47 100644
--- a/src/HDWallet.cpp
+++ b/src/HDWallet.cpp
@@ -676,7 +676,7 @@ size_t HDPublicKey::from_stream(ParseStream *s){
         status = PARSING_DONE;
         uint8_t arr[33];
         memcpy(arr, point, 33);
-        uint8_t buf[65];
+        uint8_t buf[65] = { 0 };
         ecdsa_uncompress_pubkey(&secp256k1, arr, buf);
         memcpy(point, buf+1, 64);
         if(!isValid()){
@@ -687,12 +687,13 @@ size_t HDPublicKey::from_stream(ParseStream *s){
     return bytes_read;
 }
 size_t HDPublicKey::from_str(const char * xpubArr, size_t xpubLen){
+    *this = HDPublicKey(); // invalid key if something goes wrong
     uint8_t arr[85] = { 0 };
     size_t l = fromBase58Check(xpubArr, xpubLen, arr, sizeof(arr));
-    if(l == 0){
+    if(l != length()){
         return 0; // decoding error
     }
-    ParseByteStream s(arr, sizeof(arr));
+    ParseByteStream s(arr, l);
     HDPublicKey::from_stream(&s);
     return xpubLen;
 }
@@ -741,11 +742,7 @@ HDPublicKey &HDPublicKey::operator=(const HDPublicKey &other){
     memcpy(parentFingerprint, other.parentFingerprint, 4);
     return *this;
 };*/
-HDPublicKey::HDPublicKey(const char * xpubArr){
-    reset();
-    memzero(prefix, 4);
-    childNumber = 0;
-    network = &DEFAULT_NETWORK;
+HDPublicKey::HDPublicKey(const char * xpubArr):HDPublicKey(){
     from_str(xpubArr, strlen(xpubArr));
 }
 HDPublicKey::~HDPublicKey(void) {
-- 
2.43.0


From 8bc34c622caecf872f614b473e5095a7bb8e38ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:33:49 +0000
Subject: [PATCH 38/80] fix: extended public keys with a wrong key prefix were
 read out of bounds

---
 src/HDWallet.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/HDWallet.cpp b/src/HDWallet.cpp
index 33d0b47..6092628 100644
--- a/src/HDWallet.cpp
+++ b/src/HDWallet.cpp
@@ -677,7 +677,9 @@ size_t HDPublicKey::from_stream(ParseStream *s){
         uint8_t arr[33];
         memcpy(arr, point, 33);
         uint8_t buf[65] = { 0 };
-        ecdsa_uncompress_pubkey(&secp256k1, arr, buf);
+        if(arr[0] == 0x02 || arr[0] == 0x03){ // only compressed keys are allowed
+            ecdsa_uncompress_pubkey(&secp256k1, arr, buf);
+        }
         memcpy(point, buf+1, 64);
         if(!isValid()){
             status = PARSING_FAILED;
-- 
2.43.0


From 82d91d754fc61f7e7da04392f05e0adaa6b6954d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:37:12 +0000
Subject: [PATCH 39/80] fix: secrets stayed in the heap memory released after
 exporting and importing keys

---
 src/BaseClasses.cpp | 5 +++++
 src/Conversion.cpp  | 6 ++++++
 2 files changed, 11 insertions(+)

diff --git a/src/BaseClasses.cpp b/src/BaseClasses.cpp
index ccc51b1..6de5ad2 100644
--- a/src/BaseClasses.cpp
+++ b/src/BaseClasses.cpp
@@ -1,6 +1,7 @@
 #include "uBitcoin_conf.h"
 #include "BaseClasses.h"
 #include <cstdlib>
+#include "utility/trezor/memzero.h"
 
 #if USE_STD_STRING
 using std::string;
@@ -142,8 +143,10 @@ size_t Readable::printTo(Print& p) const{
 String Readable::toString() const{
     size_t len = this->stringLength()+1;
     char * arr = (char *)calloc(len, sizeof(char));
+    if(arr == NULL){ return String(); }
     toString(arr, len);
     String s = arr;
+    memzero(arr, len); // can be a secret
     free(arr);
     return s;
 };
@@ -157,8 +160,10 @@ String Streamable::serialize(size_t offset, size_t len) const{
         len = (length()-offset);
     }
     char * arr = (char *)calloc(2*len+1, sizeof(char));
+    if(arr == NULL){ return String(); }
     serialize(arr, 2*len, offset, HEX_ENCODING);
     String s = arr;
+    memzero(arr, 2*len+1); // can be a secret
     free(arr);
     return s;
 };
diff --git a/src/Conversion.cpp b/src/Conversion.cpp
index e70debd..c77d294 100644
--- a/src/Conversion.cpp
+++ b/src/Conversion.cpp
@@ -356,6 +356,7 @@ String toBase58Check(const uint8_t * array, size_t arraySize){
     if(buf == NULL){ return String(); }
     toBase58Check(array, arraySize, buf, len);
     String result(buf);
+    memzero(buf, len); // can be a secret
     free(buf);
     return result;
 }
@@ -411,6 +412,7 @@ size_t fromBase58(const char * encoded, size_t encodedSize, uint8_t * output, si
                 tmp[size-j-1] = cur%256;
             }
         }else{
+            memzero(tmp, size); // can be a secret
             free(tmp);
             return 0;
         }
@@ -425,10 +427,12 @@ size_t fromBase58(const char * encoded, size_t encodedSize, uint8_t * output, si
         }
     }
     if(size-shift > outputSize){
+        memzero(tmp, size); // can be a secret
         free(tmp);
         return 0;
     }
     memcpy(output, tmp+shift, size-shift);
+    memzero(tmp, size); // can be a secret
     free(tmp);
     return size-shift;
 }
@@ -439,6 +443,7 @@ size_t fromBase58Check(const char * encoded, size_t encodedSize, uint8_t * outpu
     if(arr == NULL){ return 0; }
     size_t l = fromBase58(encoded, encodedSize, arr, outputSize+4);
     if(l<4){
+        memzero(arr, outputSize+4);
         free(arr);
         return 0;
     }
@@ -446,6 +451,7 @@ size_t fromBase58Check(const char * encoded, size_t encodedSize, uint8_t * outpu
     uint8_t hash[32];
     doubleSha(arr, l-4, hash);
     if(memcmp(arr+l-4, hash, 4)!=0){
+        memzero(arr, outputSize+4);
         free(arr);
         return 0;
     }
-- 
2.43.0


From ca37608268381faf20869b4cf83c05a3e28eb975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:43:23 +0000
Subject: [PATCH 40/80] fix: parse segwit addresses of every network and
 version, uppercase and short ones

---
 src/Script.cpp            | 18 +++++-------------
 src/utility/segwit_addr.c | 32 ++++++++++++++++++++++++++------
 2 files changed, 31 insertions(+), 19 deletions(-)

diff --git a/src/Script.cpp b/src/Script.cpp
index 4fb5eb5..46eb328 100644
--- a/src/Script.cpp
+++ b/src/Script.cpp
@@ -145,27 +145,21 @@ void Script::fromAddress(const char * address){
         return;
     }
     ScriptType type = UNKNOWN_TYPE;
-    const Network * network;
+    int ver = 0;
+    uint8_t prog[65];
+    size_t prog_len = 0;
     for(int i=0; i<networks_len; i++){
-        if(memcmp(address, networks[i]->bech32, strlen(networks[i]->bech32))==0){
+        if(segwit_addr_decode(&ver, prog, &prog_len, networks[i]->bech32, address) == 1){
             type = P2WPKH;
-            network = networks[i];
             break;
         }
     }
     // segwit
     if(type == P2WPKH){
-        int ver = 0;
-        uint8_t prog[32];
-        size_t prog_len = 0;
-        int r = segwit_addr_decode(&ver, prog, &prog_len, network->bech32, address);
-        if(r != 1){ // decoding failed
-            return;
-        }
         scriptLen = prog_len + 2;
         scriptArray = (uint8_t *) calloc( scriptLen, sizeof(uint8_t));
         if(scriptArray == NULL){ scriptLen = 0; return; }
-        scriptArray[0] = ver;
+        scriptArray[0] = (ver == 0) ? 0x00 : OP_1 + ver - 1;
         scriptArray[1] = prog_len; // varint?
         memcpy(scriptArray+2, prog, prog_len);
     }else{ // legacy or nested segwit
@@ -176,12 +170,10 @@ void Script::fromAddress(const char * address){
         for(int i=0; i<networks_len; i++){
             if(addr[0]==networks[i]->p2pkh){
                 type = P2PKH;
-                network = networks[i];
                 break;
             }
             if(addr[0]==networks[i]->p2sh){
                 type = P2SH;
-                network = networks[i];
                 break;
             }
         }
diff --git a/src/utility/segwit_addr.c b/src/utility/segwit_addr.c
index 337968f..abc8e3e 100755
--- a/src/utility/segwit_addr.c
+++ b/src/utility/segwit_addr.c
@@ -47,7 +47,15 @@ static const int8_t charset_rev[128] = {
      1,  0,  3, 16, 11, 28, 12, 14,  6,  4,  2, -1, -1, -1, -1, -1
 };
 
-int bech32_encode(char *output, const char *hrp, const uint8_t *data, size_t data_len) {
+#define BECH32_CONST  1
+#define BECH32M_CONST 0x2bc830a3UL
+
+// BIP350: witness version 0 uses bech32, all other versions use bech32m
+static uint32_t witver_const(int witver) {
+    return witver == 0 ? BECH32_CONST : BECH32M_CONST;
+}
+
+static int bech32_encode_const(char *output, const char *hrp, const uint8_t *data, size_t data_len, uint32_t konst) {
     uint32_t chk = 1;
     size_t i = 0;
     while (hrp[i] != 0) {
@@ -75,7 +83,7 @@ int bech32_encode(char *output, const char *hrp, const uint8_t *data, size_t dat
     for (i = 0; i < 6; ++i) {
         chk = bech32_polymod_step(chk);
     }
-    chk ^= 1;
+    chk ^= konst;
     for (i = 0; i < 6; ++i) {
         *(output++) = charset[(chk >> ((5 - i) * 5)) & 0x1f];
     }
@@ -83,7 +91,12 @@ int bech32_encode(char *output, const char *hrp, const uint8_t *data, size_t dat
     return 1;
 }
 
-int bech32_decode(char* hrp, uint8_t *data, size_t *data_len, const char *input) {
+int bech32_encode(char *output, const char *hrp, const uint8_t *data, size_t data_len) {
+    return bech32_encode_const(output, hrp, data, data_len, BECH32_CONST);
+}
+
+// returns the checksum constant of the string, 0 if the string is malformed
+static uint32_t bech32_decode_const(char* hrp, uint8_t *data, size_t *data_len, const char *input) {
     uint32_t chk = 1;
     size_t i;
     size_t input_len = strlen(input);
@@ -137,7 +150,11 @@ int bech32_decode(char* hrp, uint8_t *data, size_t *data_len, const char *input)
     if (have_lower && have_upper) {
         return 0;
     }
-    return chk == 1;
+    return chk;
+}
+
+int bech32_decode(char* hrp, uint8_t *data, size_t *data_len, const char *input) {
+    return bech32_decode_const(hrp, data, data_len, input) == BECH32_CONST;
 }
 
 int convert_bits(uint8_t* out, size_t* outlen, int outbits, const uint8_t* in, size_t inlen, int inbits, int pad) {
@@ -171,17 +188,20 @@ int segwit_addr_encode(char *output, const char *hrp, int witver, const uint8_t
     data[0] = witver;
     convert_bits(data + 1, &datalen, 5, witprog, witprog_len, 8, 1);
     ++datalen;
-    return bech32_encode(output, hrp, data, datalen);
+    return bech32_encode_const(output, hrp, data, datalen, witver_const(witver));
 }
 
 int segwit_addr_decode(int* witver, uint8_t* witdata, size_t* witdata_len, const char* hrp, const char* addr) {
     uint8_t data[84];
     char hrp_actual[84];
     size_t data_len;
-    if (!bech32_decode(hrp_actual, data, &data_len, addr)) return 0;
+    if (strlen(addr) > 90) return 0; // addresses can't be longer
+    uint32_t chk = bech32_decode_const(hrp_actual, data, &data_len, addr);
+    if (chk == 0) return 0;
     if (data_len == 0 || data_len > 65) return 0;
     if (strncmp(hrp, hrp_actual, 84) != 0) return 0;
     if (data[0] > 16) return 0;
+    if (chk != witver_const(data[0])) return 0;
     *witdata_len = 0;
     if (!convert_bits(witdata, witdata_len, 8, data + 1, data_len - 1, 5, 0)) return 0;
     if (*witdata_len < 2 || *witdata_len > 40) return 0;
-- 
2.43.0


From 371ec6e639a9c85ce518364792ddbabbc2b9d95d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:43:24 +0000
Subject: [PATCH 41/80] fix: sortedmulti did not sort the keys

---
 src/Script.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/Script.cpp b/src/Script.cpp
index 46eb328..0e493d7 100644
--- a/src/Script.cpp
+++ b/src/Script.cpp
@@ -103,9 +103,15 @@ static void quickSort(PublicKey array[], int low, int high) {
 }
 
 Script sortedmulti(uint8_t threshold, const PublicKey * pubkeys, uint8_t pubkeys_len){
+    PublicKey sortedkeys[16];
+    if(pubkeys_len > 16){ // too many keys, same as in multi()
+        return Script();
+    }
+    for(int i=0; i<pubkeys_len; i++){
+        sortedkeys[i] = pubkeys[i];
+    }
     // sort first
-    PublicKey * sortedkeys = (PublicKey *) pubkeys;
-    // TODO: the most
+    quickSort(sortedkeys, 0, (int)pubkeys_len-1);
     return multi(threshold, sortedkeys, pubkeys_len);
 }
 
-- 
2.43.0


From 02d153ced2ea3194e9dc836929599f9333dd1f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:43:25 +0000
Subject: [PATCH 42/80] fix: script of a public key with P2SH_P2WPKH type was
 empty

---
 src/Script.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Script.cpp b/src/Script.cpp
index 0e493d7..f56507e 100644
--- a/src/Script.cpp
+++ b/src/Script.cpp
@@ -230,6 +230,9 @@ Script::Script(const PublicKey pubkey, ScriptType type){
         int l = pubkey.sec(sec_arr, sizeof(sec_arr));
         hash160(sec_arr, l, scriptArray+2);
     }
+    if(type == P2SH_P2WPKH){
+        *this = Script(Script(pubkey, P2WPKH), P2SH);
+    }
 }
 Script::Script(const Script &other, ScriptType type){
     init();
-- 
2.43.0


From 8ddec9234f1c223c0f3071c800e35c14bf638213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:43:26 +0000
Subject: [PATCH 43/80] fix: pushing scripts longer than 75 bytes used varint
 instead of OP_PUSHDATA, partial pushes at the size limit

---
 src/Script.cpp | 47 +++++++++++++++++++++++++++++------------------
 1 file changed, 29 insertions(+), 18 deletions(-)

diff --git a/src/Script.cpp b/src/Script.cpp
index f56507e..fbd4f45 100644
--- a/src/Script.cpp
+++ b/src/Script.cpp
@@ -454,28 +454,39 @@ size_t Script::push(const uint8_t * data, size_t len){
     return scriptLen;
 }
 size_t Script::push(const PublicKey pubkey){
-    uint8_t sec[65];
-    uint8_t len = pubkey.sec(sec, sizeof(sec));
-    push(len);
-    push(sec, len);
-    return scriptLen;
+    uint8_t sec[66];
+    uint8_t len = pubkey.sec(sec+1, sizeof(sec)-1);
+    sec[0] = len;
+    return push(sec, len+1);
 }
 size_t Script::push(const Signature sig, SigHashType sigType){
-    uint8_t der[75];
-    uint8_t len = sig.der(der, sizeof(der));
-    push(len+1);
-    push(der, len);
-    push(sigType);
-    return scriptLen;
+    uint8_t der[76];
+    uint8_t len = sig.der(der+1, sizeof(der)-2);
+    der[0] = len+1;
+    der[len+1] = sigType;
+    return push(der, len+2);
 }
 size_t Script::push(const Script sc){
-    size_t len = sc.length();
-    uint8_t * tmp;
-    tmp = (uint8_t *)calloc(len, sizeof(uint8_t));
-    if(tmp == NULL){ return 0; }
-    sc.serialize(tmp, len);
-    push(tmp, len);
-    return scriptLen;
+    // lengths above 75 bytes require OP_PUSHDATA
+    uint8_t prefix[3];
+    size_t prefixLen = 0;
+    if(sc.scriptLen > 0xff){
+        prefix[prefixLen++] = OP_PUSHDATA2;
+        prefix[prefixLen++] = sc.scriptLen & 0xff;
+        prefix[prefixLen++] = (sc.scriptLen >> 8) & 0xff;
+    }else{
+        if(sc.scriptLen >= OP_PUSHDATA1){
+            prefix[prefixLen++] = OP_PUSHDATA1;
+        }
+        prefix[prefixLen++] = sc.scriptLen;
+    }
+    if(scriptLen + prefixLen + sc.scriptLen > MAX_SCRIPT_SIZE){
+        clear();
+        return 0;
+    }
+    if(push(prefix, prefixLen) == 0){ return 0; }
+    if(sc.scriptLen == 0){ return scriptLen; }
+    return push(sc.scriptArray, sc.scriptLen);
 }
 Script Script::scriptPubkey(ScriptType type) const{
     Script sc(*this, type);
-- 
2.43.0


From b919335361c587be2ff37ae0430bf1420ed8288c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:44:56 +0000
Subject: [PATCH 44/80] fix: script parsing in pieces, copies of partially
 parsed scripts, leaks of empty scripts

---
 src/Bitcoin.h  |  1 +
 src/Script.cpp | 57 +++++++++++++++++++++++++++-----------------------
 2 files changed, 32 insertions(+), 26 deletions(-)

diff --git a/src/Bitcoin.h b/src/Bitcoin.h
index 99c511b..8fe6ebc 100644
--- a/src/Bitcoin.h
+++ b/src/Bitcoin.h
@@ -477,6 +477,7 @@ protected:
     virtual size_t from_stream(ParseStream *s);
     virtual size_t to_stream(SerializeStream *s, size_t offset = 0) const;
     uint8_t lenLen; // for parsing only, length of the varint
+    uint64_t parsedLen; // for parsing only, value of the varint
     void fromAddress(const char * address);
     void init();
 public:
diff --git a/src/Script.cpp b/src/Script.cpp
index fbd4f45..1ef880c 100644
--- a/src/Script.cpp
+++ b/src/Script.cpp
@@ -134,6 +134,7 @@ void Script::init(){
     reset();
     scriptLen = 0;
     scriptArray = NULL;
+    parsedLen = 0;
     lenLen = 0;
 }
 Script::Script(void){
@@ -255,12 +256,13 @@ Script::Script(const Script &other, ScriptType type){
     }
 }
 void Script::clear(){
-    if(scriptLen > 0 && scriptArray != NULL){
+    if(scriptArray != NULL){
         free(scriptArray);
         scriptArray = NULL;
-        scriptLen = 0;
-        lenLen = 0;
     }
+    scriptLen = 0;
+    parsedLen = 0;
+    lenLen = 0;
 }
 size_t Script::from_stream(ParseStream *s){
     if(status == PARSING_FAILED){
@@ -277,32 +279,32 @@ size_t Script::from_stream(ParseStream *s){
         lenLen = s->read();
         bytes_read++;
         if(lenLen < 0xfd){
-            scriptLen = lenLen;
-            if(scriptLen > 0){
-                scriptArray = (uint8_t *) calloc( scriptLen, sizeof(uint8_t));
-            }
+            parsedLen = lenLen;
             lenLen = 1;
         }else{
-            scriptLen = 0;
+            parsedLen = 0;
             lenLen = 1+(1 << (lenLen - 0xfc));
-            scriptArray = (uint8_t *) calloc( 255, sizeof(uint8_t));
         }
-        if(scriptArray == NULL && scriptLen > 0){ status = PARSING_FAILED; scriptLen = 0; return 0; }
     }
     while(s->available() > 0 && bytes_parsed+bytes_read < lenLen){
-        scriptLen += (s->read() << (8*(bytes_parsed+bytes_read-1)));
+        parsedLen += ((uint64_t)s->read() << (8*(bytes_parsed+bytes_read-1)));
         bytes_read++;
     }
-    if(bytes_parsed+bytes_read == lenLen && scriptLen > 0){
-        free(scriptArray);
-        scriptArray = (uint8_t *) calloc( scriptLen, sizeof(uint8_t));
-        if(scriptArray == NULL){ status = PARSING_FAILED; scriptLen = 0; return 0; }
-    }
-    if(bytes_parsed+bytes_read == lenLen && lenVarInt(scriptLen) != lenLen){
-        status = PARSING_FAILED;
-        bytes_parsed+=bytes_read;
+    if(bytes_parsed+bytes_read < lenLen || lenLen == 0){ // length is not known yet
+        bytes_parsed += bytes_read;
         return bytes_read;
     }
+    if(bytes_parsed+bytes_read == lenLen && scriptArray == NULL){
+        if(lenVarInt(parsedLen) == lenLen && parsedLen > 0 && parsedLen < SIZE_MAX - sizeof(parsedLen)){
+            scriptArray = (uint8_t *) calloc( parsedLen, sizeof(uint8_t));
+        }
+        if(lenVarInt(parsedLen) != lenLen || (scriptArray == NULL && parsedLen > 0)){
+            status = PARSING_FAILED;
+            bytes_parsed+=bytes_read;
+            return bytes_read;
+        }
+        scriptLen = parsedLen;
+    }
     // reading the script
     while(s->available() > 0 && bytes_parsed+bytes_read < scriptLen+lenLen){
         scriptArray[bytes_parsed+bytes_read-lenLen] = s->read();
@@ -437,10 +439,13 @@ size_t Script::push(uint8_t code){
     return scriptLen;
 }
 size_t Script::push(const uint8_t * data, size_t len){
-    if(scriptLen+len > MAX_SCRIPT_SIZE){
+    if(len > MAX_SCRIPT_SIZE || scriptLen+len > MAX_SCRIPT_SIZE){
         clear();
         return 0;
     }
+    if(len == 0){ // nothing to add
+        return scriptLen;
+    }
     if(scriptLen == 0){
         scriptArray = (uint8_t *) calloc( len, sizeof(uint8_t));
     }else{
@@ -502,16 +507,16 @@ Script &Script::operator=(const Script &other){
         if(scriptArray == NULL){ scriptLen = 0; return *this; }
         memcpy(scriptArray, other.scriptArray, scriptLen);
     }
+    // parsing state
+    status = other.status;
+    bytes_parsed = other.bytes_parsed;
+    parsedLen = other.parsedLen;
+    lenLen = other.lenLen;
     return *this;
 };
 Script::Script(const Script &other){
     init();
-    if(other.scriptLen > 0){
-        scriptLen = other.scriptLen;
-        scriptArray = (uint8_t *) calloc( scriptLen, sizeof(uint8_t));
-        if(scriptArray == NULL){ scriptLen = 0; return; }
-        memcpy(scriptArray, other.scriptArray, scriptLen);
-    }
+    *this = other;
 };
 
 //------------------------------------------------------------ Witness
-- 
2.43.0


From b53705f577e8ec263b61af2bf26f0ef49754bf4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:44:57 +0000
Subject: [PATCH 45/80] fix: witness parsing in pieces and with more than 252
 elements, dangling pointer after clear, copies of partially parsed witnesses

---
 src/Bitcoin.h  |  2 +-
 src/Script.cpp | 59 ++++++++++++++++++++++++++++++++++----------------
 2 files changed, 41 insertions(+), 20 deletions(-)

diff --git a/src/Bitcoin.h b/src/Bitcoin.h
index 8fe6ebc..6f476a0 100644
--- a/src/Bitcoin.h
+++ b/src/Bitcoin.h
@@ -572,7 +572,7 @@ public:
     Witness(const Witness &other); // copy
     ~Witness(){ if(witnessArray){ free(witnessArray); } };
     /** \brief returns number of elements in the witness */
-    uint8_t count() const{ return numElements; };
+    size_t count() const{ return numElements; };
     /** \brief adds `<len><data>` to the witness */
     size_t push(const uint8_t * data, size_t len);
     /** \brief adds `<len><sec>` to the witness */
diff --git a/src/Script.cpp b/src/Script.cpp
index 1ef880c..ad7e9f7 100644
--- a/src/Script.cpp
+++ b/src/Script.cpp
@@ -523,10 +523,11 @@ Script::Script(const Script &other){
 
 void Witness::clear(){
     numElements = 0;
-    if(witnessLen > 0){
+    if(witnessArray != NULL){
         free(witnessArray);
-        witnessLen = 0;
+        witnessArray = NULL;
     }
+    witnessLen = 0;
 }
 void Witness::init(){
     numElements = 0;
@@ -571,14 +572,26 @@ size_t Witness::from_stream(ParseStream *s){
         if(lenLen < 0xfd){
             numElements = lenLen;
             lenLen = 1;
-        }else{
+        }else if(lenLen == 0xfd){
+            numElements = 0;
+            lenLen = 3;
+        }else{ // too many elements or Electrum's marker of unsigned input
             numElements = 0;
             status = PARSING_FAILED;
             bytes_parsed += bytes_read;
             return bytes_read;
         }
     }
+    while(s->available() && bytes_parsed+bytes_read < lenLen){
+        numElements += ((uint32_t)s->read() << (8*(bytes_parsed+bytes_read-1)));
+        bytes_read++;
+    }
+    if(bytes_parsed+bytes_read < lenLen || lenLen == 0){ // number of elements is not known yet
+        bytes_parsed += bytes_read;
+        return bytes_read;
+    }
     if(bytes_parsed+bytes_read == lenLen && lenVarInt(numElements) != lenLen){
+        numElements = 0;
         status = PARSING_FAILED;
         bytes_parsed+=bytes_read;
         return bytes_read;
@@ -601,10 +614,16 @@ size_t Witness::from_stream(ParseStream *s){
             }
         }
         while(s->available() && cur_bytes_parsed+cur_bytes_read < curLen){
-            cur_element_len += (s->read() << (8*(cur_bytes_parsed+cur_bytes_read-1)));
+            cur_element_len += ((uint64_t)s->read() << (8*(cur_bytes_parsed+cur_bytes_read-1)));
             cur_bytes_read++;
         }
-        if(lenVarInt(cur_element_len) != curLen && cur_bytes_parsed+cur_bytes_read == curLen){
+        if(cur_bytes_parsed+cur_bytes_read < curLen){ // length of the element is not known yet
+            cur_bytes_parsed+=cur_bytes_read;
+            bytes_read+=cur_bytes_read;
+            break;
+        }
+        if((lenVarInt(cur_element_len) != curLen || cur_element_len > SIZE_MAX/2 - witnessLen) && cur_bytes_parsed+cur_bytes_read == curLen){
+            clear();
             status = PARSING_FAILED;
             cur_bytes_parsed+=cur_bytes_read;
             bytes_read+=cur_bytes_read;
@@ -615,11 +634,11 @@ size_t Witness::from_stream(ParseStream *s){
             if(witnessLen==0){
                 witnessLen = cur_element_len+lenVarInt(cur_element_len);
                 witnessArray = (uint8_t *)calloc(witnessLen, sizeof(uint8_t));
-                if(witnessArray == NULL){ witnessLen = 0; status=PARSING_FAILED; return 0;}
+                if(witnessArray == NULL){ clear(); status=PARSING_FAILED; return 0;}
                 writeVarInt(cur_element_len, witnessArray, lenVarInt(cur_element_len));
             }else{
                 uint8_t * ptr = (uint8_t *)realloc( witnessArray, (witnessLen + cur_element_len + lenVarInt(cur_element_len)) * sizeof(uint8_t));
-                if(ptr == NULL){ free(witnessArray); witnessLen = 0; status=PARSING_FAILED; return 0;}
+                if(ptr == NULL){ clear(); status=PARSING_FAILED; return 0;}
                 witnessArray = ptr;
                 witnessLen += cur_element_len+lenVarInt(cur_element_len);
                 writeVarInt(cur_element_len, witnessArray+offset, lenVarInt(cur_element_len));
@@ -666,16 +685,16 @@ size_t Witness::length() const{
     return witnessLen + lenVarInt(numElements);
 }
 size_t Witness::push(const uint8_t * data, size_t len){
-    if(witnessLen + len + lenVarInt(len) > MAX_SCRIPT_SIZE){
+    if(len > MAX_SCRIPT_SIZE || witnessLen + len + lenVarInt(len) > MAX_SCRIPT_SIZE){
         clear();
         return 0;
     }
     if(witnessLen == 0){
         witnessArray = (uint8_t *) calloc( len + lenVarInt(len), sizeof(uint8_t));
-        if(witnessArray == NULL){ witnessLen = 0; return 0; }
+        if(witnessArray == NULL){ clear(); return 0; }
     }else{
         uint8_t * ptr = (uint8_t *) realloc( witnessArray, (witnessLen + len + lenVarInt(len)) * sizeof(uint8_t));
-        if(ptr == NULL){ free(witnessArray); witnessLen = 0; return 0; }
+        if(ptr == NULL){ clear(); return 0; }
         witnessArray = ptr;
     }
     writeVarInt(len, witnessArray+witnessLen, lenVarInt(len));
@@ -710,23 +729,25 @@ size_t Witness::push(const Script sc){
 }
 Witness::Witness(const Witness &other){
     init();
-    numElements = other.numElements;
-    if(other.witnessLen > 0){
-        witnessLen = other.witnessLen;
-        witnessArray = (uint8_t *) calloc( witnessLen, sizeof(uint8_t));
-        if(witnessArray == NULL){ witnessLen = 0; return;}
-        memcpy(witnessArray, other.witnessArray, witnessLen);
-    }
+    *this = other;
 };
 Witness &Witness::operator=(Witness const &other){
     if (this == &other){ return *this; } // self-assignment
     clear();
-    numElements = other.numElements;
     if(other.witnessLen > 0){
         witnessLen = other.witnessLen;
         witnessArray = (uint8_t *) calloc( witnessLen, sizeof(uint8_t));
-        if(witnessArray == NULL){ witnessLen = 0; return *this;}
+        if(witnessArray == NULL){ reset(); witnessLen = 0; return *this;}
         memcpy(witnessArray, other.witnessArray, witnessLen);
     }
+    numElements = other.numElements;
+    // parsing state
+    status = other.status;
+    bytes_parsed = other.bytes_parsed;
+    cur_element = other.cur_element;
+    cur_element_len = other.cur_element_len;
+    cur_bytes_parsed = other.cur_bytes_parsed;
+    curLen = other.curLen;
+    lenLen = other.lenLen;
     return *this;
 };
-- 
2.43.0


From ccb079ee61844b1622b8321d2e7cb0a6d668a7e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:44:58 +0000
Subject: [PATCH 46/80] fix: descriptor checksum accepted zero characters

---
 src/PSBT.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PSBT.cpp b/src/PSBT.cpp
index a262a08..1343235 100644
--- a/src/PSBT.cpp
+++ b/src/PSBT.cpp
@@ -55,7 +55,7 @@ size_t descriptorChecksum(const char * span, size_t spanLen, char * output, size
     for(size_t i=0; i<spanLen; i++){
         char ch = span[i];
         const char * pch = strchr(INPUT_CHARSET, ch);
-        if(pch==NULL){ // char not in the alphabet
+        if(pch==NULL || ch==0){ // char not in the alphabet
             return 0;
         }
         size_t pos = pch - INPUT_CHARSET;
-- 
2.43.0


From f1028a693fd7392ec5e2c81873cd989ab4d544c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:44:58 +0000
Subject: [PATCH 47/80] fix: invalid hex characters and empty text were parsed
 as 0xFF bytes or hung the parser

---
 src/BaseClasses.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/BaseClasses.cpp b/src/BaseClasses.cpp
index 6de5ad2..8a770ca 100644
--- a/src/BaseClasses.cpp
+++ b/src/BaseClasses.cpp
@@ -37,6 +37,10 @@ ParseByteStream::~ParseByteStream(){
 }
 size_t ParseByteStream::available(){
     if(format == HEX_ENCODING){
+        // nothing to read if the next character is not a hex one
+        if(len - cursor < 2 || hexToVal(buf[cursor]) > 0x0F || hexToVal(buf[cursor+1]) > 0x0F){
+            return 0;
+        }
         return (len - cursor)/2;
     }else{
         return len-cursor;
@@ -44,7 +48,7 @@ size_t ParseByteStream::available(){
 };
 int ParseByteStream::read(){
     if(format == HEX_ENCODING){
-        if(cursor < len-1){
+        if(cursor + 1 < len){
             uint8_t c1 = hexToVal(buf[cursor]);
             uint8_t c2 = hexToVal(buf[cursor+1]);
             if(c1 < 0x10 && c2 < 0x10){
-- 
2.43.0


From 9b86304929ee869891b082b2b38a7238330479c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:44:59 +0000
Subject: [PATCH 48/80] fix: serialize to string with offset beyond the end

---
 src/BaseClasses.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/BaseClasses.cpp b/src/BaseClasses.cpp
index 8a770ca..8947a82 100644
--- a/src/BaseClasses.cpp
+++ b/src/BaseClasses.cpp
@@ -160,6 +160,9 @@ String Readable::toString() const{
 
 #if USE_ARDUINO_STRING || USE_STD_STRING
 String Streamable::serialize(size_t offset, size_t len) const{
+    if(offset >= length()){ // nothing there
+        return String();
+    }
     if(len == 0){
         len = (length()-offset);
     }
-- 
2.43.0


From d7a5ff7c445bd279c85271cc5ad8817ce4f6338e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:45:22 +0000
Subject: [PATCH 49/80] fix: bech32 text without separator overflowed the
 buffers

---
 src/utility/segwit_addr.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utility/segwit_addr.c b/src/utility/segwit_addr.c
index abc8e3e..54edf33 100755
--- a/src/utility/segwit_addr.c
+++ b/src/utility/segwit_addr.c
@@ -109,10 +109,10 @@ static uint32_t bech32_decode_const(char* hrp, uint8_t *data, size_t *data_len,
     while (*data_len < input_len && input[(input_len - 1) - *data_len] != '1') {
         ++(*data_len);
     }
-    hrp_len = input_len - (1 + *data_len);
-    if (hrp_len < 1 || *data_len < 6) {
+    if (1 + *data_len >= input_len || *data_len < 6) {
         return 0;
     }
+    hrp_len = input_len - (1 + *data_len);
     *(data_len) -= 6;
     for (i = 0; i < hrp_len; ++i) {
         int ch = input[i];
-- 
2.43.0


From 8850d1fb3a9ce50373001db219fe7819bb5109c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:52:29 +0000
Subject: [PATCH 50/80] fix: TxIn built from a bad or short previous id used
 uninitialised memory

---
 src/Transaction.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Transaction.cpp b/src/Transaction.cpp
index 39d74b9..b0c240a 100644
--- a/src/Transaction.cpp
+++ b/src/Transaction.cpp
@@ -35,6 +35,7 @@ TxIn::TxIn(const uint8_t prev_id[32], uint32_t prev_index, uint32_t sequence_num
     }
 }
 TxIn::TxIn(const uint8_t prev_id[32], uint32_t prev_index, const Script script, uint32_t sequence_number){
+    init();
     outputIndex = prev_index;
     sequence = sequence_number;
     for(int i=0; i<32; i++){
@@ -50,19 +51,20 @@ TxIn::TxIn(const char * prev_id, uint32_t prev_index, uint32_t sequence_number){
     }
     outputIndex = prev_index;
     sequence = sequence_number;
-    uint8_t arr[32];
+    uint8_t arr[32] = { 0 };
     fromHex(prev_id, 64, arr, 32);
     for(int i=0; i<32; i++){
         hash[i] = arr[31-i];
     }
 }
 TxIn::TxIn(const char * prev_id, uint32_t prev_index, const Script script, uint32_t sequence_number){
+    init();
     outputIndex = prev_index;
     sequence = sequence_number;
     if(strlen(prev_id) < 64){
         return;
     }
-    uint8_t tmp[32];
+    uint8_t tmp[32] = { 0 };
     fromHex(prev_id, 64, tmp, 32);
     for(int i=0; i<32; i++){
         hash[i] = tmp[31-i];
-- 
2.43.0


From b4b4a7e059077e1de1b3aa2561aed2ccd6f0d82d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:52:29 +0000
Subject: [PATCH 51/80] fix: parsing a new input kept the witness of the old
 one

---
 src/Transaction.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Transaction.cpp b/src/Transaction.cpp
index b0c240a..4c7a2b3 100644
--- a/src/Transaction.cpp
+++ b/src/Transaction.cpp
@@ -80,6 +80,7 @@ size_t TxIn::from_stream(ParseStream *s){
         outputIndex = 0;
         sequence = 0;
         scriptSig = Script();
+        witness = Witness(); // witness belongs to the previous input
     }
     status = PARSING_INCOMPLETE;
     size_t bytes_read = 0;
-- 
2.43.0


From 9ff2ce8afe8dcfb09763bbff9a611b64e8a1230e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:52:29 +0000
Subject: [PATCH 52/80] fix: signed shift overflow when parsing transaction
 integers

---
 src/Transaction.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/Transaction.cpp b/src/Transaction.cpp
index 4c7a2b3..552ab02 100644
--- a/src/Transaction.cpp
+++ b/src/Transaction.cpp
@@ -90,7 +90,7 @@ size_t TxIn::from_stream(ParseStream *s){
     }
     while(s->available() && bytes_read+bytes_parsed<32+4){
         uint8_t c = s->read();
-        outputIndex += (c << (8*(bytes_read+bytes_parsed-32)));
+        outputIndex += ((uint32_t)c << (8*(bytes_read+bytes_parsed-32)));
         bytes_read++;
     }
     if(s->available() && bytes_read+bytes_parsed == 32+4){
@@ -107,7 +107,7 @@ size_t TxIn::from_stream(ParseStream *s){
     }
     while(s->available() && bytes_read+bytes_parsed < 32+4+scriptSig.length()+4){
         uint8_t c = s->read();
-        sequence += (c << (8*(bytes_read+bytes_parsed-scriptSig.length()-32-4)));
+        sequence += ((uint32_t)c << (8*(bytes_read+bytes_parsed-scriptSig.length()-32-4)));
         bytes_read++;
     }
     if(scriptSig.getStatus() == PARSING_DONE && bytes_read+bytes_parsed == 32+4+scriptSig.length()+4){
@@ -367,7 +367,7 @@ size_t Tx::from_stream(ParseStream *s){
     size_t bytes_read = 0;
     while(s->available() && bytes_read+bytes_parsed<4){
         uint8_t c = s->read();
-        version += (c << (8*(bytes_read+bytes_parsed)));
+        version += ((uint32_t)c << (8*(bytes_read+bytes_parsed)));
         bytes_read++;
     }
     if(s->available() && bytes_read+bytes_parsed == 4){
@@ -459,7 +459,7 @@ size_t Tx::from_stream(ParseStream *s){
     }
     while(s->available() && bytes_parsed+bytes_read < current_offset+4){
         uint8_t c = s->read();
-        locktime += (c << (8*(bytes_read+bytes_parsed-current_offset)));
+        locktime += ((uint32_t)c << (8*(bytes_read+bytes_parsed-current_offset)));
         bytes_read++;
     }
     current_offset+= 4;
-- 
2.43.0


From 93e1aeca7a755c594f1c3b061b7a732e693c61c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:52:29 +0000
Subject: [PATCH 53/80] fix: copies of transactions without inputs or outputs
 leaked memory

---
 src/Transaction.cpp | 31 +++++++++----------------------
 1 file changed, 9 insertions(+), 22 deletions(-)

diff --git a/src/Transaction.cpp b/src/Transaction.cpp
index 552ab02..83cf7bb 100644
--- a/src/Transaction.cpp
+++ b/src/Transaction.cpp
@@ -233,12 +233,7 @@ Tx::Tx(const Tx & other){
 Tx& Tx::operator=(Tx const &other){ // copy-paste =(
     if (this == &other){ return *this; } // self-assignment
     version = other.version;
-    if(inputsNumber > 0){
-        delete [] txIns;
-    }
-    if(outputsNumber > 0){
-        delete [] txOuts;
-    }
+    clear();
     inputsNumber = other.inputsNumber;
     outputsNumber = other.outputsNumber;
     txIns = new TxIn[inputsNumber];
@@ -259,16 +254,12 @@ Tx::~Tx(){
     clear();
 }
 void Tx::clear(){
-    if(inputsNumber > 0){
-        inputsNumber = 0;
-        delete [] txIns;
-        txIns = NULL;
-    }
-    if(outputsNumber > 0){
-        outputsNumber = 0;
-        delete [] txOuts;
-        txOuts = NULL;
-    }
+    inputsNumber = 0;
+    delete [] txIns; // can be allocated even if there are no inputs
+    txIns = NULL;
+    outputsNumber = 0;
+    delete [] txOuts;
+    txOuts = NULL;
 }
 size_t Tx::length() const{
     bool is_segwit = isSegwit();
@@ -607,9 +598,7 @@ uint8_t Tx::addInput(const TxIn txIn){
         arr[i] = txIns[i];
     }
     arr[inputsNumber] = txIn;
-    if(inputsNumber > 0){
-        delete [] txIns;
-    }
+    delete [] txIns;
     txIns = arr;
     inputsNumber++;
     return inputsNumber;
@@ -620,9 +609,7 @@ uint8_t Tx::addOutput(const TxOut txOut){
         arr[i] = txOuts[i];
     }
     arr[outputsNumber] = txOut;
-    if(outputsNumber > 0){
-        delete [] txOuts;
-    }
+    delete [] txOuts;
     txOuts = arr;
     outputsNumber++;
     return outputsNumber;
-- 
2.43.0


From 165d9d800dbb80f9bf63e5a0b35c9caeee388946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:52:29 +0000
Subject: [PATCH 54/80] fix: transactions with more than 252 inputs or outputs
 were misread

---
 src/Transaction.cpp | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/Transaction.cpp b/src/Transaction.cpp
index 83cf7bb..0cb0c40 100644
--- a/src/Transaction.cpp
+++ b/src/Transaction.cpp
@@ -367,7 +367,13 @@ size_t Tx::from_stream(ParseStream *s){
         if(c == 0x00){ // segwit!
             segwit_flag = 1;
         }else{
-            inputsNumber = c; // FIXME: should be varint, but 255 inputs will kill the MCU...
+            if(c >= 0xfd){ // FIXME: should be varint, but 255 inputs will kill the MCU...
+                status = PARSING_FAILED;
+                ubtc_errno = UBTC_ERR_TX_GLOBAL;
+                bytes_parsed+=bytes_read;
+                return bytes_read;
+            }
+            inputsNumber = c;
             txIns = new TxIn[inputsNumber];
             for(unsigned int i=0; i<inputsNumber; i++){ // this will at least set all txins to PARSING_INCOMPLETE
                 bytes_read += s->parse(&txIns[i]);
@@ -384,8 +390,15 @@ size_t Tx::from_stream(ParseStream *s){
         }
     }
     if(s->available() && segwit_flag > 0 && bytes_read+bytes_parsed == 6){
-        inputsNumber = s->read();
+        uint8_t c = s->read();
         bytes_read++;
+        if(c >= 0xfd){ // varint, see above
+            status = PARSING_FAILED;
+            ubtc_errno = UBTC_ERR_TX_GLOBAL;
+            bytes_parsed+=bytes_read;
+            return bytes_read;
+        }
+        inputsNumber = c;
         txIns = new TxIn[inputsNumber];
         for(unsigned int i=0; i<inputsNumber; i++){ // this will at least set all txins to PARSING_INCOMPLETE
             bytes_read += s->parse(&txIns[i]);
@@ -406,8 +419,15 @@ size_t Tx::from_stream(ParseStream *s){
         current_offset += txIns[i].length();
     }
     if(s->available() && bytes_read+bytes_parsed == current_offset){
-        outputsNumber = s->read();
+        uint8_t c = s->read();
         bytes_read++;
+        if(c >= 0xfd){ // varint, see above
+            status = PARSING_FAILED;
+            ubtc_errno = UBTC_ERR_TX_GLOBAL;
+            bytes_parsed+=bytes_read;
+            return bytes_read;
+        }
+        outputsNumber = c;
         txOuts = new TxOut[outputsNumber];
         for(unsigned int i=0; i<outputsNumber; i++){ // this will at least set all txouts to PARSING_INCOMPLETE
             bytes_read += s->parse(&txOuts[i]);
-- 
2.43.0


From f252d6b40aab9a49880f37a646607d6710f1ea33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:52:29 +0000
Subject: [PATCH 55/80] fix: transactions with more than 252 inputs or outputs
 were serialized without full count

---
 src/Transaction.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Transaction.cpp b/src/Transaction.cpp
index 0cb0c40..0777e3d 100644
--- a/src/Transaction.cpp
+++ b/src/Transaction.cpp
@@ -302,7 +302,7 @@ size_t Tx::to_stream(SerializeStream *s, size_t offset) const{
     }
     size_t cur_offset = 4+2*is_segwit;
     size_t l = writeVarInt(inputsNumber, arr, 10);
-    if(s->available() && bytes_written+offset < cur_offset+l){
+    while(s->available() && bytes_written+offset < cur_offset+l){
         s->write(arr[bytes_written+offset-cur_offset]);
         bytes_written++;
     }
@@ -315,7 +315,7 @@ size_t Tx::to_stream(SerializeStream *s, size_t offset) const{
         cur_offset+=l;
     }
     l = writeVarInt(outputsNumber, arr, 10);
-    if(s->available() && bytes_written+offset < cur_offset+l){
+    while(s->available() && bytes_written+offset < cur_offset+l){
         s->write(arr[bytes_written+offset-cur_offset]);
         bytes_written++;
     }
-- 
2.43.0


From 99dd45ab29343a8548568e36f26866c0bb3b8556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:52:29 +0000
Subject: [PATCH 56/80] fix: data after an invalid witness was consumed by
 witnesses of other inputs

---
 src/Transaction.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Transaction.cpp b/src/Transaction.cpp
index 0777e3d..e47f7ac 100644
--- a/src/Transaction.cpp
+++ b/src/Transaction.cpp
@@ -450,6 +450,9 @@ size_t Tx::from_stream(ParseStream *s){
     if(segwit_flag > 0 && bytes_read+bytes_parsed == current_offset){
         for(unsigned int i=0; i<inputsNumber; i++){ // this will at least set all txins witnesses to PARSING_INCOMPLETE
             bytes_read += s->parse(&txIns[i].witness);
+            if(txIns[i].witness.getStatus() == PARSING_FAILED){ // don't consume what follows
+                break;
+            }
         }
     }
     if(segwit_flag > 0){
-- 
2.43.0


From 8c2088410345b4b44f5bc51e3e307b5b4592873c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:52:29 +0000
Subject: [PATCH 57/80] fix: witness id of a transaction without witnesses must
 be its transaction id

---
 src/Transaction.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/Transaction.cpp b/src/Transaction.cpp
index e47f7ac..4ae4ed2 100644
--- a/src/Transaction.cpp
+++ b/src/Transaction.cpp
@@ -595,7 +595,11 @@ int Tx::txid(uint8_t * id_arr) const{
 }
 int Tx::wtxid(uint8_t * id_arr) const{
     uint8_t h[32];
-    whash(h);
+    if(isSegwit()){
+        whash(h);
+    }else{ // same as txid
+        hash(h);
+    }
     for(uint8_t i=0;i<32;i++){
         id_arr[i] = h[31-i];
     }
-- 
2.43.0


From 90ab30282ce70089f79572044a1dc714ac37eca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:52:29 +0000
Subject: [PATCH 58/80] fix: signature hashes and signing with SIGHASH_NONE and
 SIGHASH_SINGLE, input index out of range

---
 src/Transaction.cpp | 63 +++++++++++++++++++++++++++++++++++++++------
 1 file changed, 55 insertions(+), 8 deletions(-)

diff --git a/src/Transaction.cpp b/src/Transaction.cpp
index 4ae4ed2..6890297 100644
--- a/src/Transaction.cpp
+++ b/src/Transaction.cpp
@@ -502,6 +502,15 @@ size_t Tx::from_stream(ParseStream *s){
     return bytes_read;
 }
 int Tx::sigHash(uint8_t h[32], uint8_t inputIndex, const Script scriptPubkey, SigHashType sighash) const{
+    if(inputIndex >= inputsNumber){
+        memset(h, 0, 32);
+        return 0;
+    }
+    if(sighash == SIGHASH_SINGLE && inputIndex >= outputsNumber){ // consensus: uint256 one
+        memset(h, 0, 32);
+        h[0] = 1;
+        return 32;
+    }
     Script empty;
     DoubleSha s;
     s.begin();
@@ -518,13 +527,28 @@ int Tx::sigHash(uint8_t h[32], uint8_t inputIndex, const Script scriptPubkey, Si
             t.scriptSig = scriptPubkey;
         }else{
             t.scriptSig = empty;
+            if(sighash != SIGHASH_ALL){ // other inputs can be updated
+                t.sequence = 0;
+            }
         }
         s.serialize(&t, 0);
     }
-    l = writeVarInt(outputsNumber, arr, 10);
+    size_t outs = outputsNumber;
+    if(sighash == SIGHASH_NONE){
+        outs = 0;
+    }
+    if(sighash == SIGHASH_SINGLE){
+        outs = (size_t)inputIndex+1;
+    }
+    l = writeVarInt(outs, arr, 10);
     s.write(arr, l);
-    for(size_t i=0; i<outputsNumber; i++){
-        s.serialize(&txOuts[i], 0);
+    for(size_t i=0; i<outs; i++){
+        if(sighash == SIGHASH_SINGLE && i != inputIndex){
+            TxOut blank(0xffffffffffffffffULL, empty);
+            s.serialize(&blank, 0);
+        }else{
+            s.serialize(&txOuts[i], 0);
+        }
     }
     intToLittleEndian(locktime, arr, 4);
     s.write(arr, 4);
@@ -678,6 +702,10 @@ int Tx::hashOutputs(uint8_t h[32]) const{
 }
 
 int Tx::sigHashSegwit(uint8_t h[32], uint8_t inputIndex, const Script scriptPubKey, uint64_t amount, SigHashType sighash) const{
+    if(inputIndex >= inputsNumber){
+        memset(h, 0, 32);
+        return 0;
+    }
     DoubleSha s;
     s.begin();
     uint8_t arr[8];
@@ -687,7 +715,11 @@ int Tx::sigHashSegwit(uint8_t h[32], uint8_t inputIndex, const Script scriptPubK
     hashPrevouts(h);
     s.write(h, 32);
 
-    hashSequence(h);
+    if(sighash == SIGHASH_ALL){
+        hashSequence(h);
+    }else{
+        memset(h, 0, 32);
+    }
     s.write(h, 32);
 
     s.write(txIns[inputIndex].hash, 32);
@@ -700,7 +732,17 @@ int Tx::sigHashSegwit(uint8_t h[32], uint8_t inputIndex, const Script scriptPubK
     intToLittleEndian(txIns[inputIndex].sequence, arr, 4);
     s.write(arr, 4);
 
-    hashOutputs(h);
+    if(sighash == SIGHASH_ALL){
+        hashOutputs(h);
+    }else{
+        memset(h, 0, 32);
+        if(sighash == SIGHASH_SINGLE && inputIndex < outputsNumber){
+            DoubleSha o;
+            o.begin();
+            o.serialize(&txOuts[inputIndex], 0);
+            o.end(h);
+        }
+    }
     s.write(h, 32);
 
     intToLittleEndian(locktime, arr, 4);
@@ -714,13 +756,15 @@ int Tx::sigHashSegwit(uint8_t h[32], uint8_t inputIndex, const Script scriptPubK
 
 Signature Tx::signInput(uint8_t inputIndex, const PrivateKey pk, const Script redeemScript, SigHashType sighash){
     uint8_t h[32];
-    sigHash(h, inputIndex, redeemScript, sighash);
+    if(sigHash(h, inputIndex, redeemScript, sighash) == 0){ // no such input
+        return Signature();
+    }
 
     PublicKey pubkey = pk.publicKey();
     Signature sig = pk.sign(h);
 
     Script sc;
-    sc.push(sig);
+    sc.push(sig, sighash);
     sc.push(pubkey);
     // push script itself for timelocks and other single-key things if P2SH
     if(redeemScript.type() != P2PKH){
@@ -732,6 +776,9 @@ Signature Tx::signInput(uint8_t inputIndex, const PrivateKey pk, const Script re
     return sig;
 }
 Signature Tx::signSegwitInput(uint8_t inputIndex, const PrivateKey pk, const Script redeemScript, uint64_t amount, ScriptType type, SigHashType sighash){
+    if(inputIndex >= inputsNumber){
+        return Signature();
+    }
     uint8_t h[32];
 
     ScriptType redeem_type = redeemScript.type();
@@ -760,7 +807,7 @@ Signature Tx::signSegwitInput(uint8_t inputIndex, const PrivateKey pk, const Scr
     }
 
     Witness w;
-    w.push(sig);
+    w.push(sig, sighash);
     w.push(pubkey);
     if(redeem_type != P2WPKH){
         w.push(redeemScript);
-- 
2.43.0


From d9aacb52c6482d6360916712a9c2f358e25fb818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:58:56 +0000
Subject: [PATCH 59/80] fix: PSBT copies, assignment and repeated parsing
 leaked memory and lost or mixed up parsing state and metadata

---
 src/PSBT.cpp | 204 ++++++++++++++++-----------------------------------
 src/PSBT.h   |   1 +
 2 files changed, 64 insertions(+), 141 deletions(-)

diff --git a/src/PSBT.cpp b/src/PSBT.cpp
index 1343235..0f50f72 100644
--- a/src/PSBT.cpp
+++ b/src/PSBT.cpp
@@ -90,36 +90,7 @@ size_t PSBT::from_stream(ParseStream *s){
         return 0;
     }
     if(status == PARSING_DONE){
-        // free memory
-        if(tx.inputsNumber > 0){
-            for(size_t i=0; i<tx.inputsNumber; i++){
-                if(txInsMeta[i].derivationsLen > 0){
-                    for(size_t j=0; j<txInsMeta[i].derivationsLen; j++){
-                        if(txInsMeta[i].derivations[j].derivationLen > 0){
-                            free(txInsMeta[i].derivations[j].derivation);
-                        }
-                    }
-                    delete [] txInsMeta[i].derivations;
-                }
-                if(txInsMeta[i].signaturesLen > 0){
-                    delete [] txInsMeta[i].signatures;
-                }
-            }
-            delete [] txInsMeta;
-        }
-        if(tx.outputsNumber > 0){
-            for(size_t i=0; i<tx.outputsNumber; i++){
-                if(txOutsMeta[i].derivationsLen > 0){
-                    for(size_t j=0; j<txOutsMeta[i].derivationsLen; j++){
-                        if(txOutsMeta[i].derivations[j].derivationLen > 0){
-                            free(txOutsMeta[i].derivations[j].derivation);
-                        }
-                    }
-                    delete [] txOutsMeta[i].derivations;
-                }
-            }
-            delete [] txOutsMeta;
-        }
+        clear();
         tx.reset();
         bytes_parsed = 0;
         current_section = 0;
@@ -181,6 +152,7 @@ size_t PSBT::from_stream(ParseStream *s){
         tx.parse(arr+l, value.length()-l);
         if(tx.getStatus() != PARSING_DONE){
             status = PARSING_FAILED;
+            tx = Tx(); // there is no metadata for it
         }
         free(arr);
         if(status == PARSING_FAILED){
@@ -189,11 +161,14 @@ size_t PSBT::from_stream(ParseStream *s){
         }
         txInsMeta = new PSBTInputMetadata[tx.inputsNumber];
         for(size_t i=0; i<tx.inputsNumber; i++){
+            txInsMeta[i].derivations = NULL;
             txInsMeta[i].derivationsLen = 0;
+            txInsMeta[i].signatures = NULL;
             txInsMeta[i].signaturesLen = 0;
         }
         txOutsMeta = new PSBTOutputMetadata[tx.outputsNumber];
         for(size_t i=0; i<tx.outputsNumber; i++){
+            txOutsMeta[i].derivations = NULL;
             txOutsMeta[i].derivationsLen = 0;
         }
         last_key_pos += key.length()+value.length();
@@ -377,6 +352,8 @@ int PSBT::add(uint8_t section, const Script * k, const Script * v){
                     delete [] p;
                 }
                 PSBTDerivation * der = &txInsMeta[input].derivations[txInsMeta[input].derivationsLen-1];
+                der->derivation = NULL;
+                der->derivationLen = 0;
                 der->pubkey.parse(key_arr+2, k->length()-2);
                 if(der->pubkey.getStatus() != PARSING_DONE){
                     res = -1;
@@ -406,7 +383,8 @@ int PSBT::add(uint8_t section, const Script * k, const Script * v){
         switch(key_code){
             case 0: { // PSBT_OUT_REDEEM_SCRIPT
                 if(k->length() != 2){
-                    return -1;
+                    res = -1;
+                    break;
                 }
                 txOutsMeta[output].redeemScript.parse(val_arr, v->length());
                 res = 1;
@@ -414,7 +392,8 @@ int PSBT::add(uint8_t section, const Script * k, const Script * v){
             }
             case 1: { // PSBT_OUT_WITNESS_SCRIPT
                 if(k->length() != 2){
-                    return -1;
+                    res = -1;
+                    break;
                 }
                 txOutsMeta[output].witnessScript.parse(val_arr, v->length());
                 res = 1;
@@ -439,6 +418,8 @@ int PSBT::add(uint8_t section, const Script * k, const Script * v){
                     delete [] p;
                 }
                 PSBTDerivation * der = &txOutsMeta[output].derivations[txOutsMeta[output].derivationsLen-1];
+                der->derivation = NULL;
+                der->derivationLen = 0;
                 der->pubkey.parse(key_arr+2, k->length()-2);
                 if(der->pubkey.getStatus() != PARSING_DONE){
                     res = -1;
@@ -528,75 +509,58 @@ size_t PSBT::length() const{
 }
 
 PSBT::PSBT(PSBT const &other){
-    reset();
-    txInsMeta = NULL; txOutsMeta = NULL; status = PARSING_DONE; current_section = 0; last_key_pos = 0;
-    tx = other.tx;
-    status = other.status;
-    txInsMeta = new PSBTInputMetadata[tx.inputsNumber];
-    txOutsMeta = new PSBTOutputMetadata[tx.outputsNumber];
-    for(size_t i=0; i<tx.inputsNumber; i++){
-        txInsMeta[i] = other.txInsMeta[i];
-        txInsMeta[i].derivations = new PSBTDerivation[txInsMeta[i].derivationsLen];
-        for(size_t j=0; j<txInsMeta[i].derivationsLen; j++){
-            txInsMeta[i].derivations[j] = other.txInsMeta[i].derivations[j];
-            txInsMeta[i].derivations[j].derivation = (uint32_t *)calloc(txInsMeta[i].derivations[j].derivationLen, sizeof(uint32_t));
-            if(txInsMeta[i].derivations[j].derivation == NULL){
-                txInsMeta[i].derivations[j].derivationLen = 0;
-            }else{
-                memcpy(txInsMeta[i].derivations[j].derivation, other.txInsMeta[i].derivations[j].derivation, txInsMeta[i].derivations[j].derivationLen*sizeof(uint32_t));
-            }
-        }
-        txInsMeta[i].signatures = new PSBTPartialSignature[txInsMeta[i].signaturesLen];
-        for(size_t j=0; j<txInsMeta[i].signaturesLen; j++){
-            txInsMeta[i].signatures[j] = other.txInsMeta[i].signatures[j];
-        }
+    txInsMeta = NULL; txOutsMeta = NULL;
+    *this = other;
+}
+
+PSBT::~PSBT(){
+    clear();
+}
+
+static void freeDerivations(PSBTDerivation * derivations, size_t len){
+    for(size_t j=0; j<len; j++){
+        free(derivations[j].derivation);
     }
-    for(size_t i=0; i<tx.outputsNumber; i++){
-        txOutsMeta[i] = other.txOutsMeta[i];
-        txOutsMeta[i].derivations = new PSBTDerivation[txOutsMeta[i].derivationsLen];
-        for(size_t j=0; j<txOutsMeta[i].derivationsLen; j++){
-            txOutsMeta[i].derivations[j] = other.txOutsMeta[i].derivations[j];
-            txOutsMeta[i].derivations[j].derivation = (uint32_t *)calloc(txOutsMeta[i].derivations[j].derivationLen, sizeof(uint32_t));
-            if(txOutsMeta[i].derivations[j].derivation == NULL){
-                txOutsMeta[i].derivations[j].derivationLen = 0;
+    delete [] derivations;
+}
+
+static PSBTDerivation * copyDerivations(const PSBTDerivation * other, size_t len){
+    if(len == 0){
+        return NULL;
+    }
+    PSBTDerivation * derivations = new PSBTDerivation[len];
+    for(size_t j=0; j<len; j++){
+        derivations[j] = other[j];
+        derivations[j].derivation = NULL;
+        if(other[j].derivationLen > 0){
+            derivations[j].derivation = (uint32_t *)calloc(other[j].derivationLen, sizeof(uint32_t));
+            if(derivations[j].derivation == NULL){
+                derivations[j].derivationLen = 0;
             }else{
-                memcpy(txOutsMeta[i].derivations[j].derivation, other.txOutsMeta[i].derivations[j].derivation, txOutsMeta[i].derivations[j].derivationLen*sizeof(uint32_t));
+                memcpy(derivations[j].derivation, other[j].derivation, other[j].derivationLen*sizeof(uint32_t));
             }
         }
     }
+    return derivations;
 }
 
-PSBT::~PSBT(){
-    // free memory
-    if(tx.inputsNumber > 0){
+void PSBT::clear(){
+    if(txInsMeta != NULL){
         for(size_t i=0; i<tx.inputsNumber; i++){
-            if(txInsMeta[i].derivationsLen > 0){
-                for(size_t j=0; j<txInsMeta[i].derivationsLen; j++){
-                    if(txInsMeta[i].derivations[j].derivationLen > 0){
-                        free(txInsMeta[i].derivations[j].derivation);
-                    }
-                }
-                delete [] txInsMeta[i].derivations;
-            }
-            if(txInsMeta[i].signaturesLen > 0){
-                delete [] txInsMeta[i].signatures;
-            }
+            freeDerivations(txInsMeta[i].derivations, txInsMeta[i].derivationsLen);
+            delete [] txInsMeta[i].signatures;
         }
         delete [] txInsMeta;
+        txInsMeta = NULL;
     }
-    if(tx.outputsNumber > 0){
+    if(txOutsMeta != NULL){
         for(size_t i=0; i<tx.outputsNumber; i++){
-            if(txOutsMeta[i].derivationsLen > 0){
-                for(size_t j=0; j<txOutsMeta[i].derivationsLen; j++){
-                    if(txOutsMeta[i].derivations[j].derivationLen > 0){
-                        free(txOutsMeta[i].derivations[j].derivation);
-                    }
-                }
-                delete [] txOutsMeta[i].derivations;
-            }
+            freeDerivations(txOutsMeta[i].derivations, txOutsMeta[i].derivationsLen);
         }
         delete [] txOutsMeta;
+        txOutsMeta = NULL;
     }
+    tx = Tx();
 }
 
 uint8_t PSBT::sign(const HDPrivateKey root){
@@ -739,55 +703,22 @@ bool PSBT::isMine(uint8_t outputNumber, const HDPrivateKey xprv) const{
 
 PSBT& PSBT::operator=(PSBT const &other){
     if (this == &other){ return *this; } // self-assignment
-    // free memory
-    if(tx.inputsNumber > 0){
-        for(size_t i=0; i<tx.inputsNumber; i++){
-            if(txInsMeta[i].derivationsLen > 0){
-                for(size_t j=0; j<txInsMeta[i].derivationsLen; j++){
-                    if(txInsMeta[i].derivations[j].derivationLen > 0){
-                        free(txInsMeta[i].derivations[j].derivation);
-                    }
-                }
-                delete [] txInsMeta[i].derivations;
-            }
-            if(txInsMeta[i].signaturesLen > 0){
-                delete [] txInsMeta[i].signatures;
-            }
-        }
-        delete [] txInsMeta;
-    }
-    if(tx.outputsNumber > 0){
-        for(size_t i=0; i<tx.outputsNumber; i++){
-            if(txOutsMeta[i].derivationsLen > 0){
-                for(size_t j=0; j<txOutsMeta[i].derivationsLen; j++){
-                    if(txOutsMeta[i].derivations[j].derivationLen > 0){
-                        free(txOutsMeta[i].derivations[j].derivation);
-                    }
-                }
-                delete [] txOutsMeta[i].derivations;
-            }
-        }
-        delete [] txOutsMeta;
-    }
-    // copy
+    clear();
     tx = other.tx;
+    // parsing state
     status = other.status;
-    if(tx.inputsNumber > 0){
+    bytes_parsed = other.bytes_parsed;
+    key = other.key;
+    value = other.value;
+    current_section = other.current_section;
+    last_key_pos = other.last_key_pos;
+    // metadata, doesn't exist until the transaction is parsed
+    if(other.txInsMeta != NULL){
         txInsMeta = new PSBTInputMetadata[tx.inputsNumber];
         for(size_t i=0; i<tx.inputsNumber; i++){
             txInsMeta[i] = other.txInsMeta[i];
-            if(txInsMeta[i].derivationsLen > 0){
-                txInsMeta[i].derivations = new PSBTDerivation[txInsMeta[i].derivationsLen];
-                for(size_t j=0; j<txInsMeta[i].derivationsLen; j++){
-                    txInsMeta[i].derivations[j] = other.txInsMeta[i].derivations[j];
-                    txInsMeta[i].derivations[j].derivation = (uint32_t*)calloc(txInsMeta[i].derivations[j].derivationLen, sizeof(uint32_t));
-                    if(txInsMeta[i].derivations[j].derivation == NULL){
-                        txInsMeta[i].derivations[j].derivationLen = 0;
-                    }else{
-                        memcpy(txInsMeta[i].derivations[j].derivation, other.txInsMeta[i].derivations[j].derivation, txInsMeta[i].derivations[j].derivationLen*sizeof(uint32_t));
-                    }
-                }
-            }
+            txInsMeta[i].derivations = copyDerivations(other.txInsMeta[i].derivations, other.txInsMeta[i].derivationsLen);
+            txInsMeta[i].signatures = NULL;
             if(txInsMeta[i].signaturesLen > 0){
                 txInsMeta[i].signatures = new PSBTPartialSignature[txInsMeta[i].signaturesLen];
                 for(size_t j=0; j<txInsMeta[i].signaturesLen; j++){
@@ -796,20 +727,11 @@ PSBT& PSBT::operator=(PSBT const &other){
             }
         }
     }
-    if(tx.outputsNumber > 0){
+    if(other.txOutsMeta != NULL){
         txOutsMeta = new PSBTOutputMetadata[tx.outputsNumber];
         for(size_t i=0; i<tx.outputsNumber; i++){
             txOutsMeta[i] = other.txOutsMeta[i];
-            txOutsMeta[i].derivations = new PSBTDerivation[txOutsMeta[i].derivationsLen];
-            for(size_t j=0; j<txOutsMeta[i].derivationsLen; j++){
-                txOutsMeta[i].derivations[j] = other.txOutsMeta[i].derivations[j];
-                txOutsMeta[i].derivations[j].derivation = (uint32_t *)calloc(txOutsMeta[i].derivations[j].derivationLen, sizeof(uint32_t));
-                if(txOutsMeta[i].derivations[j].derivation == NULL){
-                    txOutsMeta[i].derivations[j].derivationLen = 0;
-                }else{
-                    memcpy(txOutsMeta[i].derivations[j].derivation, other.txOutsMeta[i].derivations[j].derivation, txOutsMeta[i].derivations[j].derivationLen*sizeof(uint32_t));
-                }
-            }
+            txOutsMeta[i].derivations = copyDerivations(other.txOutsMeta[i].derivations, other.txOutsMeta[i].derivationsLen);
         }
     }
     return *this;
diff --git a/src/PSBT.h b/src/PSBT.h
index 60073a2..49ba5bc 100644
--- a/src/PSBT.h
+++ b/src/PSBT.h
@@ -74,6 +74,7 @@ protected:
     Script value; // value for parsing
     uint8_t current_section;
     size_t last_key_pos;
+    void clear(); // frees all metadata and the transaction
 public:
     virtual size_t length() const;
     PSBT(){ txInsMeta = NULL; txOutsMeta = NULL; status = PARSING_DONE; current_section = 0; last_key_pos = 0; };
-- 
2.43.0


From 2a11e5ba7729dd5c3292056704185448d525dd21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:04 +0000
Subject: [PATCH 60/80] fix: PSBT parsing depended on how the data was split,
 on the number of sections and on the order of global fields

---
 src/PSBT.cpp | 170 +++++++++++++++++++++------------------------------
 src/PSBT.h   |   7 ++-
 2 files changed, 75 insertions(+), 102 deletions(-)

diff --git a/src/PSBT.cpp b/src/PSBT.cpp
index 0f50f72..1b2ccb6 100644
--- a/src/PSBT.cpp
+++ b/src/PSBT.cpp
@@ -91,10 +91,11 @@ size_t PSBT::from_stream(ParseStream *s){
     }
     if(status == PARSING_DONE){
         clear();
-        tx.reset();
         bytes_parsed = 0;
         current_section = 0;
-        last_key_pos = 5;
+        has_key = false;
+        key = Script();
+        value = Script();
     }
     status = PARSING_INCOMPLETE;
     size_t bytes_read = 0;
@@ -109,112 +110,49 @@ size_t PSBT::from_stream(ParseStream *s){
             return bytes_read;
         }
     }
-    // global scope
-    if(bytes_read+bytes_parsed == last_key_pos){
-        bytes_read += s->parse(&key);
-        bytes_read += s->parse(&value);
-    }
-    while(s->available() && key.getStatus() == PARSING_INCOMPLETE){
-        bytes_read += s->parse(&key);
-    }
-    if(key.getStatus() == PARSING_FAILED){
-        status = PARSING_FAILED;
-        ubtc_errno = UBTC_ERR_PSBT_KEY;
-        bytes_parsed += bytes_read;
-        return bytes_read;
-    }
-    while(s->available() && value.getStatus() == PARSING_INCOMPLETE){
-        bytes_read += s->parse(&value);
-    }
-    if(value.getStatus() == PARSING_FAILED){
-        status = PARSING_FAILED;
-        ubtc_errno = UBTC_ERR_PSBT_VALUE;
-        bytes_parsed += bytes_read;
-        return bytes_read;
-    }
-    if(last_key_pos == 5 && value.getStatus() == PARSING_DONE && key.getStatus() == PARSING_DONE){
-        uint8_t * arr = (uint8_t *)calloc(key.length(), sizeof(uint8_t));
-        if(arr == NULL){ status = PARSING_FAILED; return 0; }
-        key.serialize(arr, key.length());
-        if(key.length() != 2 || arr[0] != 1 || arr[1] != 0){
-            status = PARSING_FAILED;
-            ubtc_errno = UBTC_ERR_PSBT_SCOPE;
-        }
-        free(arr);
-        if(status == PARSING_FAILED){
-            bytes_parsed += bytes_read;
-            return bytes_read;
-        }
-        arr = (uint8_t *)calloc(value.length(), sizeof(uint8_t));
-        if(arr == NULL){ status = PARSING_FAILED; return 0; }
-        value.serialize(arr, value.length());
-        size_t l = lenVarInt(value.length());
-        tx.parse(arr+l, value.length()-l);
-        if(tx.getStatus() != PARSING_DONE){
-            status = PARSING_FAILED;
-            tx = Tx(); // there is no metadata for it
-        }
-        free(arr);
-        if(status == PARSING_FAILED){
-            bytes_parsed += bytes_read;
-            return bytes_read;
-        }
-        txInsMeta = new PSBTInputMetadata[tx.inputsNumber];
-        for(size_t i=0; i<tx.inputsNumber; i++){
-            txInsMeta[i].derivations = NULL;
-            txInsMeta[i].derivationsLen = 0;
-            txInsMeta[i].signatures = NULL;
-            txInsMeta[i].signaturesLen = 0;
-        }
-        txOutsMeta = new PSBTOutputMetadata[tx.outputsNumber];
-        for(size_t i=0; i<tx.outputsNumber; i++){
-            txOutsMeta[i].derivations = NULL;
-            txOutsMeta[i].derivationsLen = 0;
-        }
-        last_key_pos += key.length()+value.length();
-    }
-    uint8_t sections_number = 0;
-    if(last_key_pos > 5){ // tx is already parsed
-        sections_number = 1+tx.inputsNumber+tx.outputsNumber;
-    }
     // parsing keys and values
+    size_t sections_number = (txInsMeta == NULL) ? 1 : (1+tx.inputsNumber+tx.outputsNumber);
     while(s->available() && current_section < sections_number){
-        if(key.getStatus() == PARSING_DONE && value.getStatus() == PARSING_DONE){
+        if(!has_key){
             bytes_read += s->parse(&key);
-        }
-        if(key.getStatus() == PARSING_DONE){
-            if(key.length() == 1){ // delimiter
-                current_section ++;
-                last_key_pos += key.length();
-                continue;
-            }else{
-                bytes_read += s->parse(&value);
+            if(key.getStatus() == PARSING_INCOMPLETE){
+                break;
             }
-        }
-        if(key.getStatus() == PARSING_FAILED || value.getStatus() == PARSING_FAILED){
-            status = PARSING_FAILED;
-            ubtc_errno = (key.getStatus() == PARSING_FAILED) ? UBTC_ERR_PSBT_KEY : UBTC_ERR_PSBT_VALUE;
-            bytes_parsed += bytes_read;
-            return bytes_read;
-        }
-        if(key.getStatus() == PARSING_INCOMPLETE){
-            bytes_read += s->parse(&key);
-        }
-        if(value.getStatus() == PARSING_INCOMPLETE){
-            bytes_read += s->parse(&value);
-        }
-        if(key.getStatus() == PARSING_DONE && value.getStatus() == PARSING_DONE){
-            int res = add(current_section, &key, &value);
-            if(res < 0){
+            if(key.getStatus() == PARSING_DONE && key.length() == 1){ // delimiter
+                if(txInsMeta == NULL){ // transaction is missing
+                    key.setStatus(PARSING_FAILED);
+                }else{
+                    current_section ++;
+                    continue;
+                }
+            }
+            if(key.getStatus() == PARSING_FAILED){
                 status = PARSING_FAILED;
-                ubtc_errno = UBTC_ERR_PSBT_SCOPE;
+                ubtc_errno = UBTC_ERR_PSBT_KEY;
                 bytes_parsed += bytes_read;
                 return bytes_read;
             }
-            last_key_pos += key.length() + value.length();
+            has_key = true;
+            continue;
+        }
+        bytes_read += s->parse(&value);
+        if(value.getStatus() == PARSING_INCOMPLETE){
+            break;
         }
+        int res = -1;
+        if(value.getStatus() == PARSING_DONE){
+            res = (current_section == 0) ? addGlobal(&key, &value) : add(current_section, &key, &value);
+        }
+        if(res < 0){
+            status = PARSING_FAILED;
+            ubtc_errno = (value.getStatus() == PARSING_FAILED) ? UBTC_ERR_PSBT_VALUE : UBTC_ERR_PSBT_SCOPE;
+            bytes_parsed += bytes_read;
+            return bytes_read;
+        }
+        has_key = false;
+        sections_number = (txInsMeta == NULL) ? 1 : (1+tx.inputsNumber+tx.outputsNumber);
     }
-    if(current_section == sections_number && sections_number > 0){
+    if(current_section == sections_number){
         status = PARSING_DONE;
         key = Script();
         value = Script();
@@ -223,6 +161,40 @@ size_t PSBT::from_stream(ParseStream *s){
     return bytes_read;
 }
 
+int PSBT::addGlobal(const Script * k, const Script * v){
+    if(k->scriptLen != 1 || k->scriptArray[0] != 0){ // not PSBT_GLOBAL_UNSIGNED_TX
+        return (k->scriptLen > 0 && k->scriptArray[0] == 0) ? -1 : 0;
+    }
+    if(txInsMeta != NULL){ // second transaction
+        return -1;
+    }
+    Tx unsignedTx;
+    size_t len = unsignedTx.parse(v->scriptArray, v->scriptLen);
+    bool ok = (unsignedTx.getStatus() == PARSING_DONE && len == v->scriptLen && len > 0);
+    for(size_t i=0; ok && i<unsignedTx.inputsNumber; i++){ // should not be signed
+        if(unsignedTx.txIns[i].scriptSig.scriptLen > 0 || unsignedTx.txIns[i].isSegwit()){
+            ok = false;
+        }
+    }
+    if(!ok){
+        return -2;
+    }
+    tx = unsignedTx;
+    txInsMeta = new PSBTInputMetadata[tx.inputsNumber];
+    for(size_t i=0; i<tx.inputsNumber; i++){
+        txInsMeta[i].derivations = NULL;
+        txInsMeta[i].derivationsLen = 0;
+        txInsMeta[i].signatures = NULL;
+        txInsMeta[i].signaturesLen = 0;
+    }
+    txOutsMeta = new PSBTOutputMetadata[tx.outputsNumber];
+    for(size_t i=0; i<tx.outputsNumber; i++){
+        txOutsMeta[i].derivations = NULL;
+        txOutsMeta[i].derivationsLen = 0;
+    }
+    return 1;
+}
+
 int PSBT::add(uint8_t section, const Script * k, const Script * v){
     if(section == 0 || section > 1+tx.inputsNumber+tx.outputsNumber){
         return 0;
@@ -711,7 +683,7 @@ PSBT& PSBT::operator=(PSBT const &other){
     key = other.key;
     value = other.value;
     current_section = other.current_section;
-    last_key_pos = other.last_key_pos;
+    has_key = other.has_key;
     // metadata, doesn't exist until the transaction is parsed
     if(other.txInsMeta != NULL){
         txInsMeta = new PSBTInputMetadata[tx.inputsNumber];
diff --git a/src/PSBT.h b/src/PSBT.h
index 49ba5bc..ea56b70 100644
--- a/src/PSBT.h
+++ b/src/PSBT.h
@@ -72,12 +72,13 @@ protected:
     virtual size_t to_stream(SerializeStream *s, size_t offset = 0) const;
     Script key; // key for parsing
     Script value; // value for parsing
-    uint8_t current_section;
-    size_t last_key_pos;
+    size_t current_section;
+    bool has_key; // true if the key is parsed and we are waiting for the value
+    int addGlobal(const Script * k, const Script * v);
     void clear(); // frees all metadata and the transaction
 public:
     virtual size_t length() const;
-    PSBT(){ txInsMeta = NULL; txOutsMeta = NULL; status = PARSING_DONE; current_section = 0; last_key_pos = 0; };
+    PSBT(){ txInsMeta = NULL; txOutsMeta = NULL; status = PARSING_DONE; current_section = 0; has_key = false; };
     PSBT(PSBT const &other);
     ~PSBT();
     Tx tx;
-- 
2.43.0


From 1f146fab1bf485a549a3cdbbaf96cddd4c36d478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:53 +0000
Subject: [PATCH 61/80] fix: PSBT fields with wrong lengths, invalid keys,
 trailing data or contradicting previous outputs were accepted or read out of
 bounds

---
 src/PSBT.cpp | 174 +++++++++++++++++++++++++--------------------------
 src/PSBT.h   |   9 +--
 2 files changed, 91 insertions(+), 92 deletions(-)

diff --git a/src/PSBT.cpp b/src/PSBT.cpp
index 1b2ccb6..f319d22 100644
--- a/src/PSBT.cpp
+++ b/src/PSBT.cpp
@@ -195,21 +195,63 @@ int PSBT::addGlobal(const Script * k, const Script * v){
     return 1;
 }
 
-int PSBT::add(uint8_t section, const Script * k, const Script * v){
-    if(section == 0 || section > 1+tx.inputsNumber+tx.outputsNumber){
+// key is <code><pubkey>
+static bool parseKey(const Script * k, PublicKey * pubkey){
+    if(k->scriptLen != 34 && k->scriptLen != 66){
+        return false;
+    }
+    size_t len = pubkey->parse(k->scriptArray+1, k->scriptLen-1);
+    return (pubkey->getStatus() == PARSING_DONE && len == k->scriptLen-1 && pubkey->isValid());
+}
+
+// key is <code><pubkey>, value is <fingerprint><derivation>
+static bool parseDerivation(const Script * k, const Script * v, PSBTDerivation * der){
+    der->derivation = NULL;
+    der->derivationLen = 0;
+    if(!parseKey(k, &der->pubkey)){
+        return false;
+    }
+    if(v->scriptLen < 4 || v->scriptLen % 4 != 0 || v->scriptLen/4-1 > 255){
+        return false;
+    }
+    memcpy(der->fingerprint, v->scriptArray, 4);
+    uint8_t len = v->scriptLen/4-1;
+    if(len > 0){
+        der->derivation = (uint32_t *)calloc(len, sizeof(uint32_t));
+        if(der->derivation == NULL){
+            return false;
+        }
+    }
+    der->derivationLen = len;
+    for(size_t i=0; i<len; i++){
+        der->derivation[i] = littleEndianToInt(v->scriptArray+4*(i+1), 4);
+    }
+    return true;
+}
+
+int PSBT::setTxOut(size_t input, const TxOut txOut){
+    TxOut * known = &txInsMeta[input].txOut;
+    if(known->amount != 0 || known->scriptPubkey.scriptLen > 0){
+        // witness and non-witness utxo should be the same
+        if(known->amount != txOut.amount || known->scriptPubkey != txOut.scriptPubkey){
+            return -3;
+        }
+    }
+    *known = txOut;
+    return 1;
+}
+
+int PSBT::add(size_t section, const Script * k, const Script * v){
+    if(section == 0 || section >= 1+tx.inputsNumber+tx.outputsNumber || k->scriptLen == 0){
         return 0;
     }
-    uint8_t * key_arr = (uint8_t *)calloc(k->length(), sizeof(uint8_t));
-    if(key_arr == NULL){ return 0; }
-    k->serialize(key_arr, k->length());
-    uint8_t * val_arr = (uint8_t *)calloc(v->length(), sizeof(uint8_t));
-    if(val_arr == NULL){ free(key_arr); return 0; }
-    v->serialize(val_arr, v->length());
-    uint8_t key_code = key_arr[lenVarInt(k->length())];
+    const uint8_t * key_arr = k->scriptArray;
+    const uint8_t * val_arr = v->scriptArray;
+    uint8_t key_code = key_arr[0];
     int res = 0;
 
     if(section < 1+tx.inputsNumber){ // input section
-        uint8_t input = section-1;
+        size_t input = section-1;
         switch(key_code){
             case 0: { // PSBT_IN_NON_WITNESS_UTXO
                 // we need to verify that tx hashes to prevtx_hash
@@ -219,8 +261,8 @@ int PSBT::add(uint8_t section, const Script * k, const Script * v){
                     break;
                 }
                 Tx tempTx;
-                tempTx.parse(val_arr+lenVarInt(v->length()), v->length()-lenVarInt(v->length()));
-                if(tempTx.getStatus() != PARSING_DONE){
+                size_t len = tempTx.parse(val_arr, v->scriptLen);
+                if(tempTx.getStatus() != PARSING_DONE || len != v->scriptLen || len == 0){
                     res = -2;
                     break;
                 }
@@ -234,8 +276,7 @@ int PSBT::add(uint8_t section, const Script * k, const Script * v){
                     res = -3;
                     break;
                 }
-                txInsMeta[input].txOut = tempTx.txOuts[tx.txIns[input].outputIndex];
-                res = 1;
+                res = setTxOut(input, tempTx.txOuts[tx.txIns[input].outputIndex]);
                 break;
             }
             case 1: { // PSBT_IN_WITNESS_UTXO
@@ -243,27 +284,24 @@ int PSBT::add(uint8_t section, const Script * k, const Script * v){
                     res = -1;
                     break;
                 }
-                txInsMeta[input].txOut.parse(val_arr+lenVarInt(v->length()), v->length()-lenVarInt(v->length()));
-                if(txInsMeta[input].txOut.getStatus() != PARSING_DONE){
+                TxOut tempOut;
+                size_t len = tempOut.parse(val_arr, v->scriptLen);
+                if(tempOut.getStatus() != PARSING_DONE || len != v->scriptLen || len == 0){
                     res = -2;
                     break;
                 }
-                res = 1;
+                res = setTxOut(input, tempOut);
                 break;
             }
             case 2: { // PSBT_IN_PARTIAL_SIG
-                if(k->length() != 35 && k->length() != 67){
-                    res = -1;
-                    break;
-                }
                 PSBTPartialSignature psig;
-                psig.pubkey.parse(key_arr+2, k->length()-2);
-                if(psig.pubkey.getStatus() != PARSING_DONE){
+                if(!parseKey(k, &psig.pubkey)){
                     res = -1;
                     break;
                 }
-                psig.signature.parse(val_arr+1, v->length()-1);
-                if(psig.signature.getStatus() != PARSING_DONE){
+                // signature and one byte of sighash type
+                size_t len = psig.signature.parse(val_arr, v->scriptLen);
+                if(psig.signature.getStatus() != PARSING_DONE || len+1 != v->scriptLen){
                     res = -2;
                     break;
                 }
@@ -292,7 +330,7 @@ int PSBT::add(uint8_t section, const Script * k, const Script * v){
                     res = -1;
                     break;
                 }
-                txInsMeta[input].redeemScript.parse(val_arr, v->length());
+                txInsMeta[input].redeemScript = *v;
                 res = 1;
                 break;
             }
@@ -301,43 +339,24 @@ int PSBT::add(uint8_t section, const Script * k, const Script * v){
                     res = -1;
                     break;
                 }
-                txInsMeta[input].witnessScript.parse(val_arr, v->length());
+                txInsMeta[input].witnessScript = *v;
                 res = 1;
                 break;
             }
             case 6: { // PSBT_IN_BIP32_DERIVATION
-                // TODO: move to function
-                if(k->length() != 35 && k->length() != 67){
-                    res = -1;
-                    break;
-                }
-                if(txInsMeta[input].derivationsLen == 0){
-                    txInsMeta[input].derivationsLen = 1;
-                    txInsMeta[input].derivations = new PSBTDerivation[txInsMeta[input].derivationsLen];
-                }else{
-                    PSBTDerivation * p = txInsMeta[input].derivations;
-                    txInsMeta[input].derivations = new PSBTDerivation[txInsMeta[input].derivationsLen+1];
-                    for(size_t i=0; i<txInsMeta[input].derivationsLen; i++){
-                        txInsMeta[input].derivations[i] = p[i];
-                    }
-                    txInsMeta[input].derivationsLen++;
-                    delete [] p;
-                }
-                PSBTDerivation * der = &txInsMeta[input].derivations[txInsMeta[input].derivationsLen-1];
-                der->derivation = NULL;
-                der->derivationLen = 0;
-                der->pubkey.parse(key_arr+2, k->length()-2);
-                if(der->pubkey.getStatus() != PARSING_DONE){
+                PSBTDerivation der;
+                if(!parseDerivation(k, v, &der)){
                     res = -1;
                     break;
                 }
-                memcpy(der->fingerprint, val_arr+lenVarInt(v->length()), 4);
-                der->derivationLen = (v->length()-lenVarInt(v->length())-4)/sizeof(uint32_t);
-                der->derivation = (uint32_t *)calloc(der->derivationLen, sizeof(uint32_t));
-                if(der->derivation == NULL){ der->derivationLen = 0; res = -1; break; }
-                for(size_t i=0; i<der->derivationLen; i++){
-                    der->derivation[i] = littleEndianToInt(val_arr+lenVarInt(v->length())+4*(i+1),4);
+                PSBTDerivation * p = txInsMeta[input].derivations;
+                txInsMeta[input].derivations = new PSBTDerivation[txInsMeta[input].derivationsLen+1];
+                for(size_t i=0; i<txInsMeta[input].derivationsLen; i++){
+                    txInsMeta[input].derivations[i] = p[i];
                 }
+                delete [] p;
+                txInsMeta[input].derivations[txInsMeta[input].derivationsLen] = der;
+                txInsMeta[input].derivationsLen++;
                 res = 1;
                 break;
             }
@@ -351,14 +370,14 @@ int PSBT::add(uint8_t section, const Script * k, const Script * v){
             }
         }
     }else{ // output section
-        uint8_t output = section-1-tx.inputsNumber;
+        size_t output = section-1-tx.inputsNumber;
         switch(key_code){
             case 0: { // PSBT_OUT_REDEEM_SCRIPT
                 if(k->length() != 2){
                     res = -1;
                     break;
                 }
-                txOutsMeta[output].redeemScript.parse(val_arr, v->length());
+                txOutsMeta[output].redeemScript = *v;
                 res = 1;
                 break;
             }
@@ -367,50 +386,29 @@ int PSBT::add(uint8_t section, const Script * k, const Script * v){
                     res = -1;
                     break;
                 }
-                txOutsMeta[output].witnessScript.parse(val_arr, v->length());
+                txOutsMeta[output].witnessScript = *v;
                 res = 1;
                 break;
             }
             case 2: { // PSBT_OUT_BIP32_DERIVATION
-                // TODO: move to function
-                if(k->length() != 35 && k->length() != 67){
-                    res = -1;
-                    break;
-                }
-                if(txOutsMeta[output].derivationsLen == 0){
-                    txOutsMeta[output].derivationsLen = 1;
-                    txOutsMeta[output].derivations = new PSBTDerivation[txOutsMeta[output].derivationsLen];
-                }else{
-                    PSBTDerivation * p = txOutsMeta[output].derivations;
-                    txOutsMeta[output].derivations = new PSBTDerivation[txOutsMeta[output].derivationsLen+1];
-                    for(int i=0; i<txOutsMeta[output].derivationsLen; i++){
-                        txOutsMeta[output].derivations[i] = p[i];
-                    }
-                    txOutsMeta[output].derivationsLen++;
-                    delete [] p;
-                }
-                PSBTDerivation * der = &txOutsMeta[output].derivations[txOutsMeta[output].derivationsLen-1];
-                der->derivation = NULL;
-                der->derivationLen = 0;
-                der->pubkey.parse(key_arr+2, k->length()-2);
-                if(der->pubkey.getStatus() != PARSING_DONE){
+                PSBTDerivation der;
+                if(!parseDerivation(k, v, &der)){
                     res = -1;
                     break;
                 }
-                memcpy(der->fingerprint, val_arr+lenVarInt(v->length()), 4);
-                der->derivationLen = (v->length()-lenVarInt(v->length())-4)/sizeof(uint32_t);
-                der->derivation = (uint32_t *)calloc(der->derivationLen, sizeof(uint32_t));
-                if(der->derivation == NULL){ der->derivationLen = 0; res = -1; break; }
-                for(size_t i=0; i<der->derivationLen; i++){
-                    der->derivation[i] = littleEndianToInt(val_arr+lenVarInt(v->length())+4*(i+1),4);
+                PSBTDerivation * p = txOutsMeta[output].derivations;
+                txOutsMeta[output].derivations = new PSBTDerivation[txOutsMeta[output].derivationsLen+1];
+                for(size_t i=0; i<txOutsMeta[output].derivationsLen; i++){
+                    txOutsMeta[output].derivations[i] = p[i];
                 }
+                delete [] p;
+                txOutsMeta[output].derivations[txOutsMeta[output].derivationsLen] = der;
+                txOutsMeta[output].derivationsLen++;
                 res = 1;
                 break;
             }
         }
     }
-    free(key_arr);
-    free(val_arr);
     return res; // by default - ignore the key-value pair
 }
 
diff --git a/src/PSBT.h b/src/PSBT.h
index ea56b70..07deb36 100644
--- a/src/PSBT.h
+++ b/src/PSBT.h
@@ -34,14 +34,14 @@ typedef struct{
      *         Can be more than one in case of multisig.
      */
     PSBTDerivation * derivations;
-    uint8_t derivationsLen;
+    size_t derivationsLen;
     /** \brief Redeem script for P2SH */
     Script redeemScript;
     /** \brief Witness script for P2WSH */
     Script witnessScript;
     /** \brief Signatures we will generate. In most cases will be just one. */
     PSBTPartialSignature * signatures;
-    uint8_t signaturesLen;
+    size_t signaturesLen;
 } PSBTInputMetadata;
 
 /** \brief Data required to confirm ownership of the output */
@@ -50,7 +50,7 @@ typedef struct{
      *         Can be more than one in case of multisig.
      */
     PSBTDerivation * derivations;
-    uint8_t derivationsLen;
+    size_t derivationsLen;
     /** \brief Redeem script for P2SH */
     Script redeemScript;
     /** \brief Witness script for P2WSH */
@@ -75,6 +75,7 @@ protected:
     size_t current_section;
     bool has_key; // true if the key is parsed and we are waiting for the value
     int addGlobal(const Script * k, const Script * v);
+    int setTxOut(size_t input, const TxOut txOut);
     void clear(); // frees all metadata and the transaction
 public:
     virtual size_t length() const;
@@ -86,7 +87,7 @@ public:
     PSBTOutputMetadata * txOutsMeta;
 
     /** \brief adds key-value pair to section */
-    int add(uint8_t section, const Script * k, const Script * v);
+    int add(size_t section, const Script * k, const Script * v);
     /** \brief Signes everything it can with keys derived from root HD private key */
     uint8_t sign(const HDPrivateKey root);
     /** \brief parses psbt transaction from base64 encoded string */
-- 
2.43.0


From 328a8e9ec118bb30bf71e432bbefd7a1edf567d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:54 +0000
Subject: [PATCH 62/80] fix: PSBT with duplicated keys was accepted

---
 src/PSBT.cpp | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/PSBT.cpp b/src/PSBT.cpp
index f319d22..3ad43e0 100644
--- a/src/PSBT.cpp
+++ b/src/PSBT.cpp
@@ -204,6 +204,16 @@ static bool parseKey(const Script * k, PublicKey * pubkey){
     return (pubkey->getStatus() == PARSING_DONE && len == k->scriptLen-1 && pubkey->isValid());
 }
 
+// checks if there is already a record for this key
+template <typename T> static bool hasKey(const T * records, size_t len, const PublicKey &pubkey){
+    for(size_t i=0; i<len; i++){
+        if(records[i].pubkey == pubkey && records[i].pubkey.compressed == pubkey.compressed){
+            return true;
+        }
+    }
+    return false;
+}
+
 // key is <code><pubkey>, value is <fingerprint><derivation>
 static bool parseDerivation(const Script * k, const Script * v, PSBTDerivation * der){
     der->derivation = NULL;
@@ -295,7 +305,7 @@ int PSBT::add(size_t section, const Script * k, const Script * v){
             }
             case 2: { // PSBT_IN_PARTIAL_SIG
                 PSBTPartialSignature psig;
-                if(!parseKey(k, &psig.pubkey)){
+                if(!parseKey(k, &psig.pubkey) || hasKey(txInsMeta[input].signatures, txInsMeta[input].signaturesLen, psig.pubkey)){
                     res = -1;
                     break;
                 }
@@ -326,7 +336,7 @@ int PSBT::add(size_t section, const Script * k, const Script * v){
                 break;
             }
             case 4: { // PSBT_IN_REDEEM_SCRIPT
-                if(k->length() != 2){
+                if(k->length() != 2 || txInsMeta[input].redeemScript.scriptLen > 0){
                     res = -1;
                     break;
                 }
@@ -335,7 +345,7 @@ int PSBT::add(size_t section, const Script * k, const Script * v){
                 break;
             }
             case 5: { // PSBT_IN_WITNESS_SCRIPT
-                if(k->length() != 2){
+                if(k->length() != 2 || txInsMeta[input].witnessScript.scriptLen > 0){
                     res = -1;
                     break;
                 }
@@ -345,7 +355,8 @@ int PSBT::add(size_t section, const Script * k, const Script * v){
             }
             case 6: { // PSBT_IN_BIP32_DERIVATION
                 PSBTDerivation der;
-                if(!parseDerivation(k, v, &der)){
+                if(!parseDerivation(k, v, &der) || hasKey(txInsMeta[input].derivations, txInsMeta[input].derivationsLen, der.pubkey)){
+                    free(der.derivation);
                     res = -1;
                     break;
                 }
@@ -373,7 +384,7 @@ int PSBT::add(size_t section, const Script * k, const Script * v){
         size_t output = section-1-tx.inputsNumber;
         switch(key_code){
             case 0: { // PSBT_OUT_REDEEM_SCRIPT
-                if(k->length() != 2){
+                if(k->length() != 2 || txOutsMeta[output].redeemScript.scriptLen > 0){
                     res = -1;
                     break;
                 }
@@ -382,7 +393,7 @@ int PSBT::add(size_t section, const Script * k, const Script * v){
                 break;
             }
             case 1: { // PSBT_OUT_WITNESS_SCRIPT
-                if(k->length() != 2){
+                if(k->length() != 2 || txOutsMeta[output].witnessScript.scriptLen > 0){
                     res = -1;
                     break;
                 }
@@ -392,7 +403,8 @@ int PSBT::add(size_t section, const Script * k, const Script * v){
             }
             case 2: { // PSBT_OUT_BIP32_DERIVATION
                 PSBTDerivation der;
-                if(!parseDerivation(k, v, &der)){
+                if(!parseDerivation(k, v, &der) || hasKey(txOutsMeta[output].derivations, txOutsMeta[output].derivationsLen, der.pubkey)){
+                    free(der.derivation);
                     res = -1;
                     break;
                 }
-- 
2.43.0


From 9570e081afc481eee7108c1b6e68df5521ea2505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:54 +0000
Subject: [PATCH 63/80] fix: PSBT serialization replaced sighash type of the
 signatures

---
 src/PSBT.cpp | 3 ++-
 src/PSBT.h   | 2 ++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/PSBT.cpp b/src/PSBT.cpp
index 3ad43e0..87e9e29 100644
--- a/src/PSBT.cpp
+++ b/src/PSBT.cpp
@@ -315,6 +315,7 @@ int PSBT::add(size_t section, const Script * k, const Script * v){
                     res = -2;
                     break;
                 }
+                psig.sighash = val_arr[len];
                 if(txInsMeta[input].signaturesLen == 0){
                     txInsMeta[input].signaturesLen = 1;
                     txInsMeta[input].signatures = new PSBTPartialSignature[txInsMeta[input].signaturesLen];
@@ -462,7 +463,7 @@ size_t PSBT::to_stream(SerializeStream *s, size_t offset) const{
                 uint8_t val_arr[100];
                 uint8_t val_len = 1+txInsMeta[input].signatures[i].signature.serialize(val_arr+1, 98);
                 val_arr[0] = val_len;
-                val_arr[val_len] = SIGHASH_ALL;
+                val_arr[val_len] = txInsMeta[input].signatures[i].sighash;
                 while(s->available() && bytes_written+offset-cur < (size_t)val_len+1){
                     s->write(val_arr[bytes_written+offset-cur]);
                     bytes_written++;
diff --git a/src/PSBT.h b/src/PSBT.h
index 07deb36..ca787ef 100644
--- a/src/PSBT.h
+++ b/src/PSBT.h
@@ -24,6 +24,8 @@ typedef struct{
     PublicKey pubkey;
     /** \brief Signature we generated */
     Signature signature;
+    /** \brief Sighash type of the signature */
+    uint8_t sighash;
 } PSBTPartialSignature;
 
 /** \brief Data required for input signing */
-- 
2.43.0


From b551bde803dd495ff36841ad524b2c1d1bb346ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:54 +0000
Subject: [PATCH 64/80] fix: PSBT serialization with offset repeated delimiters

---
 src/PSBT.cpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/PSBT.cpp b/src/PSBT.cpp
index 87e9e29..c376384 100644
--- a/src/PSBT.cpp
+++ b/src/PSBT.cpp
@@ -445,17 +445,17 @@ size_t PSBT::to_stream(SerializeStream *s, size_t offset) const{
         bytes_written += s->serialize(&tx, offset+bytes_written-cur);
     }
     cur+=tx.length();
-    uint8_t sections_number = 1 + tx.inputsNumber + tx.outputsNumber;
-    uint8_t section = 0;
+    size_t sections_number = 1 + tx.inputsNumber + tx.outputsNumber;
+    size_t section = 0;
     while(s->available() && section < sections_number){
         if(section > 0 && section < tx.inputsNumber+1){
-            uint8_t input = section-1;
+            size_t input = section-1;
             for(size_t i=0; i<txInsMeta[input].signaturesLen; i++){
                 uint8_t key_arr[67];
                 key_arr[1] = 0x02; // PSBT_IN_PARTIAL_SIG
                 uint8_t key_len = 1+txInsMeta[input].signatures[i].pubkey.serialize(key_arr+2, 65);
                 key_arr[0] = key_len;
-                while(s->available() && bytes_written+offset-cur < (size_t)key_len+1){
+                while(s->available() && bytes_written+offset < cur+key_len+1){
                     s->write(key_arr[bytes_written+offset-cur]);
                     bytes_written++;
                 }
@@ -464,15 +464,17 @@ size_t PSBT::to_stream(SerializeStream *s, size_t offset) const{
                 uint8_t val_len = 1+txInsMeta[input].signatures[i].signature.serialize(val_arr+1, 98);
                 val_arr[0] = val_len;
                 val_arr[val_len] = txInsMeta[input].signatures[i].sighash;
-                while(s->available() && bytes_written+offset-cur < (size_t)val_len+1){
+                while(s->available() && bytes_written+offset < cur+val_len+1){
                     s->write(val_arr[bytes_written+offset-cur]);
                     bytes_written++;
                 }
                 cur += val_len+1;
             }
         }
-        s->write(0);
-        bytes_written++;
+        if(s->available() && bytes_written+offset == cur){
+            s->write(0);
+            bytes_written++;
+        }
         section++;
         cur++;
     }
@@ -480,7 +482,7 @@ size_t PSBT::to_stream(SerializeStream *s, size_t offset) const{
 }
 
 size_t PSBT::length() const{
-    uint8_t sections_number = 1 + tx.inputsNumber + tx.outputsNumber;
+    size_t sections_number = 1 + tx.inputsNumber + tx.outputsNumber;
     size_t len = 7 + lenVarInt(tx.length()) + tx.length() + sections_number;
     for(size_t input=0; input<tx.inputsNumber; input++){
         for(size_t i=0; i<txInsMeta[input].signaturesLen; i++){
-- 
2.43.0


From 5463d04dfee331c2827904982f97c82981a00d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:29 +0000
Subject: [PATCH 65/80] fix: PSBT signing used scripts and amounts that do not
 belong to the previous output, duplicated signatures and read past short
 paths

---
 src/PSBT.cpp | 111 ++++++++++++++++++++++++++++-----------------------
 src/PSBT.h   |   4 +-
 2 files changed, 63 insertions(+), 52 deletions(-)

diff --git a/src/PSBT.cpp b/src/PSBT.cpp
index c376384..b93ee5f 100644
--- a/src/PSBT.cpp
+++ b/src/PSBT.cpp
@@ -316,19 +316,7 @@ int PSBT::add(size_t section, const Script * k, const Script * v){
                     break;
                 }
                 psig.sighash = val_arr[len];
-                if(txInsMeta[input].signaturesLen == 0){
-                    txInsMeta[input].signaturesLen = 1;
-                    txInsMeta[input].signatures = new PSBTPartialSignature[txInsMeta[input].signaturesLen];
-                }else{
-                    PSBTPartialSignature * p = txInsMeta[input].signatures;
-                    txInsMeta[input].signatures = new PSBTPartialSignature[txInsMeta[input].signaturesLen+1];
-                    for(size_t i=0; i<txInsMeta[input].signaturesLen; i++){
-                        txInsMeta[input].signatures[i] = p[i];
-                    }
-                    txInsMeta[input].signaturesLen++;
-                    delete [] p;
-                }
-                txInsMeta[input].signatures[txInsMeta[input].signaturesLen-1] = psig;
+                addSignature(input, psig);
                 res = 1;
                 break;
             }
@@ -548,10 +536,57 @@ void PSBT::clear(){
     tx = Tx();
 }
 
-uint8_t PSBT::sign(const HDPrivateKey root){
+void PSBT::addSignature(size_t input, const PSBTPartialSignature &psig){
+    PSBTInputMetadata * meta = &txInsMeta[input];
+    for(size_t i=0; i<meta->signaturesLen; i++){ // there can be only one signature for the key
+        if(meta->signatures[i].pubkey == psig.pubkey && meta->signatures[i].pubkey.compressed == psig.pubkey.compressed){
+            meta->signatures[i] = psig;
+            return;
+        }
+    }
+    PSBTPartialSignature * p = meta->signatures;
+    meta->signatures = new PSBTPartialSignature[meta->signaturesLen+1];
+    for(size_t i=0; i<meta->signaturesLen; i++){
+        meta->signatures[i] = p[i];
+    }
+    delete [] p;
+    meta->signatures[meta->signaturesLen] = psig;
+    meta->signaturesLen++;
+}
+
+// calculates the hash to sign, returns false if scripts don't correspond to the previous output
+bool PSBT::inputSigHash(size_t input, const PublicKey &pubkey, uint8_t h[32]) const{
+    const PSBTInputMetadata * meta = &txInsMeta[input];
+    Script script = meta->txOut.scriptPubkey;
+    if(script.type() == P2SH){
+        if(meta->redeemScript.scriptPubkey(P2SH) != script){
+            return false;
+        }
+        script = meta->redeemScript;
+    }
+    if(script.scriptLen == 0){ // previous output is not known
+        return false;
+    }
+    ScriptType type = script.type();
+    if(type == P2WPKH){ // P2WPKH / P2SH_P2WPKH
+        return (script == pubkey.script(P2WPKH)) && (tx.sigHashSegwit(h, input, pubkey.script(), meta->txOut.amount) > 0);
+    }
+    if(type == P2WSH){ // P2WSH / P2SH_P2WSH
+        return (script == meta->witnessScript.scriptPubkey(P2WSH)) && (tx.sigHashSegwit(h, input, meta->witnessScript, meta->txOut.amount) > 0);
+    }
+    // other witness programs
+    if(script.scriptLen >= 4 && script.scriptLen <= 42 && script.scriptArray[1] == script.scriptLen-2 &&
+            (script.scriptArray[0] == 0 || (script.scriptArray[0] >= 0x51 && script.scriptArray[0] <= 0x60))){
+        return false;
+    }
+    // P2SH / P2PKH / DIRECT_SCRIPT
+    return (tx.sigHash(h, input, script) > 0);
+}
+
+size_t PSBT::sign(const HDPrivateKey root){
     uint8_t fingerprint[4];
     root.fingerprint(fingerprint);
-    uint8_t counter = 0;
+    size_t counter = 0;
     // in most cases only one account key is required, so we can cache it
     uint32_t * first_derivation = NULL;
     uint8_t first_derivation_len = 0;
@@ -575,7 +610,8 @@ uint8_t PSBT::sign(const HDPrivateKey root){
                     }
                     PrivateKey pk;
                     // checking if cached key is ok
-                    if(memcmp(first_derivation, txInsMeta[i].derivations[j].derivation, first_derivation_len*sizeof(uint32_t))==0){
+                    if(txInsMeta[i].derivations[j].derivationLen >= first_derivation_len &&
+                            (first_derivation_len == 0 || memcmp(first_derivation, txInsMeta[i].derivations[j].derivation, first_derivation_len*sizeof(uint32_t))==0)){
                         pk = account.derive(txInsMeta[i].derivations[j].derivation+first_derivation_len, txInsMeta[i].derivations[j].derivationLen - first_derivation_len);
                     }else{
                         pk = root.derive(txInsMeta[i].derivations[j].derivation, txInsMeta[i].derivations[j].derivationLen);
@@ -583,42 +619,15 @@ uint8_t PSBT::sign(const HDPrivateKey root){
                     if(txInsMeta[i].derivations[j].pubkey == pk.publicKey()){
                         // can sign - let's sign
                         uint8_t h[32];
-                        if(txInsMeta[i].witnessScript.length() > 1){ // P2WSH / P2SH_P2WSH
-                            tx.sigHashSegwit(h, i, txInsMeta[i].witnessScript, txInsMeta[i].txOut.amount);
-                        }else{
-                            if(txInsMeta[i].redeemScript.length() > 1){
-                                if(txInsMeta[i].redeemScript.type() == P2WPKH){ // P2SH_P2WPKH
-                                    // tx.sigHashSegwit(h, i, txInsMeta[i].redeemScript, txInsMeta[i].txOut.amount);
-                                    tx.sigHashSegwit(h, i, pk.publicKey().script(), txInsMeta[i].txOut.amount);
-                                }else{ // P2SH
-                                    tx.sigHash(h, i, txInsMeta[i].redeemScript);
-                                }
-                            }else{ // P2WPKH / P2PKH / DIRECT_SCRIPT
-                                if(txInsMeta[i].txOut.scriptPubkey.type() == P2WPKH){
-                                    // tx.sigHashSegwit(h, i, txInsMeta[i].txOut.scriptPubkey, txInsMeta[i].txOut.amount);
-                                    tx.sigHashSegwit(h, i, pk.publicKey().script(), txInsMeta[i].txOut.amount);
-                                }else{ // P2PKH / DIRECT_SCRIPT
-                                    tx.sigHash(h, i, txInsMeta[i].txOut.scriptPubkey);
-                                }
-                            }
+                        const PublicKey pubkey = txInsMeta[i].derivations[j].pubkey;
+                        if(!inputSigHash(i, pubkey, h)){
+                            continue;
                         }
-                        Signature sig = pk.sign(h);
-
-                        // adding partial signature to the PSBT
-                        uint8_t arr[67];
-                        arr[1] = 0x02; // PSBT_IN_PARTIAL_SIG
-                        uint8_t len = 1 + pk.publicKey().serialize(arr+2, 65);
-                        arr[0] = len;
-                        Script k;
-                        k.parse(arr, len+1);
-
-                        uint8_t varr[100];
-                        len = 1+sig.serialize(varr+1, 99);
-                        varr[0] = len;
-                        varr[len] = SIGHASH_ALL;
-                        Script val;
-                        val.parse(varr, len+1);
-                        add(i+1, &k, &val);
+                        PSBTPartialSignature psig;
+                        psig.pubkey = pubkey;
+                        psig.signature = pk.sign(h);
+                        psig.sighash = SIGHASH_ALL;
+                        addSignature(i, psig);
                         counter++; // can sign
                     }
                 }
diff --git a/src/PSBT.h b/src/PSBT.h
index ca787ef..ef32244 100644
--- a/src/PSBT.h
+++ b/src/PSBT.h
@@ -78,6 +78,8 @@ protected:
     bool has_key; // true if the key is parsed and we are waiting for the value
     int addGlobal(const Script * k, const Script * v);
     int setTxOut(size_t input, const TxOut txOut);
+    void addSignature(size_t input, const PSBTPartialSignature &psig);
+    bool inputSigHash(size_t input, const PublicKey &pubkey, uint8_t h[32]) const;
     void clear(); // frees all metadata and the transaction
 public:
     virtual size_t length() const;
@@ -91,7 +93,7 @@ public:
     /** \brief adds key-value pair to section */
     int add(size_t section, const Script * k, const Script * v);
     /** \brief Signes everything it can with keys derived from root HD private key */
-    uint8_t sign(const HDPrivateKey root);
+    size_t sign(const HDPrivateKey root);
     /** \brief parses psbt transaction from base64 encoded string */
 #if USE_ARDUINO_STRING
     size_t parseBase64(String b64);
-- 
2.43.0


From 0a5fa58e72a320502e1725cb72b637df4a4e2391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:29 +0000
Subject: [PATCH 66/80] fix: PSBT fee was wrong for overflowing amounts and
 inputs of zero value

---
 src/PSBT.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/PSBT.cpp b/src/PSBT.cpp
index b93ee5f..c83f08d 100644
--- a/src/PSBT.cpp
+++ b/src/PSBT.cpp
@@ -653,13 +653,19 @@ uint64_t PSBT::fee() const{
     uint64_t input_amount = 0;
     uint64_t output_amount = 0;
     for(size_t i=0; i<tx.inputsNumber; i++){
-        if(txInsMeta[i].txOut.amount == 0){
+        if(txInsMeta[i].txOut.amount == 0 && txInsMeta[i].txOut.scriptPubkey.scriptLen == 0){ // not known
             return 0;
         }
         input_amount += txInsMeta[i].txOut.amount;
+        if(input_amount < txInsMeta[i].txOut.amount){ // overflow
+            return 0;
+        }
     }
     for(size_t i=0; i<tx.outputsNumber; i++){
         output_amount += tx.txOuts[i].amount;
+        if(output_amount < tx.txOuts[i].amount){ // overflow
+            return 0;
+        }
     }
     if(output_amount > input_amount){
         return 0;
-- 
2.43.0


From b73c155e331eeb9545160dbf149f33d67e78bebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:29 +0000
Subject: [PATCH 67/80] fix: PSBT outputs were reported as mine without looking
 at their script

---
 src/PSBT.cpp | 42 ++++++++++++++++++++++++++++++++++++++----
 src/PSBT.h   |  1 +
 2 files changed, 39 insertions(+), 4 deletions(-)

diff --git a/src/PSBT.cpp b/src/PSBT.cpp
index c83f08d..0253f28 100644
--- a/src/PSBT.cpp
+++ b/src/PSBT.cpp
@@ -673,31 +673,65 @@ uint64_t PSBT::fee() const{
     return input_amount-output_amount;
 }
 
+// checks if the output script is controlled by the key from its derivations
+bool PSBT::paysTo(size_t output, const PublicKey &pubkey) const{
+    Script script = tx.txOuts[output].scriptPubkey;
+    if(script == pubkey.script(P2PKH) || script == pubkey.script(P2WPKH) || script == pubkey.script(P2SH_P2WPKH)){
+        return true;
+    }
+    // scripts
+    if(script.type() == P2SH){
+        if(txOutsMeta[output].redeemScript.scriptPubkey(P2SH) != script){
+            return false;
+        }
+        script = txOutsMeta[output].redeemScript;
+    }
+    if(script.type() == P2WSH){
+        if(txOutsMeta[output].witnessScript.scriptPubkey(P2WSH) != script){
+            return false;
+        }
+        script = txOutsMeta[output].witnessScript;
+    }
+    // key should be in the script
+    Script k;
+    k.push(pubkey);
+    for(size_t i=0; k.scriptLen > 0 && i+k.scriptLen <= script.scriptLen; i++){
+        if(memcmp(script.scriptArray+i, k.scriptArray, k.scriptLen) == 0){
+            return true;
+        }
+    }
+    return false;
+}
+
 bool PSBT::isMine(uint8_t outputNumber, const HDPublicKey xpub) const{
+    if(outputNumber >= tx.outputsNumber || txOutsMeta == NULL){
+        return false;
+    }
     bool mine = false;
     if(txOutsMeta[outputNumber].derivationsLen > 0){
         for(unsigned int j=0; j<txOutsMeta[outputNumber].derivationsLen; j++){
             HDPublicKey pub = xpub.derive(txOutsMeta[outputNumber].derivations[j].derivation, txOutsMeta[outputNumber].derivations[j].derivationLen);
-            if(memcmp(pub.point, txOutsMeta[outputNumber].derivations[j].pubkey.point, 64)==0){
+            if(memcmp(pub.point, txOutsMeta[outputNumber].derivations[j].pubkey.point, 64)==0 && paysTo(outputNumber, txOutsMeta[outputNumber].derivations[j].pubkey)){
                 mine = true;
             }
         }
     }
-    // TODO: add verification of the script
     return mine;
 }
 
 bool PSBT::isMine(uint8_t outputNumber, const HDPrivateKey xprv) const{
+    if(outputNumber >= tx.outputsNumber || txOutsMeta == NULL){
+        return false;
+    }
     bool mine = false;
     if(txOutsMeta[outputNumber].derivationsLen > 0){
         for(unsigned int j=0; j<txOutsMeta[outputNumber].derivationsLen; j++){
             HDPublicKey pub = xprv.derive(txOutsMeta[outputNumber].derivations[j].derivation, txOutsMeta[outputNumber].derivations[j].derivationLen).xpub();
-            if(memcmp(pub.point, txOutsMeta[outputNumber].derivations[j].pubkey.point, 64)==0){
+            if(memcmp(pub.point, txOutsMeta[outputNumber].derivations[j].pubkey.point, 64)==0 && paysTo(outputNumber, txOutsMeta[outputNumber].derivations[j].pubkey)){
                 mine = true;
             }
         }
     }
-    // TODO: add verification of the script
     return mine;
 }
 
diff --git a/src/PSBT.h b/src/PSBT.h
index ef32244..a84ecc7 100644
--- a/src/PSBT.h
+++ b/src/PSBT.h
@@ -79,6 +79,7 @@ protected:
     int addGlobal(const Script * k, const Script * v);
     int setTxOut(size_t input, const TxOut txOut);
     void addSignature(size_t input, const PSBTPartialSignature &psig);
+    bool paysTo(size_t output, const PublicKey &pubkey) const;
     bool inputSigHash(size_t input, const PublicKey &pubkey, uint8_t h[32]) const;
     void clear(); // frees all metadata and the transaction
 public:
-- 
2.43.0


From 71d7a30e4757ee6c0da8d386fe1694ccb0dea484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:02:44 +0000
Subject: [PATCH 68/80] fix: copies of Electrum transactions that are being
 parsed

---
 src/Electrum.cpp | 28 +++++++++++-----------------
 1 file changed, 11 insertions(+), 17 deletions(-)

diff --git a/src/Electrum.cpp b/src/Electrum.cpp
index 13bdd26..baa2cde 100644
--- a/src/Electrum.cpp
+++ b/src/Electrum.cpp
@@ -1,24 +1,20 @@
 #include "Electrum.h"
 
 ElectrumTx::ElectrumTx(ElectrumTx const &other){
-    tx = other.tx;
-    is_segwit = false;
-    txInsMeta = new ElectrumInputMetadata[tx.inputsNumber];
-    for(unsigned int i=0; i<tx.inputsNumber; i++){
-        txInsMeta[i] = other.txInsMeta[i];
-    }
-    status = other.status;
-    bytes_parsed = other.bytes_parsed;
+    txInsMeta = NULL;
+    *this = other;
 }
 ElectrumTx& ElectrumTx::operator=(ElectrumTx const &other){
     if (this == &other){ return *this; } // self-assignment
-    if(tx.inputsNumber > 0){
-        delete [] txInsMeta;
-    }
+    delete [] txInsMeta;
+    txInsMeta = NULL;
     tx = other.tx;
-    txInsMeta = new ElectrumInputMetadata[tx.inputsNumber];
-    for(unsigned int i=0; i<tx.inputsNumber; i++){
-        txInsMeta[i] = other.txInsMeta[i];
+    is_segwit = other.is_segwit;
+    if(other.txInsMeta != NULL){ // doesn't exist until the transaction is parsed
+        txInsMeta = new ElectrumInputMetadata[tx.inputsNumber];
+        for(unsigned int i=0; i<tx.inputsNumber; i++){
+            txInsMeta[i] = other.txInsMeta[i];
+        }
     }
     status = other.status;
     bytes_parsed = other.bytes_parsed;
@@ -30,9 +26,7 @@ size_t ElectrumTx::from_stream(ParseStream *s){
         return 0;
     }
     if(status == PARSING_DONE){
-        if(tx.inputsNumber > 0){
-            delete [] txInsMeta;
-        }
+        delete [] txInsMeta;
         txInsMeta = NULL;
         tx = Tx();
         bytes_parsed = 0;
-- 
2.43.0


From 14f0a1c26bee9e76c49ae185d08986e8c6ebbd92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:02:44 +0000
Subject: [PATCH 69/80] fix: amount of legacy Electrum inputs was not
 initialised

---
 src/Electrum.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Electrum.cpp b/src/Electrum.cpp
index baa2cde..f1671cc 100644
--- a/src/Electrum.cpp
+++ b/src/Electrum.cpp
@@ -51,6 +51,7 @@ size_t ElectrumTx::from_stream(ParseStream *s){
             is_segwit = false;
             txInsMeta = new ElectrumInputMetadata[tx.inputsNumber];
             for(unsigned i=0; i<tx.inputsNumber; i++){
+                txInsMeta[i].amount = 0; // not known
                 if(tx.txIns[i].scriptSig.length() != 88){ // no idea how to parse other things
                     status = PARSING_FAILED;
                     bytes_parsed+=bytes_read;
-- 
2.43.0


From c9d6f52d5e0d4c6df8bfa4c0a111bcc88ed5f958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:02:44 +0000
Subject: [PATCH 70/80] fix: invalid key in Electrum transaction caused
 infinite loop

---
 src/Electrum.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/Electrum.cpp b/src/Electrum.cpp
index f1671cc..3b34987 100644
--- a/src/Electrum.cpp
+++ b/src/Electrum.cpp
@@ -111,9 +111,14 @@ size_t ElectrumTx::from_stream(ParseStream *s){
                 bytes_read++;
             }
             start += 7;
-            while(s->available() && bytes_parsed+bytes_read < start + 78){
+            if(s->available() && bytes_parsed+bytes_read < start + 78){
                 bytes_read+=s->parse(&txInsMeta[i].hd);
             }
+            if(txInsMeta[i].hd.getStatus() == PARSING_FAILED){
+                status = PARSING_FAILED;
+                bytes_parsed += bytes_read;
+                return bytes_read;
+            }
             start += 78;
             while(s->available() && bytes_parsed+bytes_read < start + 4){
                 uint8_t c = s->read();
-- 
2.43.0


From 490f4962d2d8a758a0a38e1a8670fe645aa5a695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:02:44 +0000
Subject: [PATCH 71/80] fix: broken or signed witnesses in Electrum
 transactions were read as unsigned inputs

---
 src/Electrum.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/Electrum.cpp b/src/Electrum.cpp
index 3b34987..47b1a00 100644
--- a/src/Electrum.cpp
+++ b/src/Electrum.cpp
@@ -79,6 +79,11 @@ size_t ElectrumTx::from_stream(ParseStream *s){
             }
             tx.setStatus(PARSING_DONE);
             tx.locktime = 0;
+            if(bytes_parsed + bytes_read != 6 + tx.length() + 2 - 4 + 1){ // it is not a marker of unsigned input
+                status = PARSING_FAILED;
+                bytes_parsed += bytes_read;
+                return bytes_read;
+            }
             is_segwit = true;
             txInsMeta = new ElectrumInputMetadata[tx.inputsNumber];
             for(unsigned int i=0; i<tx.inputsNumber; i++){
@@ -96,8 +101,15 @@ size_t ElectrumTx::from_stream(ParseStream *s){
         size_t start = 6 + tx.length() + 2 - 4; // locktime is not parsed yet
         for(unsigned int i = 0; i < tx.inputsNumber; i++){
             while(s->available() && bytes_parsed+bytes_read < start + 5){
-                s->read(); 
+                uint8_t c = s->read();
+                if(c != 0xFF && !(c == 0xFE && bytes_parsed+bytes_read == start)){ // marker of unsigned input is FEFFFFFFFF
+                    status = PARSING_FAILED;
+                }
                 bytes_read++;
+                if(status == PARSING_FAILED){
+                    bytes_parsed += bytes_read;
+                    return bytes_read;
+                }
             }
             start += 5;
             while(s->available() && bytes_parsed+bytes_read < start + 8){
-- 
2.43.0


From 5bca028907d7210516e718052bdff7fe345beae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:02:44 +0000
Subject: [PATCH 72/80] fix: signed shift overflow in Electrum locktime

---
 src/Electrum.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Electrum.cpp b/src/Electrum.cpp
index 47b1a00..ae937a2 100644
--- a/src/Electrum.cpp
+++ b/src/Electrum.cpp
@@ -142,7 +142,7 @@ size_t ElectrumTx::from_stream(ParseStream *s){
         }
         while(s->available() && bytes_parsed+bytes_read < start + 4){
             uint8_t c = s->read();
-            tx.locktime += (c << (8*(bytes_read+bytes_parsed-start)));
+            tx.locktime += ((uint32_t)c << (8*(bytes_read+bytes_parsed-start)));
             bytes_read++;
         }
         start+=4;
-- 
2.43.0


From 6ba443d69c1f3ec026654904fc55165d6b147d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:02:44 +0000
Subject: [PATCH 73/80] fix: signing and fee of incomplete Electrum
 transactions, overflowing amounts, keys with other chain codes

---
 src/Electrum.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/Electrum.cpp b/src/Electrum.cpp
index ae937a2..8d71d5f 100644
--- a/src/Electrum.cpp
+++ b/src/Electrum.cpp
@@ -158,11 +158,14 @@ ElectrumTx::~ElectrumTx(){
 }
 uint8_t ElectrumTx::sign(const HDPrivateKey account){
     uint8_t res = 0; // number of signed inputs
+    if(txInsMeta == NULL){
+        return 0;
+    }
     for(unsigned int i=0; i<tx.inputsNumber; i++){
         HDPublicKey pub = account.xpub();
         ScriptType type = txInsMeta[i].hd.type;
         pub.type = type;
-        if(pub == txInsMeta[i].hd){
+        if(pub == txInsMeta[i].hd && memcmp(pub.chainCode, txInsMeta[i].hd.chainCode, 32) == 0){
             PrivateKey pk = account.child(txInsMeta[i].derivation[0]).child(txInsMeta[i].derivation[1]);
             if(type == P2PKH || type == P2SH || type == UNKNOWN_TYPE || type == DIRECT_SCRIPT){
                 tx.signInput(i, pk);
@@ -177,15 +180,24 @@ uint8_t ElectrumTx::sign(const HDPrivateKey account){
 
 uint64_t ElectrumTx::fee() const{
     uint64_t inputs_amount = 0;
+    if(txInsMeta == NULL){
+        return 0;
+    }
     for(unsigned int i=0; i < tx.inputsNumber; i++){
         if(txInsMeta[i].amount == 0){
             return 0;
         }
         inputs_amount += txInsMeta[i].amount;
+        if(inputs_amount < txInsMeta[i].amount){ // overflow
+            return 0;
+        }
     }
     uint64_t outputs_amount = 0;
     for(unsigned int i=0; i < tx.outputsNumber; i++){
         outputs_amount += tx.txOuts[i].amount;
+        if(outputs_amount < tx.txOuts[i].amount){ // overflow
+            return 0;
+        }
     }
     if(inputs_amount < outputs_amount){
         return 0;
-- 
2.43.0


From 6c3ca3152a70a1df3023865909b5b696482c3236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:19 +0000
Subject: [PATCH 74/80] fix: Tx: continuing to parse with a copy leaked the
 empty arrays of the copy

---
 src/Transaction.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Transaction.cpp b/src/Transaction.cpp
index 6890297..63f5a38 100644
--- a/src/Transaction.cpp
+++ b/src/Transaction.cpp
@@ -374,6 +374,7 @@ size_t Tx::from_stream(ParseStream *s){
                 return bytes_read;
             }
             inputsNumber = c;
+            delete [] txIns; // a copy holds an empty array
             txIns = new TxIn[inputsNumber];
             for(unsigned int i=0; i<inputsNumber; i++){ // this will at least set all txins to PARSING_INCOMPLETE
                 bytes_read += s->parse(&txIns[i]);
@@ -399,6 +400,7 @@ size_t Tx::from_stream(ParseStream *s){
             return bytes_read;
         }
         inputsNumber = c;
+        delete [] txIns; // a copy holds an empty array
         txIns = new TxIn[inputsNumber];
         for(unsigned int i=0; i<inputsNumber; i++){ // this will at least set all txins to PARSING_INCOMPLETE
             bytes_read += s->parse(&txIns[i]);
@@ -428,6 +430,7 @@ size_t Tx::from_stream(ParseStream *s){
             return bytes_read;
         }
         outputsNumber = c;
+        delete [] txOuts; // a copy holds an empty array
         txOuts = new TxOut[outputsNumber];
         for(unsigned int i=0; i<outputsNumber; i++){ // this will at least set all txouts to PARSING_INCOMPLETE
             bytes_read += s->parse(&txOuts[i]);
-- 
2.43.0


From 20a235e1ad96c8c33966c5b390ce124157d94afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:14 +0000
Subject: [PATCH 75/80] fix: toBase58Check: string version read uninitialised
 memory when an allocation failed

---
 src/Conversion.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Conversion.cpp b/src/Conversion.cpp
index c77d294..0a7865f 100644
--- a/src/Conversion.cpp
+++ b/src/Conversion.cpp
@@ -352,7 +352,7 @@ size_t toBase58Check(const uint8_t * array, size_t arraySize, char * output, siz
 String toBase58Check(const uint8_t * array, size_t arraySize){
     if(array == NULL){ return String(); }
     size_t len = toBase58Length(array, arraySize) + 6 + 1; // 4-byte checksum (at most 6 characters) +1 for null terminator
-    char * buf = (char *)malloc(len);
+    char * buf = (char *)calloc(len, sizeof(char));
     if(buf == NULL){ return String(); }
     toBase58Check(array, arraySize, buf, len);
     String result(buf);
-- 
2.43.0


From 4ff72d8a591c1cb39684647befefdd45b556f2ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:28 +0000
Subject: [PATCH 76/80] fix: Witness: a partly parsed witness exposed
 uninitialised memory

---
 src/Script.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Script.cpp b/src/Script.cpp
index ad7e9f7..5832fa4 100644
--- a/src/Script.cpp
+++ b/src/Script.cpp
@@ -640,6 +640,7 @@ size_t Witness::from_stream(ParseStream *s){
                 uint8_t * ptr = (uint8_t *)realloc( witnessArray, (witnessLen + cur_element_len + lenVarInt(cur_element_len)) * sizeof(uint8_t));
                 if(ptr == NULL){ clear(); status=PARSING_FAILED; return 0;}
                 witnessArray = ptr;
+                memset(witnessArray+witnessLen, 0, cur_element_len+lenVarInt(cur_element_len));
                 witnessLen += cur_element_len+lenVarInt(cur_element_len);
                 writeVarInt(cur_element_len, witnessArray+offset, lenVarInt(cur_element_len));
             }
-- 
2.43.0


From 4b830c859bf4cf87cc62b23d4ff91d94f9950190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:08:02 +0000
Subject: [PATCH 77/80] fix: ElectrumTx: a refused legacy transaction left
 amounts and derivations uninitialised

---
 src/Electrum.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Electrum.cpp b/src/Electrum.cpp
index 8d71d5f..4bf3d7f 100644
--- a/src/Electrum.cpp
+++ b/src/Electrum.cpp
@@ -52,6 +52,10 @@ size_t ElectrumTx::from_stream(ParseStream *s){
             txInsMeta = new ElectrumInputMetadata[tx.inputsNumber];
             for(unsigned i=0; i<tx.inputsNumber; i++){
                 txInsMeta[i].amount = 0; // not known
+                txInsMeta[i].derivation[0] = 0;
+                txInsMeta[i].derivation[1] = 0;
+            }
+            for(unsigned i=0; i<tx.inputsNumber; i++){
                 if(tx.txIns[i].scriptSig.length() != 88){ // no idea how to parse other things
                     status = PARSING_FAILED;
                     bytes_parsed+=bytes_read;
-- 
2.43.0


From 01cc9f7009b855cf7c173c783affde3d5cb909a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:13:05 +0000
Subject: [PATCH 78/80] fix: multiplying a point by a partly parsed scalar
 could fail an assertion

---
 src/BitcoinCurve.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/BitcoinCurve.cpp b/src/BitcoinCurve.cpp
index 14fddb3..cdc1e75 100644
--- a/src/BitcoinCurve.cpp
+++ b/src/BitcoinCurve.cpp
@@ -279,13 +279,15 @@ ECPoint operator*(const ECScalar& scalar, const ECPoint& point){
 	ECPoint r;
 	uint8_t num[32];
 	scalar.getSecret(num);
+	bignum256 d;
+	bn_read_be(num, &d);
+	bn_mod(&d, &secp256k1.order); // a partly parsed scalar may be out of range
 	if(point == GeneratorPoint){
+		bn_write_be(&d, num);
 		uint8_t pubkey[65];
 		ecdsa_get_public_key65(&secp256k1, num, pubkey);
 		r.parse(pubkey, 65);
 	}else{
-		bignum256 d;
-		bn_read_be(num, &d);
 		curve_point p, res;
 		bn_read_be(point.point, &p.x);
 		bn_read_be(point.point+32, &p.y);
-- 
2.43.0


From 802998deb50bf31793001034c5491442d5eedf80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:14 +0000
Subject: [PATCH 79/80] fix: entropy string with zero characters was cut at the
 first one

generateMnemonic(numWords, String) used strlen, so raw entropy in a string
lost everything after the first zero byte and different entropies gave the
same phrase.
---
 src/Bitcoin.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Bitcoin.cpp b/src/Bitcoin.cpp
index 3c97311..f5f1177 100644
--- a/src/Bitcoin.cpp
+++ b/src/Bitcoin.cpp
@@ -90,7 +90,7 @@ bool checkMnemonic(const char * mnemonic){
 }
 #else
 const char * generateMnemonic(uint8_t numWords, const String entropy_string){
-    return generateMnemonic(numWords, (uint8_t*)entropy_string.c_str(), strlen(entropy_string.c_str()));
+    return generateMnemonic(numWords, (uint8_t*)entropy_string.c_str(), entropy_string.length());
 }
 const char * generateMnemonic(const String entropy_string){
     return generateMnemonic(24, entropy_string);
-- 
2.43.0


From fe07235445c8a5cf147d73c698c29df64c27ab79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:24 +0000
Subject: [PATCH 80/80] fix: input indexes above 255 were silently truncated
 when signing

sigHash, sigHashSegwit, signInput and signSegwitInput took the index as
uint8_t, so input 258 was signed (or overwritten) as input 2.
---
 src/Bitcoin.h       | 12 ++++++------
 src/Transaction.cpp |  8 ++++----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/Bitcoin.h b/src/Bitcoin.h
index 6f476a0..416cc6a 100644
--- a/src/Bitcoin.h
+++ b/src/Bitcoin.h
@@ -706,12 +706,12 @@ public:
     uint8_t addOutput(const TxOut txOut);
 
     /** \brief calculates a hash to sign for certain input */
-    int sigHash(uint8_t h[32], uint8_t inputIndex, const Script scriptPubkey, SigHashType sighash = SIGHASH_ALL) const;
+    int sigHash(uint8_t h[32], size_t inputIndex, const Script scriptPubkey, SigHashType sighash = SIGHASH_ALL) const;
 
     int hashPrevouts(uint8_t h[32]) const;
     int hashSequence(uint8_t h[32]) const;
     int hashOutputs(uint8_t h[32]) const;
-    int sigHashSegwit(uint8_t h[32], uint8_t inputIndex, const Script scriptPubKey, uint64_t amount, SigHashType sighash = SIGHASH_ALL) const;
+    int sigHashSegwit(uint8_t h[32], size_t inputIndex, const Script scriptPubKey, uint64_t amount, SigHashType sighash = SIGHASH_ALL) const;
 
 #if 0
     /** \brief sorts inputs and outputs in alphabetical order */
@@ -722,9 +722,9 @@ public:
      *         Don't forget to construct txIns[i].scriptSig correctly if you are using P2SH.
      *         For P2WPKH, P2WSH and P2SH-P2WPKH use signSegwitInput method.
      */
-    Signature signInput(uint8_t inputIndex, const PrivateKey pk, const Script redeemScript, SigHashType sighash = SIGHASH_ALL);
+    Signature signInput(size_t inputIndex, const PrivateKey pk, const Script redeemScript, SigHashType sighash = SIGHASH_ALL);
     /** \brief signs legacy input and returns a signature */
-    Signature signInput(uint8_t inputIndex, const PrivateKey pk){
+    Signature signInput(size_t inputIndex, const PrivateKey pk){
         return signInput(inputIndex, pk, Script(pk.publicKey(), P2PKH));
     };
 
@@ -732,11 +732,11 @@ public:
      *         Don't forget to construct txIns[i].witness correctly if you are using P2WSH or P2SH-P2WSH.
      *         For P2PKH and P2SH use signInput method.
      */
-    Signature signSegwitInput(uint8_t inputIndex, const PrivateKey pk, const Script redeemScript, uint64_t amount, ScriptType type = P2WSH, SigHashType sighash = SIGHASH_ALL);
+    Signature signSegwitInput(size_t inputIndex, const PrivateKey pk, const Script redeemScript, uint64_t amount, ScriptType type = P2WSH, SigHashType sighash = SIGHASH_ALL);
     /** \brief signs segwit input and returns a signature. Uses native segwit (P2WPKH) by default, 
      *         you can also specify the type to be P2SH-P2WPKH to sign nested segwit transaction.
      */
-    Signature signSegwitInput(uint8_t inputIndex, const PrivateKey pk, uint64_t amount, ScriptType type = P2WPKH){
+    Signature signSegwitInput(size_t inputIndex, const PrivateKey pk, uint64_t amount, ScriptType type = P2WPKH){
         return signSegwitInput(inputIndex, pk, Script(pk.publicKey(), P2WPKH), amount, type); // FIXME: are you sure?
     };
 
diff --git a/src/Transaction.cpp b/src/Transaction.cpp
index 63f5a38..2b6230f 100644
--- a/src/Transaction.cpp
+++ b/src/Transaction.cpp
@@ -504,7 +504,7 @@ size_t Tx::from_stream(ParseStream *s){
     bytes_parsed+=bytes_read;
     return bytes_read;
 }
-int Tx::sigHash(uint8_t h[32], uint8_t inputIndex, const Script scriptPubkey, SigHashType sighash) const{
+int Tx::sigHash(uint8_t h[32], size_t inputIndex, const Script scriptPubkey, SigHashType sighash) const{
     if(inputIndex >= inputsNumber){
         memset(h, 0, 32);
         return 0;
@@ -704,7 +704,7 @@ int Tx::hashOutputs(uint8_t h[32]) const{
     return 32;
 }
 
-int Tx::sigHashSegwit(uint8_t h[32], uint8_t inputIndex, const Script scriptPubKey, uint64_t amount, SigHashType sighash) const{
+int Tx::sigHashSegwit(uint8_t h[32], size_t inputIndex, const Script scriptPubKey, uint64_t amount, SigHashType sighash) const{
     if(inputIndex >= inputsNumber){
         memset(h, 0, 32);
         return 0;
@@ -757,7 +757,7 @@ int Tx::sigHashSegwit(uint8_t h[32], uint8_t inputIndex, const Script scriptPubK
     return 32;
 }
 
-Signature Tx::signInput(uint8_t inputIndex, const PrivateKey pk, const Script redeemScript, SigHashType sighash){
+Signature Tx::signInput(size_t inputIndex, const PrivateKey pk, const Script redeemScript, SigHashType sighash){
     uint8_t h[32];
     if(sigHash(h, inputIndex, redeemScript, sighash) == 0){ // no such input
         return Signature();
@@ -778,7 +778,7 @@ Signature Tx::signInput(uint8_t inputIndex, const PrivateKey pk, const Script re
 
     return sig;
 }
-Signature Tx::signSegwitInput(uint8_t inputIndex, const PrivateKey pk, const Script redeemScript, uint64_t amount, ScriptType type, SigHashType sighash){
+Signature Tx::signSegwitInput(size_t inputIndex, const PrivateKey pk, const Script redeemScript, uint64_t amount, ScriptType type, SigHashType sighash){
     if(inputIndex >= inputsNumber){
         return Signature();
     }
-- 
2.43.0

