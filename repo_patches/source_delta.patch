From 586901543f15070e7cc193a7eb8a80c17a0c3648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:42 +0000
Subject: [PATCH 01/95] fix: HashTable::addOrReplace must replace the data of
 an existing key

---
 include/Lintel/HashTable.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/Lintel/HashTable.hpp b/include/Lintel/HashTable.hpp
index 54e5590..f4ea85a 100644
--- a/include/Lintel/HashTable.hpp
+++ b/include/Lintel/HashTable.hpp
@@ -125,6 +125,7 @@ public:
 	hte *chain = internal_lookup(data, hashof);
 	if (chain != NULL) {
 	    replaced = true;
+	    chain->data = data;
 	    return &(chain->data);
 	} else {
 	    replaced = false;
-- 
2.43.0


From 71cfb30a3ce6fcecac3ece5df613cdfffc01b5bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:42 +0000
Subject: [PATCH 02/95] fix: resetting a hash table iterator on an emptied
 table must equal end()

---
 include/Lintel/HashTable.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/Lintel/HashTable.hpp b/include/Lintel/HashTable.hpp
index f4ea85a..f14a455 100644
--- a/include/Lintel/HashTable.hpp
+++ b/include/Lintel/HashTable.hpp
@@ -329,6 +329,7 @@ private:
 
 	void reset() {
 	    cur_chain = 0;
+	    chain_loc = -1;
 	    findNonemptyChain();
 	}
 	int32_t getCurChain() {
-- 
2.43.0


From b22216763a38da58fe6284b77b598203c732a986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:01 +0000
Subject: [PATCH 03/95] fix: destroying a Deque must destroy the elements still
 in it

---
 include/Lintel/Deque.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/Lintel/Deque.hpp b/include/Lintel/Deque.hpp
index ba7e61f..e9c7111 100644
--- a/include/Lintel/Deque.hpp
+++ b/include/Lintel/Deque.hpp
@@ -47,6 +47,7 @@ public:
     }
 
     ~Deque() {
+	clear();
 	allocator.deallocate(deque, q_size);
     }
     typedef Deque<T> mytype;
-- 
2.43.0


From d89d0d15d7654616a90d1027a4a78b015de3fb8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:01 +0000
Subject: [PATCH 04/95] fix: adding a negative amount to a Deque iterator must
 work for every ring size

---
 include/Lintel/Deque.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/Lintel/Deque.hpp b/include/Lintel/Deque.hpp
index e9c7111..e5230b1 100644
--- a/include/Lintel/Deque.hpp
+++ b/include/Lintel/Deque.hpp
@@ -163,7 +163,8 @@ public:
         /// adds diff and returns the iterator
         iterator operator+(ptrdiff_t diff) {
             DEBUG_SINVARIANT(inRangePlus(diff));
-            return iterator(mydeque, static_cast<size_t>(cur_pos + diff) % mydeque->q_size);
+            return iterator(mydeque, static_cast<size_t>(cur_pos + mydeque->q_size 
+                                                         + diff) % mydeque->q_size);
         }
         /// subtracts diff and returns the iterator
         iterator operator-(ptrdiff_t diff) {
@@ -194,7 +195,7 @@ public:
         /// adds diff to the iterator and returns the reference
         iterator &operator+=(ptrdiff_t diff) {
             DEBUG_SINVARIANT(inRangePlus(diff));
-            cur_pos = static_cast<size_t>(cur_pos + diff) % mydeque->q_size;
+            cur_pos = static_cast<size_t>(cur_pos + mydeque->q_size + diff) % mydeque->q_size;
             return *this;
         }
         /// subtracts diff to the iterator and returns the reference
-- 
2.43.0


From b93a628d2b6fd1e79a8ac7b9d1574fff7a4bdef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:01 +0000
Subject: [PATCH 05/95] fix: Deque::push_back of one of its own elements when
 full read freed memory

---
 include/Lintel/Deque.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/Lintel/Deque.hpp b/include/Lintel/Deque.hpp
index e5230b1..84e54b6 100644
--- a/include/Lintel/Deque.hpp
+++ b/include/Lintel/Deque.hpp
@@ -269,6 +269,8 @@ private:
     friend class iterator;
     void push_expand(const T &val) {
 	T *new_deque = allocator.allocate(q_size * 2);
+	// val may be a reference to one of our elements, so copy it before destroying them
+	allocator.construct(new_deque + q_size - 1, val);
 	size_t i = 0;
 	// copy back to 0 offset
 	if (q_front == 0) {
@@ -292,7 +294,6 @@ private:
 	INVARIANT(i == q_size-1, boost::format("internal %u %u %u %u")
                   % i % q_size % q_front % q_back);
 	q_front = 0;
-	allocator.construct(new_deque + i, val);
 	q_back = i + 1;
 	allocator.deallocate(deque, q_size);
 	q_size = q_size * 2;
-- 
2.43.0


From 77c36a1d264e9e9847928064c18ea32fc7dbe341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:01 +0000
Subject: [PATCH 06/95] fix: PriorityQueue could not grow from size 0 (any
 element over 1024 bytes)

---
 include/Lintel/PriorityQueue.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/Lintel/PriorityQueue.hpp b/include/Lintel/PriorityQueue.hpp
index 06da055..90b3349 100644
--- a/include/Lintel/PriorityQueue.hpp
+++ b/include/Lintel/PriorityQueue.hpp
@@ -219,13 +219,14 @@ public:
 private:
     LessImportant lessimportant;
     void double_size() {
-	T *pq_new = new T[size_available * 2];
+	uint32_t new_size = size_available > 0 ? size_available * 2 : 1;
+	T *pq_new = new T[new_size];
 	for(unsigned i=0;i<size_available;i++) {
 	    pq_new[i] = pq[i];
 	}
 	delete [] pq;
 	pq = pq_new;
-	size_available = size_available * 2;
+	size_available = new_size;
     }
     uint32_t size_available;
     uint32_t pq_size;
-- 
2.43.0


From 5850439231f7e8e50dc78c93f823a51c4e483a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:01 +0000
Subject: [PATCH 07/95] fix: PriorityQueue::push of one of its own elements
 when full read freed memory

---
 include/Lintel/PriorityQueue.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/Lintel/PriorityQueue.hpp b/include/Lintel/PriorityQueue.hpp
index 90b3349..fd49e2a 100644
--- a/include/Lintel/PriorityQueue.hpp
+++ b/include/Lintel/PriorityQueue.hpp
@@ -138,7 +138,10 @@ public:
 
     void push(const T &val) {
 	if (pq_size == size_available) {
+	    T tmp(val); // val may be a reference to one of our elements
 	    double_size();
+	    push(tmp);
+	    return;
 	}
 	int end_pos = pq_size;
 	while(end_pos > 0) {
-- 
2.43.0


From def15cfb90f939556b7570e0af49ace92cf28df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:01 +0000
Subject: [PATCH 08/95] fix: PriorityQueue::selfVerify must accept equal
 elements

---
 include/Lintel/PriorityQueue.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/Lintel/PriorityQueue.hpp b/include/Lintel/PriorityQueue.hpp
index fd49e2a..50d4afe 100644
--- a/include/Lintel/PriorityQueue.hpp
+++ b/include/Lintel/PriorityQueue.hpp
@@ -209,10 +209,11 @@ public:
 	for(uint32_t i = 0; i < pq_size; ++i) {
 	    uint32_t down_left = 2 * i + 1;
 	    if (down_left >= pq_size) break;
-	    SINVARIANT(!lessimportant(pq[i], pq[down_left]));
+	    // with a non-strict comparison, equal elements are each less important than the other
+	    SINVARIANT(!lessimportant(pq[i], pq[down_left]) || lessimportant(pq[down_left], pq[i]));
 	    uint32_t down_right = down_left + 1;
 	    if (down_right >= pq_size) break;
-	    SINVARIANT(!lessimportant(pq[i], pq[down_right]));
+	    SINVARIANT(!lessimportant(pq[i], pq[down_right]) || lessimportant(pq[down_right], pq[i]));
 	}
     }
 
-- 
2.43.0


From 057d32cbb5e87b66b125578bc5fd27c107a607b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:43 +0000
Subject: [PATCH 09/95] fix: ByteBuffer append/assign from itself read freed
 memory or lost the contents

---
 include/Lintel/ByteBuffer.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/Lintel/ByteBuffer.hpp b/include/Lintel/ByteBuffer.hpp
index 0cd3075..267fb82 100644
--- a/include/Lintel/ByteBuffer.hpp
+++ b/include/Lintel/ByteBuffer.hpp
@@ -342,6 +342,10 @@ namespace lintel {
 	/// append contents of @param buf to this buffer, resizing if necessary.
 	/// @param buf source buffer for append into this buffer
 	void append(const ByteBuffer &buf) {
+	    if (&buf == this) { // appending may reallocate the source
+		append(asString());
+		return;
+	    }
 	    append(buf.readStart(), buf.readAvailable());
 	}
 
@@ -485,6 +489,9 @@ namespace lintel {
 	/// Copy the value in @param src into this ByteBuffer,
 	/// overwriting any prior contents.
 	void assign(const ByteBuffer &src) {
+	    if (&src == this) { // reset would discard the source
+		return;
+	    }
 	    reset();
 	    append(src.readStart(), src.readAvailable());
 	}
-- 
2.43.0


From 9202cdbd365d19272f068ce2e5352141ba956c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:43 +0000
Subject: [PATCH 10/95] fix: ByteBuffer stream reads into a shared buffer wrote
 past the new private copy

---
 include/Lintel/ByteBuffer.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/Lintel/ByteBuffer.hpp b/include/Lintel/ByteBuffer.hpp
index 267fb82..d066164 100644
--- a/include/Lintel/ByteBuffer.hpp
+++ b/include/Lintel/ByteBuffer.hpp
@@ -381,6 +381,7 @@ namespace lintel {
 				   size_t max_size = 128*1024*1024) {
 	    size_t bytes_read = 0;
 
+	    uniqueify(); // before looking at writeAvailable(), which it can change
 	    if (bufferSize() == 0) {
 		resizeBuffer(std::min(static_cast<size_t>(1024), max_size));
 	    }
@@ -417,6 +418,7 @@ namespace lintel {
 	int64_t appendFromStream(std::istream &sin, size_t amount) {
 	    size_t bytes_read = 0;
 
+	    uniqueify(); // before looking at writeAvailable(), which it can change
 	    if (writeAvailable() < amount) {
 		resizeBuffer(bufferSize() - writeAvailable() + amount);
 	    }
-- 
2.43.0


From 2aa9a5887df55330cb0d7c70567bd83422cdc88c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:43 +0000
Subject: [PATCH 11/95] fix: ByteBuffer::replace range check must not wrap
 around

---
 include/Lintel/ByteBuffer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Lintel/ByteBuffer.hpp b/include/Lintel/ByteBuffer.hpp
index d066164..43372a2 100644
--- a/include/Lintel/ByteBuffer.hpp
+++ b/include/Lintel/ByteBuffer.hpp
@@ -447,7 +447,7 @@ namespace lintel {
 	/// @param src source data for replacing
 	/// @param length length of data for replacing
         void replace(size_t offset, const void *src, size_t length) {
-	    SINVARIANT(offset + length <= readAvailable());
+	    SINVARIANT(length <= readAvailable() && offset <= readAvailable() - length);
 	    memcpy(writeableReadStart() + offset, src, length);
 	}
 
-- 
2.43.0


From 7b7b4ac905cebfa96c0e7448398030243e5e7b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:44 +0000
Subject: [PATCH 12/95] fix: comparing and printing ConstantStrings that
 include null bytes

---
 include/Lintel/ConstantString.hpp | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/include/Lintel/ConstantString.hpp b/include/Lintel/ConstantString.hpp
index a4e10d0..4669c86 100644
--- a/include/Lintel/ConstantString.hpp
+++ b/include/Lintel/ConstantString.hpp
@@ -100,14 +100,10 @@ public:
 	} 
     }
     int compare(const ConstantString &rhs) const {
-	int cmplen = size() < rhs.size() ? size() : rhs.size();
-	cmplen += 1; // include null byte of shorter string
-	return memcmp(c_str(),rhs.c_str(),cmplen);
+	return compareBytes(rhs.data(), rhs.size());
     }
     int compare(const std::string &rhs) const {
-	int cmplen = size() < rhs.size() ? size() : rhs.size();
-	cmplen += 1; // include null byte of shorter string
-	return memcmp(c_str(),rhs.c_str(),cmplen);
+	return compareBytes(rhs.data(), rhs.size());
     }
 
     char operator[](size_t pos) const {
@@ -153,6 +149,16 @@ public:
 	return myptr == to.myptr ? true : false;
     }
 private:
+    // strings may include null bytes, so the lengths have to be compared also
+    int compareBytes(const char *to, size_t to_size) const {
+	size_t cmplen = size() < to_size ? size() : to_size;
+	int ret = memcmp(data(), to, cmplen);
+	if (ret != 0 || size() == to_size) {
+	    return ret;
+	}
+	return size() < to_size ? -1 : 1;
+    }
+
     ConstantStringValue *myptr;
 
     static int nstrings;
@@ -202,12 +208,12 @@ operator!=(const ConstantString &lhs, const std::string &rhs) {
 
 inline bool
 operator!=(const ConstantString &lhs, const char *rhs) {
-    return strcmp(lhs.c_str(),rhs) != 0;
+    return lhs.compare(std::string(rhs)) != 0;
 }
 
 inline std::ostream &
 operator<< (std::ostream&o, const ConstantString&s) {
-    o << s.c_str();
+    o << s.str();
     return o;
 }
 
-- 
2.43.0


From 55de0bd50c07420c21138cbfd0945f73766cfed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:47 +0000
Subject: [PATCH 13/95] fix: stringToInteger must reject trailing garbage in
 base 8/16 and negative values for unsigned types

---
 include/Lintel/StringUtil.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/Lintel/StringUtil.hpp b/include/Lintel/StringUtil.hpp
index f9501cf..55c4e85 100644
--- a/include/Lintel/StringUtil.hpp
+++ b/include/Lintel/StringUtil.hpp
@@ -112,6 +112,10 @@ template<typename T>
 T stringToInteger(const std::string &str, int base = 10) {
     BOOST_STATIC_ASSERT(boost::is_integral<T>::value);
     T ret = 0;
+    // unsigned conversions would accept negative values and wrap them
+    if (!std::numeric_limits<T>::is_signed && str.find('-') != std::string::npos) {
+	FATAL_ERROR(boost::format("error converting '%s' to integer, negative values are outside of the range") % str);
+    }
     if (base == 10) {
 	try {
 	    ret = boost::lexical_cast<T>(str);
@@ -133,7 +137,7 @@ T stringToInteger(const std::string &str, int base = 10) {
 	    FATAL_ERROR(boost::format("base %d unsupported: 8, 10 or 16 only") % base);
 	    break;
 	}
-	if (iss.fail()) {
+	if (iss.fail() || iss.peek() != std::istringstream::traits_type::eof()) {
 	    FATAL_ERROR(boost::format("error converting '%s' to integer") % str);
 	}
     }
-- 
2.43.0


From 19b6ed32b2399eb735051b47684eab0ab94718cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:47 +0000
Subject: [PATCH 14/95] fix: stringToInteger of 8 bit types returned the
 character code

---
 include/Lintel/StringUtil.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/Lintel/StringUtil.hpp b/include/Lintel/StringUtil.hpp
index 55c4e85..87e2b6d 100644
--- a/include/Lintel/StringUtil.hpp
+++ b/include/Lintel/StringUtil.hpp
@@ -116,7 +116,13 @@ T stringToInteger(const std::string &str, int base = 10) {
     if (!std::numeric_limits<T>::is_signed && str.find('-') != std::string::npos) {
 	FATAL_ERROR(boost::format("error converting '%s' to integer, negative values are outside of the range") % str);
     }
-    if (base == 10) {
+    if (sizeof(T) == 1) { // stream operators would treat it as a character
+	int32_t tmp = stringToInteger<int32_t>(str, base);
+	if (tmp < std::numeric_limits<T>::min() || tmp > std::numeric_limits<T>::max()) {
+	    FATAL_ERROR(boost::format("error converting '%s' to integer, outside of range [%d .. %d]") % str % static_cast<int>(std::numeric_limits<T>::min()) % static_cast<int>(std::numeric_limits<T>::max()));
+	}
+	ret = static_cast<T>(tmp);
+    } else if (base == 10) {
 	try {
 	    ret = boost::lexical_cast<T>(str);
 	}
-- 
2.43.0


From 4af1556e9f34ca7c4cb34e3c73c5a0e2f8408009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:47 +0000
Subject: [PATCH 15/95] fix: stringtoipv4 rejected 255.255.255.255

---
 src/StringUtil.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/StringUtil.cpp b/src/StringUtil.cpp
index 15c69b8..ca5a2b2 100644
--- a/src/StringUtil.cpp
+++ b/src/StringUtil.cpp
@@ -317,11 +317,11 @@ string ipv4tostring(uint32_t val) {
 #ifdef SYS_POSIX
 
 uint32_t stringtoipv4(const string &val) {
-    in_addr_t addr;
-    INVARIANT((addr = inet_addr(val.c_str())) != (in_addr_t)-1,
+    in_addr addr;
+    INVARIANT(inet_aton(val.c_str(), &addr) != 0,
 	      boost::format("Unable to convert %s to inet address")
 	      % val);
-    return static_cast<uint32_t>(ntohl(addr));
+    return static_cast<uint32_t>(ntohl(addr.s_addr));
 }
 
 #endif // SYS_POSIX
-- 
2.43.0


From eddd970ca0dc424bd699307dc0347310509ac471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:47 +0000
Subject: [PATCH 16/95] fix: stringToDouble ignored everything after an
 embedded null

---
 src/StringUtil.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/StringUtil.cpp b/src/StringUtil.cpp
index ca5a2b2..0625c84 100644
--- a/src/StringUtil.cpp
+++ b/src/StringUtil.cpp
@@ -331,7 +331,7 @@ double stringToDouble(const string &str) {
     INVARIANT(str.size() > 0, 
 	      "zero length string not valid in conversion to double");
     double ret = strtod(str.c_str(),&endptr);
-    INVARIANT(*endptr == '\0',
+    INVARIANT(endptr == str.c_str() + str.size(),
 	      boost::format("didn't parse all of '%s' as a double") % str);
     return ret;
 }
-- 
2.43.0


From 56cae37d4927e72a9687ca75db8dbf6dff144d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:47 +0000
Subject: [PATCH 17/95] fix: toCSVform must quote fields with quotes or line
 breaks

---
 src/StringUtil.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/StringUtil.cpp b/src/StringUtil.cpp
index 0625c84..617b61a 100644
--- a/src/StringUtil.cpp
+++ b/src/StringUtil.cpp
@@ -228,13 +228,13 @@ string htmlEscapeUnprintable(const string &in) {
 }
 
 // writes a char string in CSV form (as it is accepted by Excel)
-// if the string has commas then we need to use "" around the string
+// if the string has commas, quotes or line breaks then we need to use "" around the string
 // if the string has " then we need to double the existent quotes 
 string toCSVform(const string &s) {
     string ret(s);
     int pos = -1; 
 
-    if ((pos = ret.find(",",0)) >= 0){
+    if (ret.find_first_of(",\"\r\n") != string::npos) {
 	ret.insert(0,"\"");
 	pos = 1;
 	while ((pos = ret.find("\"",pos)) >= 0){
-- 
2.43.0


From 239d92665fe549d5d237eddf90f3e878d13a16f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:27 +0000
Subject: [PATCH 18/95] fix: ASCIIbeticalB64::encodeBackward read before the
 data when asked for more digits than it holds

---
 include/Lintel/Base64.hpp | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/include/Lintel/Base64.hpp b/include/Lintel/Base64.hpp
index b3a178d..7efe92e 100644
--- a/include/Lintel/Base64.hpp
+++ b/include/Lintel/Base64.hpp
@@ -170,23 +170,17 @@ namespace lintel {
 	    int32_t out_off;
 	    uint32_t trans_buf = 0;
 	    uint32_t bits = 0;
-	    for(out_off=digits-1, in_off=size-1; 
+	    for(out_off=digits-1, in_off=size; 
 		out_off >= 0; --out_off) {
-		if (bits < 6) {
-		    trans_buf += ((uint32_t)cdata[in_off]) << bits;
+		if (bits < 6 && in_off > 0) {
 		    --in_off;
+		    trans_buf += ((uint32_t)cdata[in_off]) << bits;
 		    bits += 8;
 		}
 		ret[out_off] = translate()[trans_buf & 0x3F];
 		trans_buf >>= 6;
-		bits -= 6;
+		bits = bits > 6 ? bits - 6 : 0;
 	    }
-	    // There may be a few spare bits...
-	    for(; bits > 0 && out_off >= 0; --out_off) {
-		ret[out_off] = translate()[trans_buf & 0x3F];
-		trans_buf >>= 6;
-		bits -= 6;
-	    }	
 	}	
 	
 	static std::string encode(std::string data, int32_t digits) {
-- 
2.43.0


From ba88cb40b9f5f60e60066e2112be205e5019b49b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:27 +0000
Subject: [PATCH 19/95] fix: ASCIIbeticalB64::encode left requested digits
 unset when the data ended on a digit boundary

---
 include/Lintel/Base64.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/Lintel/Base64.hpp b/include/Lintel/Base64.hpp
index 7efe92e..6cab611 100644
--- a/include/Lintel/Base64.hpp
+++ b/include/Lintel/Base64.hpp
@@ -151,11 +151,10 @@ namespace lintel {
 		trans_buf <<= 6;
 		bits-=6;
 	    }
-	    // For the spare bits..
-	    for(; bits>0 && out_off < digits; ++out_off) {
+	    // For the spare bits, and then the zero digits up to the requested size
+	    for(; out_off < digits; ++out_off) {
 		ret[out_off] = translate()[trans_buf >> (32-6)];
 		trans_buf <<=6;
-		bits-=6;
 	    }
 	}
 	
-- 
2.43.0


From eba18d71f6ead7f2c7ef99ac84b8c175eb405184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:27 +0000
Subject: [PATCH 20/95] fix: ASCIIbeticalB64::decode used the inverse table
 while another thread was still filling it

---
 include/Lintel/Base64.hpp | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/include/Lintel/Base64.hpp b/include/Lintel/Base64.hpp
index 6cab611..ba6eb37 100644
--- a/include/Lintel/Base64.hpp
+++ b/include/Lintel/Base64.hpp
@@ -20,6 +20,17 @@ namespace lintel {
         class preserves the ordering for all string x and y. */
 
     class ASCIIbeticalB64 {
+	struct InverseTable {
+	    char table[256];
+	    InverseTable() {
+		for (int32_t i=0; i<256; ++i) {
+		    table[i] = 0;
+		}
+		for (int8_t i=0; i<64; ++i) {
+		    table[static_cast<int32_t>(translate()[i])] = static_cast<char>(i);
+		}
+	    }
+	};
     public:
 	static const char * translate() {
 	    static char table[] = 
@@ -28,16 +39,8 @@ namespace lintel {
 	}
 
 	static const char * detranslate() {
-	    static char * inverse = 0;
-	    if (inverse) {
-		return inverse;
-	    }
-	    inverse = new char[256];
-	    for (int8_t i=0; i<64; ++i) {
-		inverse[static_cast<int32_t>(translate()[i])] = 
-		    static_cast<char>(i);
-	    }
-	    return inverse;
+	    static const InverseTable inverse; // complete before any thread can use it
+	    return inverse.table;
 	}
 	
 	static std::string decode(std::string &data) {
@@ -53,7 +56,7 @@ namespace lintel {
 	    uint32_t bits = 0;
 	    for(size_t in_off = 0;
 		in_off < size && out_off < ret_size; ++in_off) {
-		trans_buf += ((uint32_t)table[(uint32_t)data[in_off]]) << (32-6-bits);
+		trans_buf += ((uint32_t)table[(unsigned char)data[in_off]]) << (32-6-bits);
 		bits += 6;
 		if (bits >= 8) {
 		    ret[out_off] = trans_buf >> (32-8);
-- 
2.43.0


From a3522b9fb0d890ad601af386b790479cb586d721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:18 +0000
Subject: [PATCH 21/95] fix: interpolation search went outside the range for
 keys more than half the type's range apart

---
 include/Lintel/unstable/InterpolationSearch.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/Lintel/unstable/InterpolationSearch.hpp b/include/Lintel/unstable/InterpolationSearch.hpp
index 11471e3..6fd6cd4 100644
--- a/include/Lintel/unstable/InterpolationSearch.hpp
+++ b/include/Lintel/unstable/InterpolationSearch.hpp
@@ -40,8 +40,10 @@ template<typename ValueT> struct EstimateOffset {
     // Postconditions: 0 <= return value <= last_pos
     size_t 
     operator()(const ValueT &v, const ValueT &first, const ValueT &last, size_t last_pos) const {
-        UnsignedValueT value_range = last - first;
-        double relative_pos = static_cast<double>(v - first) / value_range; // [0,1]
+        // unsigned subtraction; signed values may be further apart than the signed type can hold
+        UnsignedValueT value_range = static_cast<UnsignedValueT>(last) - static_cast<UnsignedValueT>(first);
+        UnsignedValueT value_offset = static_cast<UnsignedValueT>(v) - static_cast<UnsignedValueT>(first);
+        double relative_pos = static_cast<double>(value_offset) / value_range; // [0,1]
         return relative_pos * last_pos;
     }
 };
-- 
2.43.0


From 1941248a1355756348c0c6e8510696e15783b118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:40 +0000
Subject: [PATCH 22/95] fix: secondsToTfrac lost a second when the fraction
 rounded up to a whole second

---
 include/Lintel/Clock.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Lintel/Clock.hpp b/include/Lintel/Clock.hpp
index 3482364..db84759 100644
--- a/include/Lintel/Clock.hpp
+++ b/include/Lintel/Clock.hpp
@@ -203,7 +203,7 @@ public:
 	//             = round(lower * 2^32)
 	//             = round((now - secs) * 2^32) = tmp
 	double tmp = round((seconds - sec_only) * DBL_TFRAC_PER_SECOND);
-	uint32_t tfrac_lower = static_cast<uint32_t>(tmp);
+	uint64_t tfrac_lower = static_cast<uint64_t>(tmp); // may round up to a whole second
 	return (static_cast<uint64_t>(sec_only) << 32) + tfrac_lower;	
     }
 
-- 
2.43.0


From 16ac59693e8eeb8b289e496997ccc5b95eeac3df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:56 +0000
Subject: [PATCH 23/95] fix: StatsSeries autocovariance at a lag of the whole
 series or more was a huge number

---
 src/StatsSeries.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/StatsSeries.cpp b/src/StatsSeries.cpp
index 803963a..829a44e 100644
--- a/src/StatsSeries.cpp
+++ b/src/StatsSeries.cpp
@@ -64,11 +64,11 @@ StatsSeries::StatsSeries(unsigned maxlag_in)
 
 StatsSeries::~StatsSeries()
 {
-  delete samples;
+  delete [] samples;
   samples = NULL;
-  delete product;
+  delete [] product;
   product = NULL;
-  delete firstsamples;
+  delete [] firstsamples;
   firstsamples = NULL;
   max_lag = 0;
 }
@@ -127,6 +127,10 @@ StatsSeries::autocovariance(unsigned lag) const
 {
   SINVARIANT(lag<=max_lag);
   
+  if (lag >= sampleno) {
+    return 0; // no pair of samples is that far apart
+  }
+
   double lastsamples;
   lastsamples = 0.0;
   for (unsigned i=0; i<lag; i++) {
-- 
2.43.0


From c64d4730e85652173d08af1baf7f9224bac84dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:56 +0000
Subject: [PATCH 24/95] fix: StatsSequence maximum mode reported 0 for buckets
 of negative values

---
 src/StatsSequence.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/StatsSequence.cpp b/src/StatsSequence.cpp
index d624015..fb03059 100644
--- a/src/StatsSequence.cpp
+++ b/src/StatsSequence.cpp
@@ -64,7 +64,8 @@ StatsSequence::add(const double value)
 	points_remain_new_bucket = points_per_bucket;
     }
     if (merge_mode == MergeMax) { 
-	new_value = (new_value > value) ? new_value : value; 
+	bool first_in_bucket = points_remain_new_bucket == points_per_bucket;
+	new_value = (!first_in_bucket && new_value > value) ? new_value : value; 
     } else { 
 	new_value += value; 
     }
-- 
2.43.0


From 8d1ee1f4523b20a507800e9b128df978c96c8fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:56 +0000
Subject: [PATCH 25/95] fix: StatsSeriesGroup::reset kept the overall
 statistics

---
 src/StatsSeriesGroup.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/StatsSeriesGroup.cpp b/src/StatsSeriesGroup.cpp
index fa1b48a..5d0f0fc 100644
--- a/src/StatsSeriesGroup.cpp
+++ b/src/StatsSeriesGroup.cpp
@@ -76,6 +76,7 @@ StatsSeriesGroup::reset()
 	delete stats[i];
     }
     stats.resize(0);
+    Stats::reset();
     cur_interval_start = last_time = first_time = Double::NaN;
 }
 
-- 
2.43.0


From d13770d08a12aed3dfd99100a357491e6ca701d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:56 +0000
Subject: [PATCH 26/95] fix: StatsSeriesGroup::getSeriesStat dereferenced NULL
 for an interval without values

---
 include/Lintel/StatsSeriesGroup.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/Lintel/StatsSeriesGroup.hpp b/include/Lintel/StatsSeriesGroup.hpp
index 22a624e..33b8b09 100644
--- a/include/Lintel/StatsSeriesGroup.hpp
+++ b/include/Lintel/StatsSeriesGroup.hpp
@@ -33,7 +33,8 @@ public:
     const Stats &getSeriesStat(const int statnum) {
 	INVARIANT(statnum >= 0 && static_cast<size_t>(statnum) < stats.size(),
 		  boost::format("statnum %d is out of bounds") % statnum);
-	return *(stats[statnum]);
+	static const Stats empty_interval; // intervals without values have no object
+	return stats[statnum] == NULL ? empty_interval : *(stats[statnum]);
     }
 
     virtual void printRome(int depth, std::ostream &out) const;
-- 
2.43.0


From d5c2d9ddc5be28f2e7cb036df955027b6f626548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:56 +0000
Subject: [PATCH 27/95] fix: StatsRW over series groups aborted at the second
 value given only to the all category

---
 src/StatsRW.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/StatsRW.cpp b/src/StatsRW.cpp
index 8f71f2e..f79f1ea 100644
--- a/src/StatsRW.cpp
+++ b/src/StatsRW.cpp
@@ -56,7 +56,7 @@ StatsRW::finish_init()
 void
 StatsRW::add(const double value, modeT mode, const double timeSeq)
 {
-    if(allStatsSeriesGroup && read->count() == 0 && write->count() == 0) {
+    if(allStatsSeriesGroup && read->count() == 0 && write->count() == 0 && all->count() == 0) {
 	dynamic_cast<StatsSeriesGroup *>(read)->setSeriesStart(timeSeq);
 	dynamic_cast<StatsSeriesGroup *>(write)->setSeriesStart(timeSeq);
 	dynamic_cast<StatsSeriesGroup *>(all)->setSeriesStart(timeSeq);
-- 
2.43.0


From 1fab78cccc73e805d33005e2ea8ec5a9df2e9afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:56 +0000
Subject: [PATCH 28/95] fix: StatsRW printing dereferenced the NULL entries it
 allows

---
 src/StatsRW.cpp | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/StatsRW.cpp b/src/StatsRW.cpp
index f79f1ea..e8d787a 100644
--- a/src/StatsRW.cpp
+++ b/src/StatsRW.cpp
@@ -109,6 +109,10 @@ StatsRW::setSequenceInfo(double interval_width, StatsSequence::mode mode)
     }
 }
 
+static unsigned long countOf(const Stats *stat) {
+    return stat == NULL ? 0 : stat->count(); // entries may be NULL
+}
+
 void
 StatsRW::printRome(int depth, std::ostream &out) const
 {
@@ -117,25 +121,25 @@ StatsRW::printRome(int depth, std::ostream &out) const
     spaces += " ";
   }
 
-  if (read->count() == 0 && write->count() == 0 &&
-      all->count() > 0) { 
+  if (countOf(read) == 0 && countOf(write) == 0 &&
+      countOf(all) > 0) { 
       // Behave as if we were just the underlying all stats object.
       all->printRome(depth,out);
   } else {
       out << spaces << "{\n";
-      if (read->count() != 0) {
+      if (countOf(read) != 0) {
 	  out << spaces << "  { read {\n";
 	  read->printRome(depth+4,out);
 	  out << spaces << "  }}\n";
       }
 
-      if (write->count() != 0) {
+      if (countOf(write) != 0) {
 	  out << spaces << "  { write {\n";
 	  write->printRome(depth+4,out);
 	  out << spaces << "  }}\n";
       }
 
-      if (all->count() != 0) {
+      if (countOf(all) != 0) {
 	  out << spaces << "  { all {\n";
 	  all->printRome(depth+4,out);
 	  out << spaces << "  }}\n";
@@ -158,25 +162,25 @@ void StatsRW::printTabular(int depth, std::ostream& out) const
   }
   */
 
-  if (read->count() == 0 && write->count() == 0 &&
-      all->count() > 0) { 
+  if (countOf(read) == 0 && countOf(write) == 0 &&
+      countOf(all) > 0) { 
       // Behave as if we were just the underlying all stats object.
       all->printTabular(depth,out);
   } else {
       out << spaces << "StatsRW begin\n";
-      if (read->count() != 0) {
+      if (countOf(read) != 0) {
 	  out << spaces << "read begin\n";
 	  read->printTabular(depth+4,out);
 	  out << spaces << "read end\n";
       }
 
-      if (write->count() != 0) {
+      if (countOf(write) != 0) {
 	  out << spaces << "write begin\n";
 	  write->printTabular(depth+4,out);
 	  out << spaces << "write end\n";
       }
 
-      if (all->count() != 0) {
+      if (countOf(all) != 0) {
 	  out << spaces << "all begin\n";
 	  all->printTabular(depth+4,out);
 	  out << spaces << "all end\n";
-- 
2.43.0


From bb276c94ab0e53f4d621e388444beede22eb9152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:03 +0000
Subject: [PATCH 29/95] fix: StatsQuantile allocates one collapse position per
 buffer

---
 src/StatsQuantile.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/StatsQuantile.cpp b/src/StatsQuantile.cpp
index 6d155a4..3a3ad49 100644
--- a/src/StatsQuantile.cpp
+++ b/src/StatsQuantile.cpp
@@ -155,7 +155,7 @@ void StatsQuantile::init(int _nbuffers, int _buffer_size) {
     } else {
 	tmp_buffer = NULL;
     }
-    collapse_pos = new int[buffer_size];
+    collapse_pos = new int[nbuffers];
     init_buffers();
 }
 
@@ -265,8 +265,7 @@ void StatsQuantile::add(const Stats &_stat) {
 	}
 	cur_buffer = stat->cur_buffer;
 	cur_buffer_pos = stat->cur_buffer_pos;
-	// TODO: determine if we really have to copy collapse_pos
-	memcpy(collapse_pos, stat->collapse_pos, sizeof(int) * buffer_size);
+	// collapse_pos is scratch space, it is set up before every use.
 	collapse_even_low = stat->collapse_even_low;
 	return;
     }
-- 
2.43.0


From 3fbb1de1d9808d66d2ab3485ea5efce7e41926ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:03 +0000
Subject: [PATCH 30/95] fix: StatsQuantile merges an empty statistic without
 reading before its buffers

---
 src/StatsQuantile.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/StatsQuantile.cpp b/src/StatsQuantile.cpp
index 3a3ad49..7d07e7b 100644
--- a/src/StatsQuantile.cpp
+++ b/src/StatsQuantile.cpp
@@ -244,6 +244,10 @@ void StatsQuantile::add(const Stats &_stat) {
     const StatsQuantile *stat = dynamic_cast<const StatsQuantile *>(&_stat);
     INVARIANT(stat != NULL, "need another StatsQuantile for add(Stats) to work");
 
+    if (stat->countll() == 0) {
+	return; // a lazy, empty statistic has no current buffer to add from
+    }
+
     Stats::add(_stat); 
 
     if ((cur_buffer == -1 || 
-- 
2.43.0


From b17488a0ca65ccb9a0e367ceb56a45aa7abed5d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:21 +0000
Subject: [PATCH 31/95] fix: uniform histogram keeps values just below the
 upper bound in the last bin

---
 src/StatsHistogram.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/StatsHistogram.cpp b/src/StatsHistogram.cpp
index 0a848a6..b9e4c6d 100644
--- a/src/StatsHistogram.cpp
+++ b/src/StatsHistogram.cpp
@@ -96,7 +96,8 @@ unsigned StatsHistogramUniform::sampleBin(const double value) const {
     else
 	bin = (unsigned)(floor((value-bin_low)/bin_width));
 
-    return bin;
+    // the division can round up to num_bins just below bin_high
+    return bin < num_bins ? bin : num_bins - 1;
 }
 
 void StatsHistogramUniform::add(const double value) {
-- 
2.43.0


From 4da79a592c87ee2c1a036ebba6fa33e3c8e1f3bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:21 +0000
Subject: [PATCH 32/95] fix: accumulating uniform histogram allocates a value
 for each bin

---
 src/StatsHistogram.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/StatsHistogram.cpp b/src/StatsHistogram.cpp
index b9e4c6d..c0249be 100644
--- a/src/StatsHistogram.cpp
+++ b/src/StatsHistogram.cpp
@@ -575,7 +575,7 @@ StatsHistogramUniformAccum::StatsHistogramUniformAccum(const unsigned bins_in,
 			      scalable_in, growable_in),
 	val_bins(NULL)
 {
-  val_bins = new double[bins_in];
+  val_bins = new double[num_bins];
   SINVARIANT(val_bins != NULL);
   reset();
 }
-- 
2.43.0


From 2cbb844ab00039dd26738c37f4da5eef67c17087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:21 +0000
Subject: [PATCH 33/95] fix: histograms refuse an index one past the last bin

---
 src/StatsHistogram.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/StatsHistogram.cpp b/src/StatsHistogram.cpp
index c0249be..69fc233 100644
--- a/src/StatsHistogram.cpp
+++ b/src/StatsHistogram.cpp
@@ -83,7 +83,7 @@ void StatsHistogramUniform::reset() {
 
 unsigned long StatsHistogramUniform::operator[](unsigned index) const {
     SINVARIANT(checkInvariants());
-    SINVARIANT(index <= num_bins);
+    SINVARIANT(index < num_bins);
     return bins[index];
 }
 
@@ -396,7 +396,7 @@ void StatsHistogramLog::reset() {
 
 unsigned long StatsHistogramLog::operator[](unsigned index) const {
     SINVARIANT(checkInvariants());
-    SINVARIANT(index <= num_bins);
+    SINVARIANT(index < num_bins);
     return bins[index];
 }
 
@@ -643,7 +643,7 @@ void StatsHistogramUniformAccum::add(const double value) {
 
 double StatsHistogramUniformAccum::value(unsigned index) const {
     SINVARIANT(checkInvariants());
-    SINVARIANT(index <= num_bins);
+    SINVARIANT(index < num_bins);
     return val_bins[index];
 }
 
@@ -756,7 +756,7 @@ void StatsHistogramLogAccum::add(const double index_value, const double data_val
 
 double StatsHistogramLogAccum::value(unsigned index) const {
     SINVARIANT(checkInvariants());
-    SINVARIANT(index <= num_bins);
+    SINVARIANT(index < num_bins);
     return val_bins[index];
 }
 
-- 
2.43.0


From b2d723ce87c546d849c7f95cb95767e10f9a7de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:21 +0000
Subject: [PATCH 34/95] fix: histogram percentile 0 is the low bound of the
 first used bin

---
 src/StatsHistogram.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/StatsHistogram.cpp b/src/StatsHistogram.cpp
index 69fc233..76a7a99 100644
--- a/src/StatsHistogram.cpp
+++ b/src/StatsHistogram.cpp
@@ -208,6 +208,9 @@ double StatsHistogramUniform::percentile(double p) const {
     unsigned long lowend = 0;
     unsigned long highend = bins[0];
     unsigned long bin = 0;
+    while (highend == 0 && bin + 1 < num_bins) {
+	highend = bins[++bin]; // percentiles start in the first used bin
+    }
     while (Double::gt(targetnumber,highend)) {
 	lowend = highend;
 	highend += bins[++bin];
@@ -219,7 +222,7 @@ double StatsHistogramUniform::percentile(double p) const {
     //
     if (highend == lowend) {
 	// we hit a point where highend == lowend == targetnumber
-	SINVARIANT(bin == 0);  // the only place where this can occur?
+	SINVARIANT(count() == 0);  // the only case where this can occur
 	return 0; 
     }
     return (bin_low + bin_width*(bin+(targetnumber-lowend)/(highend-lowend)));
@@ -483,6 +486,9 @@ double StatsHistogramLog::percentile(double p) const {
     unsigned long lowend = 0;
     unsigned long highend = bins[0];
     unsigned long bin = 0;
+    while (highend == 0 && bin + 1 < num_bins) {
+	highend = bins[++bin]; // percentiles start in the first used bin
+    }
     while (!(targetnumber <= highend)) {
 	lowend = highend;
 	highend += bins[++bin];
@@ -494,7 +500,7 @@ double StatsHistogramLog::percentile(double p) const {
     //
     if (highend == lowend) {
 	// we hit a point where highend == lowend == targetnumber
-	SINVARIANT(bin == 0);  // the only place where this can occur?
+	SINVARIANT(count() == 0);  // the only case where this can occur
 	return 0; 
     }
     return (binOffset(bin+(targetnumber-lowend)/(highend-lowend)));
-- 
2.43.0


From b37cdd9690977bd187f3164348512863848fb0af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:21 +0000
Subject: [PATCH 35/95] fix: histograms release the bins they replace and
 accumulated values

---
 src/StatsHistogram.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/StatsHistogram.cpp b/src/StatsHistogram.cpp
index 76a7a99..418c3b3 100644
--- a/src/StatsHistogram.cpp
+++ b/src/StatsHistogram.cpp
@@ -121,7 +121,7 @@ void StatsHistogramUniform::add(const double value) {
 	    // zero the new bins, and then copy the old values over
 	    memset(&new_bins[0], 0,        new_num_bins*sizeof(unsigned long));
 	    memcpy(&new_bins[0], &old_bins[0], num_bins*sizeof(unsigned long));
-	    //	    delete old_bins; // suppressed for now ...
+	    delete[] old_bins;
 	    bins = new_bins;
 	    num_bins = new_num_bins;
 	    bin_high = bin_low + new_num_bins * bin_width;
@@ -140,7 +140,7 @@ void StatsHistogramUniform::add(const double value) {
 	    memset(new_bins, 0, sizeof(long) * new_num_bins);
 	    memcpy(&new_bins[new_num_bins - num_bins],
 		   &old_bins[0], num_bins*sizeof(unsigned long));
-	    // delete old_bins;
+	    delete[] old_bins;
 	    bins = new_bins;
 	    num_bins = new_num_bins;
 	    bin_low = bin_high - new_num_bins * bin_width;
@@ -733,8 +733,8 @@ StatsHistogramLogAccum::StatsHistogramLogAccum(const unsigned bins_in,
 }
 
 StatsHistogramLogAccum::~StatsHistogramLogAccum() {
-    delete[] bins;
-    bins = NULL;
+    delete[] val_bins;
+    val_bins = NULL;
 }
 
 void StatsHistogramLogAccum::reset() {
-- 
2.43.0


From fedf57b6ae833c47db6fd3ca859f84eb5c7d39ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:21 +0000
Subject: [PATCH 36/95] fix: log histogram reports that it is scalable and how
 often it rescaled

---
 include/Lintel/StatsHistogram.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/Lintel/StatsHistogram.hpp b/include/Lintel/StatsHistogram.hpp
index 49e743d..b44ed0d 100644
--- a/include/Lintel/StatsHistogram.hpp
+++ b/include/Lintel/StatsHistogram.hpp
@@ -198,8 +198,8 @@ public:
     double high() const { return bin_high; };
     double binhigh(unsigned index) const { return binOffset(index+1); };
     unsigned  numBins() const { return num_bins; }
-    unsigned  numRescales()  const { return 0; }
-    bool     isScalable()   const { return false; }
+    unsigned  numRescales()  const { return num_rescales; }
+    bool     isScalable()   const { return is_scalable; }
     unsigned  numGrows()  const { return 0; }
     bool     isGrowable()   const { return false; }
     double   mode() const;
-- 
2.43.0


From e7c3577b577dbc3522ff61b8328eafbd5bb345e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:54 +0000
Subject: [PATCH 37/95] fix: growing histogram keeps an even number of bins

---
 src/StatsHistogram.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/StatsHistogram.cpp b/src/StatsHistogram.cpp
index 418c3b3..394adc6 100644
--- a/src/StatsHistogram.cpp
+++ b/src/StatsHistogram.cpp
@@ -112,7 +112,7 @@ void StatsHistogramUniform::add(const double value) {
 		      boost::format("StatsHistogramUniform: unreasonably"
 				    "large upper value: %g") % value);
 	    unsigned new_num_bins // round to an even number
-		= 2 * ((unsigned)floor((value - bin_low) / bin_width) + 1)/2;
+		= 2 * (((unsigned)floor((value - bin_low) / bin_width) + 2)/2);
 	    if (new_num_bins < num_bins * 2)
 		new_num_bins = num_bins * 2; // at least double the bin count
 	    unsigned long *new_bins = new unsigned long[new_num_bins];
@@ -130,7 +130,7 @@ void StatsHistogramUniform::add(const double value) {
 		      boost::format("unreasonably large lower value: %lg")
 		      % value);
 	    unsigned new_num_bins // round to an even number
-		= 2 * ((unsigned)floor((bin_high - value) / bin_width) + 1)/2;
+		= 2 * (((unsigned)floor((bin_high - value) / bin_width) + 2)/2);
 	    if (new_num_bins < num_bins * 2)
 		new_num_bins = num_bins * 2; // at least double the bin count
 	    unsigned long *new_bins = new unsigned long[new_num_bins];
-- 
2.43.0


From 3ddcf5e897be7b04cbe4e214a2857828461e54c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:02 +0000
Subject: [PATCH 38/95] fix: BitsetAnyTupleHash uses the any bits, so that it
 compiles

---
 include/Lintel/Tuples.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Lintel/Tuples.hpp b/include/Lintel/Tuples.hpp
index 140f541..495f8a9 100644
--- a/include/Lintel/Tuples.hpp
+++ b/include/Lintel/Tuples.hpp
@@ -252,7 +252,7 @@ namespace tuples {
     /// \brief class for hashing BitsetAnyTuple's
     template<class Tuple> struct BitsetAnyTupleHash {
         uint32_t operator()(const BitsetAnyTuple<Tuple> &v) const {
-            return lintel::tuples::bitset_any_hash(v.data, v.used, 0);
+            return lintel::tuples::bitset_any_hash(v.data, v.any, 0);
         }
     };
 
-- 
2.43.0


From c31c3f2808b2709b174d673cb55ddc0b13c92258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:02 +0000
Subject: [PATCH 39/95] fix: Marsaglia generators start at a defined position
 for a seed

---
 include/Lintel/MarsagliaRandom.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/Lintel/MarsagliaRandom.hpp b/include/Lintel/MarsagliaRandom.hpp
index c60a73f..290a9f4 100644
--- a/include/Lintel/MarsagliaRandom.hpp
+++ b/include/Lintel/MarsagliaRandom.hpp
@@ -104,6 +104,7 @@ namespace lintel {
                 x[i] = r.randInt();
             }
             c = r.randIntUnbiased(A);
+            i = SIZE - 1; // the first call moves on to x[0]
         }
         
         inline uint32_t randInt() {
-- 
2.43.0


From 393244093578ea9bd1ae4b1095771ddd05caf631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:02 +0000
Subject: [PATCH 40/95] fix: Marsaglia generators of every size take a seed

---
 include/Lintel/MarsagliaRandom.hpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/include/Lintel/MarsagliaRandom.hpp b/include/Lintel/MarsagliaRandom.hpp
index 290a9f4..03aba93 100644
--- a/include/Lintel/MarsagliaRandom.hpp
+++ b/include/Lintel/MarsagliaRandom.hpp
@@ -142,35 +142,51 @@ namespace lintel {
     
     template <>
     class Marsaglia<2048> : public MarsagliaInner<2048, 1047570LL> {
+    public:
+        Marsaglia(uint32_t seed=0) : MarsagliaInner<2048, 1047570LL>(seed) { }
     };
     
     
     template <>
     class Marsaglia<1024> : public MarsagliaInner<1024, 123471786LL> {
+    public:
+        Marsaglia(uint32_t seed=0) : MarsagliaInner<1024, 123471786LL>(seed) { }
     };
     
     template <>
     class Marsaglia<512> : public MarsagliaInner<512,123554632LL> {
+    public:
+        Marsaglia(uint32_t seed=0) : MarsagliaInner<512,123554632LL>(seed) { }
     };
     
     template <>
     class Marsaglia<256> : public MarsagliaInner<256,8001634LL> {
+    public:
+        Marsaglia(uint32_t seed=0) : MarsagliaInner<256,8001634LL>(seed) { }
     };
     
     template <>
     class Marsaglia<128> : public MarsagliaInner<128,8007626LL> {
+    public:
+        Marsaglia(uint32_t seed=0) : MarsagliaInner<128,8007626LL>(seed) { }
     };
     
     template <>
     class Marsaglia<64> : public MarsagliaInner<64,647535442LL> {
+    public:
+        Marsaglia(uint32_t seed=0) : MarsagliaInner<64,647535442LL>(seed) { }
     };
     
     template <>
     class Marsaglia<32> : public MarsagliaInner<32,547416522LL> {
+    public:
+        Marsaglia(uint32_t seed=0) : MarsagliaInner<32,547416522LL>(seed) { }
     };
     
     template <>
     class Marsaglia<16> : public MarsagliaInner<16,487198574LL> {
+    public:
+        Marsaglia(uint32_t seed=0) : MarsagliaInner<16,487198574LL>(seed) { }
     };
     
     template <>
-- 
2.43.0


From 85cccafd3ed08296435c24f2b8bb789d7ab2c0b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:02 +0000
Subject: [PATCH 41/95] fix: reseeding a generator drops the boolean bits of
 the previous seed

---
 include/Lintel/RandomBase.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/Lintel/RandomBase.hpp b/include/Lintel/RandomBase.hpp
index 855385c..b90ce02 100644
--- a/include/Lintel/RandomBase.hpp
+++ b/include/Lintel/RandomBase.hpp
@@ -24,10 +24,12 @@ namespace lintel {
 
         inline void init(uint32_t seed) {
             R::init(seed);
+            boolShift = 0; // drop bits left from the previous seed
         }
 
         inline void initArray(std::vector<uint32_t> seed_array) {
             R::initArray(seed_array);
+            boolShift = 0;
         }       
 
         inline uint32_t randInt() {
-- 
2.43.0


From 9d44fb4db47781dcaa714c584ac13e58d9c0322d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:02 +0000
Subject: [PATCH 42/95] fix: seeding the Mersenne twister from an empty array
 is refused

---
 src/MersenneTwisterRandom.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/MersenneTwisterRandom.cpp b/src/MersenneTwisterRandom.cpp
index 916013c..8fa086c 100644
--- a/src/MersenneTwisterRandom.cpp
+++ b/src/MersenneTwisterRandom.cpp
@@ -144,6 +144,7 @@ void
 MersenneTwisterInternal::initArray(std::vector<uint32_t> seed_array)
 {
     int i, j, k;
+    INVARIANT(!seed_array.empty(), "need at least one value to seed with");
     init(19650218UL);
     i=1; j=0;
     k = (N>(int)seed_array.size() ? N : seed_array.size());
-- 
2.43.0


From ebb517a6e1eacde700f58406e0eeba5620e25a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:02 +0000
Subject: [PATCH 43/95] fix: small Marsaglia generator shifts all four words of
 its state

---
 include/Lintel/MarsagliaRandom.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Lintel/MarsagliaRandom.hpp b/include/Lintel/MarsagliaRandom.hpp
index 03aba93..b0620a3 100644
--- a/include/Lintel/MarsagliaRandom.hpp
+++ b/include/Lintel/MarsagliaRandom.hpp
@@ -40,7 +40,7 @@ namespace lintel {
             static const uint32_t b = 4;
             static const uint32_t c = 21;
             t=(x^(x<<a));
-            x=y; y=z; x=w;  // Shift 'em down.
+            x=y; y=z; z=w;  // Shift 'em down.
             return w=(t^(t>>b))^(w^(w>>c));
             //return w=(w^(w>>c))^(t^(t>>b));
         }
-- 
2.43.0


From 1616f90637930eac68ca86cac5547708375eefff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:02 +0000
Subject: [PATCH 44/95] fix: arguments after -- are not taken for testing
 options

---
 src/ProgramOptions.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/ProgramOptions.cpp b/src/ProgramOptions.cpp
index 6872917..f25acf8 100644
--- a/src/ProgramOptions.cpp
+++ b/src/ProgramOptions.cpp
@@ -201,10 +201,11 @@ namespace lintel {
             runProgramOptionInitFns();
             po::variables_map var_map;
             vector<string> unrecognized;
-            basicParseCommandLine(parser, detail::programOptionsDesc(), var_map, unrecognized);
-	    
-	    po::command_line_parser hidden(unrecognized);
-	    basicParseCommandLine(hidden, detail::programOptionsDesc(true), var_map, unrecognized);
+            // one pass over both groups; a second pass over what the first one left would take
+            // arguments after -- for options.
+            po::options_description all;
+            all.add(detail::programOptionsDesc()).add(detail::programOptionsDesc(true));
+            basicParseCommandLine(parser, all, var_map, unrecognized);
 
             INVARIANT(allow_unrecognized || unrecognized.empty(), boost::format
                       ("Unexpected option '%s'; try %s -h for help")
-- 
2.43.0


From bfc22062b4298c62241e958325ae15bfb8e2f5f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:02 +0000
Subject: [PATCH 45/95] fix: new log categories get the level set last for
 their prefix

---
 src/LintelLog.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LintelLog.cpp b/src/LintelLog.cpp
index 0d2b061..cd9377d 100644
--- a/src/LintelLog.cpp
+++ b/src/LintelLog.cpp
@@ -254,11 +254,11 @@ uint32_t LintelLog::lockedCategoryToId(const string &category) {
 	instance->category2id[category] = ret;
 	instance->debug_levels.resize(ret+1);
 	SINVARIANT(instance->debug_levels[ret] == 0);
+	// same result as if the category had existed when the levels were set: last match wins
 	for(vector<instance_data::complex_match *>::iterator i = instance->complex_matches.begin(); 
 	    i != instance->complex_matches.end(); ++i) {
 	    if (prefixequal(category, (**i).first)) {
 		instance->debug_levels[ret] = (**i).second;
-		break; // first match
 	    }
 	}
     }
-- 
2.43.0


From 462227957b0eac33e75f579d3418138b61888b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:02 +0000
Subject: [PATCH 46/95] fix: debug levels above 255 are refused instead of
 wrapping around

---
 src/LintelLog.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/LintelLog.cpp b/src/LintelLog.cpp
index cd9377d..663ee80 100644
--- a/src/LintelLog.cpp
+++ b/src/LintelLog.cpp
@@ -60,7 +60,10 @@ void LintelLog::parseDebugString(const string &debug_options) {
 	if (subparts.size() == 1) {
 	    setDebugLevel(*i, 1);
 	} else {
-	    setDebugLevel(subparts[0], stringToInteger<uint32_t>(subparts[1]));
+	    uint32_t level = stringToInteger<uint32_t>(subparts[1]);
+	    INVARIANT(level <= 255, format("debug level %d for %s is above 255")
+		      % level % subparts[0]);
+	    setDebugLevel(subparts[0], level);
 	}
     }
 }
-- 
2.43.0


From e269898ea00782020604e838e2bea63c3d8a2c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:02 +0000
Subject: [PATCH 47/95] fix: time in log messages shows all six digits of the
 microseconds

---
 src/LintelLog.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/LintelLog.cpp b/src/LintelLog.cpp
index 663ee80..756140d 100644
--- a/src/LintelLog.cpp
+++ b/src/LintelLog.cpp
@@ -189,12 +189,12 @@ void LintelLog::consoleTimeAppender(const std::string &msg, LogType logtype) {
 	{
 	case Report: cout << msg << "\n"; break;
 	case Debug: case Info:
-	    cout << format("%s @%d.%d: %s\n") % logTypeToString(logtype) 
+	    cout << format("%s @%d.%06d: %s\n") % logTypeToString(logtype) 
 		% t.tv_sec % t.tv_usec % msg;
 	    break;
 	case Warn: case Error:
 	    cout.flush();
-	    cerr << format("%s @%d.%d: %s") % logTypeToString(logtype) 
+	    cerr << format("%s @%d.%06d: %s") % logTypeToString(logtype) 
 		% t.tv_sec % t.tv_usec % msg << endl;
 	    break;
 	default: FATAL_ERROR("unknown log type");
-- 
2.43.0


From ecace6079b7e938431a1551f4e24786b8fb52e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:02 +0000
Subject: [PATCH 48/95] fix: an exception in the log or an appender does not
 leave the log locked

---
 src/LintelLog.cpp | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/src/LintelLog.cpp b/src/LintelLog.cpp
index 756140d..70ac04a 100644
--- a/src/LintelLog.cpp
+++ b/src/LintelLog.cpp
@@ -35,10 +35,9 @@ bool LintelLog::wouldDebug(const string &category, unsigned level) {
 
 void LintelLog::reserveCategories(unsigned max_categories) {
     maybeInitInstance();
-    instance->mutex.lock();
+    SimpleScopedLock lock(instance->mutex);
     SINVARIANT(max_categories >= instance->debug_levels.size());
     instance->debug_levels.reserve(max_categories);
-    instance->mutex.unlock();
 }
 
 void LintelLog::parseEnv() {
@@ -85,7 +84,9 @@ void LintelLog::setDebugLevel(const string &category, uint8_t level) {
     // Assuming that readers will either see the old or the new value, and
     // hence we won't have to lock the read path.  This is why the strings are
     // stored in a pointer.
-    instance->mutex.lock();
+    uint32_t id;
+    {
+    SimpleScopedLock lock(instance->mutex);
 
     // TODO: add support for starting with ( and ending with ) to be a regex match if we 
     // have the pcre library.
@@ -106,14 +107,13 @@ void LintelLog::setDebugLevel(const string &category, uint8_t level) {
                 instance->debug_levels[i->second] = level;
             }
 	}
-	instance->mutex.unlock();
-    } else {
-	uint32_t id = lockedCategoryToId(category);
-	SINVARIANT(id < instance->debug_levels.size());
-	instance->debug_levels[id] = level;
-	instance->mutex.unlock();
-	maybeCategoryLimitWarning(id);
+	return;
     }
+    id = lockedCategoryToId(category);
+    SINVARIANT(id < instance->debug_levels.size());
+    instance->debug_levels[id] = level;
+    }
+    maybeCategoryLimitWarning(id);
 }
 
 void LintelLog::debugMessagesInitial() {
@@ -141,9 +141,8 @@ void LintelLog::debugMessagesFinal() {
 
 void LintelLog::addAppender(appender_fn fn) {
     maybeInitInstance();
-    instance->mutex.lock();
+    SimpleScopedLock lock(instance->mutex);
     instance->appenders.push_back(fn);
-    instance->mutex.unlock();
 }
 
 static string str_empty("");
@@ -210,7 +209,7 @@ void LintelLog::log(const string &msg, const LogType log_type) {
     // timedLock, but that doesn't work becuase the instance mutex is a 
     // simple mutex so that it works without being linked with libpthread.
     // Not clear what the right solution is.
-    instance->mutex.lock();
+    SimpleScopedLock lock(instance->mutex);
     if (instance->appenders.empty()) {
 	consoleAppender(msg, log_type);
     } else {
@@ -219,14 +218,15 @@ void LintelLog::log(const string &msg, const LogType log_type) {
 	    (*i)(msg, log_type);
 	}
     }
-    instance->mutex.unlock();
 }
 
 uint32_t LintelLog::categoryToId(const string &category) {
     maybeInitInstance();
-    instance->mutex.lock();
-    uint32_t ret = lockedCategoryToId(category);
-    instance->mutex.unlock();
+    uint32_t ret;
+    {
+	SimpleScopedLock lock(instance->mutex);
+	ret = lockedCategoryToId(category);
+    }
 
     maybeCategoryLimitWarning(ret);
     return ret;
-- 
2.43.0


From da96302dbdf316bf3d74a60edad1092d8e23d551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:42 +0000
Subject: [PATCH 49/95] fix: waitPid returns the status of a child that an exit
 function waited for

---
 src/Lintel/ProcessManager.pm | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/Lintel/ProcessManager.pm b/src/Lintel/ProcessManager.pm
index 21cf30e..f1f3319 100644
--- a/src/Lintel/ProcessManager.pm
+++ b/src/Lintel/ProcessManager.pm
@@ -320,6 +320,8 @@ sub wait {
             warn "Unexpected pid $child exited with status $status";
         } else {
             my $fn = $this->{children}->{$child}->{exitfn};
+            # waitPid keeps a reference to this, an exitfn that calls wait can see the exit first.
+            $this->{children}->{$child}->{status} = $status;
             delete $this->{children}->{$child}; # in case fn calls wait
             &$fn($child, $status) if defined $fn;
         }
@@ -415,11 +417,11 @@ sub waitPid {
 	return undef;
     }
 
-    while (exists $this->{children}->{$pid}) {
-	my %pid_to_status = $this->wait();
-	return $pid_to_status{$pid} if defined $pid_to_status{$pid};
+    my $child = $this->{children}->{$pid};
+    until (defined $child->{status}) {
+	$this->wait();
     }
-    die "Internal error: had child $pid at start, but vanished without getting status.";
+    return $child->{status};
 }
 
 =pod
-- 
2.43.0


From 3a63526385a2896a9714f3673f6a55aae682fca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:42 +0000
Subject: [PATCH 50/95] fix: signal function is given the process manager as
 documented

---
 src/Lintel/ProcessManager.pm | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Lintel/ProcessManager.pm b/src/Lintel/ProcessManager.pm
index f1f3319..8c8344a 100644
--- a/src/Lintel/ProcessManager.pm
+++ b/src/Lintel/ProcessManager.pm
@@ -445,7 +445,7 @@ sub enableSignals {
 	confess "signal recursion" if $this->{in_signal_handler};
 	++$this->{in_signal_handler};
 
-	&$fn if defined $fn;
+	&$fn($this) if defined $fn;
 
 	--$this->{in_signal_handler};
 	$SIG{CHLD} = $this->{signal_handler_fn};
-- 
2.43.0


From b19d87860db632b5c73bd131c59f3226356a25a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:42 +0000
Subject: [PATCH 51/95] fix: a signal function that dies does not disable wait
 and later signals

---
 src/Lintel/ProcessManager.pm | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/Lintel/ProcessManager.pm b/src/Lintel/ProcessManager.pm
index 8c8344a..04e0f8b 100644
--- a/src/Lintel/ProcessManager.pm
+++ b/src/Lintel/ProcessManager.pm
@@ -443,11 +443,9 @@ sub enableSignals {
 
     $this->{signal_handler_fn} = sub {
 	confess "signal recursion" if $this->{in_signal_handler};
-	++$this->{in_signal_handler};
+	local $this->{in_signal_handler} = 1;
 
 	&$fn($this) if defined $fn;
-
-	--$this->{in_signal_handler};
 	$SIG{CHLD} = $this->{signal_handler_fn};
     };
 
-- 
2.43.0


From ceab2ca3d050a9f52638f20691c044e8cad34909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:47 +0000
Subject: [PATCH 52/95] fix: O_RDONLY can be given as the flags of a file lock

---
 src/Lintel/File/Lock.pm | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Lintel/File/Lock.pm b/src/Lintel/File/Lock.pm
index c0c4605..443033f 100755
--- a/src/Lintel/File/Lock.pm
+++ b/src/Lintel/File/Lock.pm
@@ -71,8 +71,8 @@ sub getLockEx {
 sub getLock {
     my ($filename, $waittime, $verbose, $flags, $mode) = @_;
     die "?" unless defined $filename;
-    $flags ||= O_CREAT | O_RDWR;
-    $mode ||= 0666;
+    $flags = O_CREAT | O_RDWR unless defined $flags;
+    $mode = 0666 unless defined $mode;
 
     my $fh;
     sysopen($fh, $filename, $flags, $mode)
-- 
2.43.0


From 300ae08683f8e7afaedb18e5ce19d62b3ae613ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:47 +0000
Subject: [PATCH 53/95] fix: a failing flock is an error even when a wait time
 is given, not a lock in use

---
 src/Lintel/File/Lock.pm | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Lintel/File/Lock.pm b/src/Lintel/File/Lock.pm
index 443033f..5b62451 100755
--- a/src/Lintel/File/Lock.pm
+++ b/src/Lintel/File/Lock.pm
@@ -2,6 +2,7 @@ package Lintel::File::Lock;
 use strict;
 use warnings;
 use Fcntl qw/:flock :DEFAULT/;
+use Errno;
 use FileHandle;
 
 =pod
@@ -84,7 +85,7 @@ sub getLock {
 	    my $ret = flock($fh, LOCK_EX|LOCK_NB);
 	    if ($ret) {
 		return $fh;
-	    } elsif (! defined $ret) {
+	    } elsif (! $!{EWOULDBLOCK} && ! $!{EINTR}) {
 	        die "flock($filename, LOCK_EX|LOCK_NB) failed: $!";
 	    }
 
-- 
2.43.0


From f48fb8da2e42e05bf7faab39317f33656bde8c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:48 +0000
Subject: [PATCH 54/95] fix: a signal while waiting for a file lock does not
 end the wait

---
 src/Lintel/File/Lock.pm | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Lintel/File/Lock.pm b/src/Lintel/File/Lock.pm
index 5b62451..31cb3d5 100755
--- a/src/Lintel/File/Lock.pm
+++ b/src/Lintel/File/Lock.pm
@@ -97,7 +97,8 @@ sub getLock {
 	    sleep(1);
 	}
     } else {
-	unless(flock($fh,LOCK_EX)) {
+	until(flock($fh,LOCK_EX)) {
+	    next if $!{EINTR};
 	    die "flock($filename, LOCK_EX) failed: $!";
 	}
 	return $fh;
-- 
2.43.0


From 51cdee55ee2be64eaf0aa9a21d45bb294a800a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:47 +0000
Subject: [PATCH 55/95] fix: splitSQL ends when the text ends inside a comment
 or string

---
 src/Lintel/DBI.pm | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/Lintel/DBI.pm b/src/Lintel/DBI.pm
index b5533f7..57c95b5 100644
--- a/src/Lintel/DBI.pm
+++ b/src/Lintel/DBI.pm
@@ -420,6 +420,8 @@ sub nextStatement {
 	# may hide a ';'.  State transitions below keep track of comments
 	# and string delimiters that could hide a ';'.
 	my ($brk) = ($continue =~ /("|'|;|--|\n)/);
+	# EOF, even if inside a comment or string; return nothing
+	return (undef, length($sql)) unless defined $brk;
 	$cursor += index($continue, $brk)+length($brk);
 #	print "'$brk' at $cursor\n";
 	if ($state eq 'ready') {
@@ -432,10 +434,6 @@ sub nextStatement {
 		# state until a newline is found
 		$state = 'comment';
 	    }
-	    if ($brk eq '') {
-		# EOF, return nothing
-		return (undef, $cursor);
-	    }
 	    if ($brk eq "\"" || $brk eq "'") {
 		# if inside a quoted string then ';' doesn't count. 
 		# Change state until a matching quote is found. SQL
-- 
2.43.0


From a0f079475d8e8a80e3ae756a95ac49a251ece652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:47 +0000
Subject: [PATCH 56/95] fix: a failed transaction raises the error that made it
 fail, whatever rollback does

---
 src/Lintel/DBI.pm | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/Lintel/DBI.pm b/src/Lintel/DBI.pm
index 57c95b5..129cc58 100644
--- a/src/Lintel/DBI.pm
+++ b/src/Lintel/DBI.pm
@@ -295,11 +295,13 @@ sub transaction {
         $self->commitTxn();
     };
     if ($@) {
-        $self->rollbackTxn();
+	my $error = $@; # rollback can change $@
+	eval { $self->rollbackTxn(); };
+	warn "Rollback failed: $@" if $@;
 	if ($self->{trace_errors}) {
-	    confess("Transaction aborted.  Error: $@");
+	    confess("Transaction aborted.  Error: $error");
 	} else {
-	    die $@;
+	    die $error;
 	}
     }
 }
-- 
2.43.0


From 3f076f1b0092de5b4f61ff60d776ef041a74040a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:47 +0000
Subject: [PATCH 57/95] fix: setConfig refuses reserved names as documented

---
 src/Lintel/DBI.pm | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Lintel/DBI.pm b/src/Lintel/DBI.pm
index 129cc58..5705d52 100644
--- a/src/Lintel/DBI.pm
+++ b/src/Lintel/DBI.pm
@@ -485,7 +485,7 @@ will die if the client tries to set a key with the prefix 'lintel-dbi-'.
 
 sub setConfig {
     my ($self, $name, $value) = @_;
-    cluck("$prefix is a reserved namespace") if ($name =~ /^$prefix/o);
+    confess("$prefix is a reserved namespace") if ($name =~ /^$prefix/o);
     $self->dbiSetConfig($name, $value);
 }
 
-- 
2.43.0


From 3bdc5c7eab24d17ab8e7d953fe4e3edee5776017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:47 +0000
Subject: [PATCH 58/95] fix: getConfig prepares its statement again if the
 table did not exist yet

---
 src/Lintel/DBI.pm | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Lintel/DBI.pm b/src/Lintel/DBI.pm
index 5705d52..4031ec6 100644
--- a/src/Lintel/DBI.pm
+++ b/src/Lintel/DBI.pm
@@ -514,7 +514,7 @@ Returns the value of the config key specified, or undef if none is defined.
 
 sub getConfig {
     my ($self, $name) = @_;
-    if (! defined($self->{sth}->{__definitions}->{lintelDbiGetConfig})) {
+    if (! defined($self->{sth}->{lintelDbiGetConfig})) {
 	$self->{dbh}->{PrintError} = 0;
 	$self->{dbh}->{RaiseError} = 0;
         $self->load_sths(lintelDbiGetConfig => 
-- 
2.43.0


From a4f2a90c31a2214485b7a8b41907b7a881a859c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:47 +0000
Subject: [PATCH 59/95] fix: setupSchema accepts the schema version that it has
 just installed

---
 src/Lintel/DBI.pm | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Lintel/DBI.pm b/src/Lintel/DBI.pm
index 4031ec6..1917dbe 100644
--- a/src/Lintel/DBI.pm
+++ b/src/Lintel/DBI.pm
@@ -672,6 +672,7 @@ you can eliminate this warning by making your sql an array reference."
 		$sql = [$sql];
 	    }
 	    $self->loadSchema($migrate->{init}->{to_version}, $sql);
+	    $db_version = $migrate->{init}->{to_version};
 	} else {
 	    die "There is no schema installed for $self->{application}";
 	}
-- 
2.43.0


From b34fa929460b7b0ec9d9b45e3013ca9fd1123c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:01 +0000
Subject: [PATCH 60/95] fix: batch-parallel --batch-workdir takes the directory
 it is documented to take

---
 src/batch-parallel.in | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/batch-parallel.in b/src/batch-parallel.in
index b7e2b86..f303b66 100755
--- a/src/batch-parallel.in
+++ b/src/batch-parallel.in
@@ -71,7 +71,7 @@ my $ret = GetOptions('man!' => \$print_manpage,
 		     'maxgroups=i' => \$batch_maxgroups,
 		     'shuffle!' => \$shuffle,
 		     'show-rebuild!' => \$show_rebuild,
-		     'batch-workdir' => \$batch_workdir,
+		     'batch-workdir=s' => \$batch_workdir,
 		     'transfer-env!' => \$transfer_env);
 
 my @bp_module_dirs = ("$ENV{HOME}/.batch-parallel/modules", 
-- 
2.43.0


From 81b7036af9c3ad7bb974275de99343587b1680d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:01 +0000
Subject: [PATCH 61/95] fix: batch jobs find a batch-parallel module that was
 given with a path

---
 src/batch-parallel.in | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/batch-parallel.in b/src/batch-parallel.in
index f303b66..6dbf60c 100755
--- a/src/batch-parallel.in
+++ b/src/batch-parallel.in
@@ -386,7 +386,7 @@ sub codine_submit {
     print "and batch size $batch_size\n";
     my $njobs = ceil(@things_to_build / $batch_size);
 
-    my $cmd = "qsub -b y -r y -cwd -t 1-$njobs -o $workdir/'log.\$TASK_ID' -j y $0 --codineexec=$batch_size $bp_module_name -- $workdir";
+    my $cmd = "qsub -b y -r y -cwd -t 1-$njobs -o $workdir/'log.\$TASK_ID' -j y $0 --codineexec=$batch_size $bp_fullpath -- $workdir";
     if ($no_exec) {
 	print "should run $cmd\n";
     } else {
@@ -415,7 +415,7 @@ sub lsf_submit {
     my $resource_usage = $module->getResourceUsage('lsf');
     $resource_usage = "-R '$resource_usage'"
 	unless $resource_usage eq '';
-    my $cmd = "bsub $queue -r $resource_usage -J '$jobname' -o $workdir/log.%I $0 --lsfexec=$batch_size $bp_module_name -- $workdir";
+    my $cmd = "bsub $queue -r $resource_usage -J '$jobname' -o $workdir/log.%I $0 --lsfexec=$batch_size $bp_fullpath -- $workdir";
     if ($no_exec) {
 	# TODO: make this print out what we will rebuild...
 	print "should run $cmd\n";
-- 
2.43.0


From 2f25b3a806c0d80240a12bd8a82391632c54a122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:48 +0000
Subject: [PATCH 62/95] fix: batch-parallel does not pass the -- before the
 directories on to the module

---
 src/batch-parallel.in | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/batch-parallel.in b/src/batch-parallel.in
index 6dbf60c..2975779 100755
--- a/src/batch-parallel.in
+++ b/src/batch-parallel.in
@@ -57,6 +57,8 @@ while(@ARGV > 0 && $ARGV[@ARGV-1] ne '--') {
 if (@ARGV == 0) {
     @ARGV = @dirs;
     @dirs = ();
+} else {
+    pop @ARGV; # the -- before the directories is not a module argument
 }
 
 my $ret = GetOptions('man!' => \$print_manpage,
-- 
2.43.0


From b02fb315b96539cb7743379011eb88421537db83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:48 +0000
Subject: [PATCH 63/95] fix: batch-parallel make -n shows each file's own
 commands

---
 src/BatchParallel/make.pm | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/BatchParallel/make.pm b/src/BatchParallel/make.pm
index 8169d75..c354849 100644
--- a/src/BatchParallel/make.pm
+++ b/src/BatchParallel/make.pm
@@ -116,7 +116,8 @@ sub do_rebuild {
     my($this, $src_path, $dest_path, $tmpdir, $mock) = @_;
 
     die "??" unless $tmpdir =~ m!^/!o;
-    foreach my $cmd (@{$this->{commands}}) {
+    foreach my $template (@{$this->{commands}}) {
+	my $cmd = $template;
 	$cmd =~ s/\$</$src_path/g;
 	$cmd =~ s/\$@/$dest_path/g;
 	$cmd =~ s/\$TMP/$tmpdir/g;
-- 
2.43.0


From 949ac411359bedc6903b2bae77faea6b934ea7cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:48 +0000
Subject: [PATCH 64/95] fix: batch-parallel processes a file found through two
 arguments once

---
 src/BatchParallel/common.pm | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/BatchParallel/common.pm b/src/BatchParallel/common.pm
index 8ff6979..1e1e043 100644
--- a/src/BatchParallel/common.pm
+++ b/src/BatchParallel/common.pm
@@ -182,7 +182,8 @@ sub find_possibles {
 	print "\n";
     }
 
-    @possibles = sort { $a->[1] cmp $b->[1] } @possibles;
+    my %seen; # overlapping directories find the same file more than once
+    @possibles = grep { !$seen{$_->[1]}++ } sort { $a->[1] cmp $b->[1] } @possibles;
     return @possibles;
 }
 
-- 
2.43.0


From d6fcc85f98cddd12a102145b2600c860f0886030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:48 +0000
Subject: [PATCH 65/95] fix: batch-parallel refuses to build two sources into
 one destination

---
 src/BatchParallel/common.pm | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/BatchParallel/common.pm b/src/BatchParallel/common.pm
index 1e1e043..d1d6c7b 100644
--- a/src/BatchParallel/common.pm
+++ b/src/BatchParallel/common.pm
@@ -141,12 +141,16 @@ sub determine_things_to_build {
     my($this,$possible) = @_;
 
     my @things_to_build;
+    my %source_for;
     foreach my $ent (@$possible) {
 	my ($prefix,$fullpath) = @$ent;
 
 	my $destfile = $this->destination_file($prefix,$fullpath);
 	if (! -f $destfile ||
 	    $this->destfile_out_of_date($prefix,$fullpath,$destfile)) {
+	    die "Both $source_for{$destfile} and $fullpath would be built into $destfile"
+		if defined $source_for{$destfile};
+	    $source_for{$destfile} = $fullpath;
 	    push(@things_to_build, [ $prefix, $fullpath, $destfile ]);
 	} 
     }
-- 
2.43.0


From df0aa27233b5b33e61fa195940d34a40e2835f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:48 +0000
Subject: [PATCH 66/95] fix: batch-parallel compress quotes file names in its
 commands

---
 src/BatchParallel/compress.pm | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/BatchParallel/compress.pm b/src/BatchParallel/compress.pm
index a3991b8..feaee85 100644
--- a/src/BatchParallel/compress.pm
+++ b/src/BatchParallel/compress.pm
@@ -87,13 +87,22 @@ sub fail {
     die @_;
 }
 
+sub shell_quote {
+    my($path) = @_;
+
+    $path =~ s/'/'\\''/go;
+    return "'$path'";
+}
+
 sub rebuild {
     my($this,$prefix,$fullpath,$destpath) = @_;
 
-    my @cmds = ("cat $fullpath");
     my $origpath = $fullpath;
+    my $quoted_orig = shell_quote($origpath);
+    my $quoted_dest = shell_quote($destpath);
+    my @cmds = ("cat $quoted_orig");
     if ($fullpath =~ s/\.7z$//o) {
-	@cmds = ("7z x -so $origpath"); # 7z doesn't support being in a pipeline
+	@cmds = ("7z x -so $quoted_orig"); # 7z doesn't support being in a pipeline
     }
     while(1) {
 	if ($fullpath =~ s/\.gz$//o) {
@@ -111,14 +120,14 @@ sub rebuild {
     my $unpack_cmd;
 
     if ($this->{type} eq 'bz2') {
-	$pack_cmd = "bzip2 -v -$this->{level} >$destpath";
-	$unpack_cmd = "bunzip2 <$destpath";
+	$pack_cmd = "bzip2 -v -$this->{level} >$quoted_dest";
+	$unpack_cmd = "bunzip2 <$quoted_dest";
     } elsif ($this->{type} eq 'gz') {
-	$pack_cmd = "gzip -v -$this->{level} >$destpath";
-	$unpack_cmd = "gunzip <$destpath";
+	$pack_cmd = "gzip -v -$this->{level} >$quoted_dest";
+	$unpack_cmd = "gunzip <$quoted_dest";
     } elsif ($this->{type} eq '7z') {
-	$pack_cmd = "7z a -si -t7z -m0=lzma -mx=$this->{level} -mfb=64 -md=32m -ms=on $destpath";
-	$unpack_cmd = "7z x -so $destpath";
+	$pack_cmd = "7z a -si -t7z -m0=lzma -mx=$this->{level} -mfb=64 -md=32m -ms=on $quoted_dest";
+	$unpack_cmd = "7z x -so $quoted_dest";
     } else {
 	die "Unknown type $this->{type}";
     }
-- 
2.43.0


From 1361646ad999ecede59aab9e4107bed509d714ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:48 +0000
Subject: [PATCH 67/95] fix: batch-parallel compress notices when uncompressing
 the original fails

---
 src/BatchParallel/compress.pm | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/BatchParallel/compress.pm b/src/BatchParallel/compress.pm
index feaee85..a56b828 100644
--- a/src/BatchParallel/compress.pm
+++ b/src/BatchParallel/compress.pm
@@ -133,7 +133,9 @@ sub rebuild {
     }
 
     print "Repacking using $unpack_orig_cmd | $pack_cmd\n";
-    my $ret = system("$unpack_orig_cmd | $pack_cmd");
+    # without pipefail a truncated original would look like a short one
+    my @shell = qw/bash -o pipefail -c/;
+    my $ret = system(@shell, "$unpack_orig_cmd | $pack_cmd");
 
     unless($ret == 0) {
 	print "$unpack_orig_cmd | $pack_cmd >$destpath failed";
@@ -151,8 +153,8 @@ sub rebuild {
     }
 
     if ($this->{check}) {
-	open(F1,"$unpack_orig_cmd |") || fail($destpath,"can't run $unpack_orig_cmd: $!");
-	open(F2,"$unpack_cmd |") || fail($destpath,"can't run $unpack_cmd < $destpath: $!");
+	open(F1,"-|",@shell,$unpack_orig_cmd) || fail($destpath,"can't run $unpack_orig_cmd: $!");
+	open(F2,"-|",@shell,$unpack_cmd) || fail($destpath,"can't run $unpack_cmd < $destpath: $!");
 	my $bufsize = 64*1024;
 	my($f1,$f2);
 	my $total_bytes = 0;
@@ -165,6 +167,8 @@ sub rebuild {
 	    fail($destpath,"read data different") unless $f1 eq $f2;
 	    $total_bytes += $amt1;
 	}
+	close(F1) || fail($destpath,"$unpack_orig_cmd failed");
+	close(F2) || fail($destpath,"$unpack_cmd failed");
 	die "weird no bytes compressed, unknown error in unpacking??"
 	    if $total_bytes == 0;
     }
-- 
2.43.0


From 380946c190773ee3db1ac0a6ed796937a25baa9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:48 +0000
Subject: [PATCH 68/95] fix: batch-parallel compress removes the original only
 after its replacement is in place

---
 src/BatchParallel/compress.pm | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/BatchParallel/compress.pm b/src/BatchParallel/compress.pm
index a56b828..c5b8cf0 100644
--- a/src/BatchParallel/compress.pm
+++ b/src/BatchParallel/compress.pm
@@ -172,11 +172,18 @@ sub rebuild {
 	die "weird no bytes compressed, unknown error in unpacking??"
 	    if $total_bytes == 0;
     }
-    if ($this->{clean}) {
-	unlink($origpath);
-    }
     return 1;
 }
+
+sub rebuild_thing_success {
+    my($this,$thing_info) = @_;
+
+    $this->SUPER::rebuild_thing_success($thing_info);
+    if ($this->{clean}) { # only now is the data in its final place
+	my $origpath = $thing_info->[1];
+	unlink($origpath) || warn "unlink($origpath) failed: $!";
+    }
+}
 	    
 1;
 
-- 
2.43.0


From 0cebfc293d8d967cf5da0df4885d520ac9c1bee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:48 +0000
Subject: [PATCH 69/95] fix: batch-parallel checksum reports data it could not
 read or write instead of leaving a wrong checksum file

---
 src/BatchParallel/checksum.pm | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/BatchParallel/checksum.pm b/src/BatchParallel/checksum.pm
index 34388bb..9085808 100644
--- a/src/BatchParallel/checksum.pm
+++ b/src/BatchParallel/checksum.pm
@@ -90,7 +90,7 @@ sub fail {
 }
 
 sub checksum {
-    my($this, $source, $output, $filename) = @_;
+    my($this, $output, $filename, $mode, @source) = @_;
 
     foreach my $digest_type (sort keys %{$this->{digests}}) {
         my $digest_class;
@@ -100,12 +100,14 @@ sub checksum {
 
 	my $digest = $digest_class->new();
 
-	my $fh = new FileHandle($source)
-	    or die "Can't open $source for read: $!";
+	open(my $fh, $mode, @source)
+	    or die "Can't open @source for read: $!";
 	$digest->addfile($fh);
+	close($fh) or die "Reading @source failed: $!";
 	my $checksum = $digest->hexdigest();
 
-	print $output "$digest_type $checksum $filename\n";
+	print $output "$digest_type $checksum $filename\n"
+	    or die "Can't write checksum: $!";
     }
 }
 
@@ -118,17 +120,17 @@ sub rebuild {
     print "Calculating checksums for $fullpath\n";
     my $basename = $fullpath;
     $basename =~ s!^.*/!!o if $this->{basename};
-    $this->checksum($fullpath, $output, $basename);
+    $this->checksum($output, $basename, '<', $fullpath);
     if ($this->{uncompressed_also} && $fullpath =~ /\.((bz2)|(gz))$/o) {
 	$basename =~ s/\.((bz2)|(gz))$//o
 	    or die "??";
 	my $uncompress;
-	$uncompress = "gunzip -c" if $fullpath =~ /\.gz$/o;
-	$uncompress = "bunzip2 -c " if $fullpath =~ /\.bz2$/o;
-	$this->checksum("$uncompress < $fullpath |", $output, $basename);
+	$uncompress = "gunzip" if $fullpath =~ /\.gz$/o;
+	$uncompress = "bunzip2" if $fullpath =~ /\.bz2$/o;
+	$this->checksum($output, $basename, '-|', $uncompress, '-c', $fullpath);
     }
 
-    close($output);
+    close($output) or die "Can't write $destpath: $!";
     return 1;
 }
 
-- 
2.43.0


From 40169b4fce3770ef724b3471761531d02348a743 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 04:09:44 +0000
Subject: [PATCH 70/95] fix: inverseErf never returned for negative arguments

---
 src/MathSpecialFunctions.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/MathSpecialFunctions.cpp b/src/MathSpecialFunctions.cpp
index 287ab9f..50491e2 100644
--- a/src/MathSpecialFunctions.cpp
+++ b/src/MathSpecialFunctions.cpp
@@ -26,6 +26,10 @@ double inverseErf(double y)
 	return std::numeric_limits<double>::quiet_NaN();
     }
 
+    if (y < 0) { // the convergence test below is for positive values
+	return -inverseErf(-y);
+    }
+
     /*An initial guess, based on a formula from Abramovitz & Stegun Ch 26. */
     double x0=sqrt(-2.*log(0.5*(1 - y))); 
     x0=0.7071067811865476*(x0 - (2.515517 + x0*(0.802853 + x0*0.010328))/
-- 
2.43.0


From 5024298e2ba8b2299ba2be827039e55297e9e7a2 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 04:09:44 +0000
Subject: [PATCH 71/95] fix: converting a double to an integer rounded wrongly
 just below one half and above 2^52

---
 src/MathSpecialFunctions.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/MathSpecialFunctions.cpp b/src/MathSpecialFunctions.cpp
index 50491e2..d90e86e 100644
--- a/src/MathSpecialFunctions.cpp
+++ b/src/MathSpecialFunctions.cpp
@@ -149,12 +149,19 @@ bool isDoubleIntegral(double d, size_t target_size) {
 // correctly (i.e., the absolute of the mantissa is larger than
 // 63 or 31 bits)
 long convertDoubleLong(double d) {
-    double sign = d >= 0 ? 1.0 : -1.0;
-    return (long) ( d + sign / 2.0);
+    return (long) convertDoubleLongLong(d);
 }    
 
 long long convertDoubleLongLong(double d) {
-    double sign = d >= 0 ? 1.0 : -1.0;
-    return (long long) ( d + sign / 2.0);
+    // adding 1/2 to d could itself round, both just below 1/2 and above 2^52
+    double integral;
+    double fraction = modf(d, &integral);
+    long long ret = (long long) integral;
+    if (fraction >= 0.5) {
+	++ret;
+    } else if (fraction <= -0.5) {
+	--ret;
+    }
+    return ret;
 }    
 
-- 
2.43.0


From f1b9460723de7319e8fad2ed8bb64cdf91669786 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 04:09:44 +0000
Subject: [PATCH 72/95] fix: eliminating no columns of a matrix ran off its end

---
 src/Matrix.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Matrix.cpp b/src/Matrix.cpp
index 510205d..08c45d6 100644
--- a/src/Matrix.cpp
+++ b/src/Matrix.cpp
@@ -112,7 +112,8 @@ Matrix::gaussEliminate(int maxcolumn)
     }
     if (eliminated_cols == maxcolumn) {
 	// Now have a lower triangular matrix; back substitute.
-	for(--column;column>0;--column) {
+	while (column > 1) {
+	    --column;
 	    for(unsigned int i=0;i<column;i++) {
 		accumMultiply(i,column,-get(i,column));
 	    }
-- 
2.43.0


From 6e198e554b40fa119f9438736f78dde1304351d4 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 04:09:44 +0000
Subject: [PATCH 73/95] fix: a line fitted to points far from the origin was
 wrong, and points all at one x were not always refused

---
 src/LeastSquares.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/LeastSquares.cpp b/src/LeastSquares.cpp
index 724e91d..3c93b47 100644
--- a/src/LeastSquares.cpp
+++ b/src/LeastSquares.cpp
@@ -21,19 +21,23 @@ LeastSquares::Linear LeastSquares::fitLinearVertical(const WeightedData &data) {
 
     INVARIANT(data.size() > 1, "must have at least 2 points for linear fit");
 
+    // relative to the first point, as the products of values far from
+    // the origin would lose the differences between them
+    const double x0 = data.front().x, y0 = data.front().y;
     for (WeightedData::const_iterator i = data.begin(); i != data.end(); ++i) {
+	const double x = i->x - x0, y = i->y - y0;
 	sum_w += i->weight;
-	sum_wx += i->weight * i->x;
-	sum_wy += i->weight * i->y;
-	sum_wxx += i->weight * i->x * i->x;
-	sum_wxy += i->weight * i->x * i->y;
+	sum_wx += i->weight * x;
+	sum_wy += i->weight * y;
+	sum_wxx += i->weight * x * x;
+	sum_wxy += i->weight * x * y;
     }
 
     Linear ret;
     double denom = sum_w * sum_wxx - sum_wx * sum_wx;
     INVARIANT(denom != 0.0, "denominator is 0, aborting");
     ret.slope = (sum_w * sum_wxy - sum_wx * sum_wy) / denom;
-    ret.intercept = (sum_wy - ret.slope * sum_wx) / sum_w;
+    ret.intercept = y0 + (sum_wy - ret.slope * sum_wx) / sum_w - ret.slope * x0;
 
     return ret;
 }
-- 
2.43.0


From 90eb10c123c33ad1cdac586b844f5273f5688922 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 04:11:10 +0000
Subject: [PATCH 74/95] fix: pushing or replacing the top by an element of the
 same priority queue could lose an element

---
 include/Lintel/PriorityQueue.hpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/include/Lintel/PriorityQueue.hpp b/include/Lintel/PriorityQueue.hpp
index 50d4afe..b821b96 100644
--- a/include/Lintel/PriorityQueue.hpp
+++ b/include/Lintel/PriorityQueue.hpp
@@ -137,12 +137,14 @@ public:
     }
 
     void push(const T &val) {
-	if (pq_size == size_available) {
-	    T tmp(val); // val may be a reference to one of our elements
-	    double_size();
+	if (isElement(val)) {
+	    T tmp(val); // our elements move below
 	    push(tmp);
 	    return;
 	}
+	if (pq_size == size_available) {
+	    double_size();
+	}
 	int end_pos = pq_size;
 	while(end_pos > 0) {
 	    int up_pos = (end_pos - 1)/2;
@@ -160,6 +162,11 @@ public:
     /// equivalent to this->pop(), this->push(val), but roughly 2x as
     /// efficient
     void replaceTop(const T &val) {
+	if (isElement(val)) {
+	    T tmp(val); // our elements move below
+	    replaceTop(tmp);
+	    return;
+	}
 	uint32_t cur_pos = 0;
 	while(1) {
 	    uint32_t down_left = 2*cur_pos + 1;
@@ -222,6 +229,9 @@ public:
     T *PQ_End() { return pq + pq_size; }
 private:
     LessImportant lessimportant;
+    bool isElement(const T &val) const {
+	return &val >= pq && &val < pq + pq_size;
+    }
     void double_size() {
 	uint32_t new_size = size_available > 0 ? size_available * 2 : 1;
 	T *pq_new = new T[new_size];
-- 
2.43.0


From 9daff7e41b8adedbbc1f33d66d5ed646303061fa Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 04:13:04 +0000
Subject: [PATCH 75/95] fix: clearing the ssh host key of a.b also found and
 removed the keys of hosts like axb

---
 src/Lintel/Net/SSH/KnownHostsFile.pm | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Lintel/Net/SSH/KnownHostsFile.pm b/src/Lintel/Net/SSH/KnownHostsFile.pm
index 917bb12..28e6686 100644
--- a/src/Lintel/Net/SSH/KnownHostsFile.pm
+++ b/src/Lintel/Net/SSH/KnownHostsFile.pm
@@ -74,10 +74,10 @@ sub remove_host_key {
     my $ipaddr = inet_ntoa($addrs[0]);
 
     if ($exact_match) {
-	@$knownhosts = grep(!/^$host[, ]/i, @$knownhosts);
+	@$knownhosts = grep(!/^\Q$host\E[, ]/i, @$knownhosts);
     } else {
-	@$knownhosts = grep(!/^$host[, ]/i,@$knownhosts);
-	@$knownhosts = grep(!/^(\S+,)?$ipaddr /,@$knownhosts);
+	@$knownhosts = grep(!/^\Q$host\E[, ]/i,@$knownhosts);
+	@$knownhosts = grep(!/^(\S+,)?\Q$ipaddr\E /,@$knownhosts);
     }
 
     # Only look for hashed keys if the ssh implementation supports it,
-- 
2.43.0


From 6f3940824d2ce5409360ebd438d88430db8c6e53 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 04:13:04 +0000
Subject: [PATCH 76/95] fix: a failure to write the ssh known hosts file lost
 the remaining host keys without an error

---
 src/Lintel/Net/SSH/KnownHostsFile.pm | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/Lintel/Net/SSH/KnownHostsFile.pm b/src/Lintel/Net/SSH/KnownHostsFile.pm
index 28e6686..2c24219 100644
--- a/src/Lintel/Net/SSH/KnownHostsFile.pm
+++ b/src/Lintel/Net/SSH/KnownHostsFile.pm
@@ -17,6 +17,7 @@ use vars qw(@ISA @EXPORT_OK);
 use Socket;
 use Digest::HMAC;
 use MIME::Base64;
+use Cwd 'abs_path';
 use FileHandle;
 
 use Lintel::SHA1;
@@ -50,9 +51,7 @@ sub clear_host_key {
 
     if (scalar @knownhosts != $start_count) {
 	print "removing $host from $ENV{HOME}/.ssh/known_hosts...\n";
-	open(HOSTS,">$ENV{HOME}/.ssh/known_hosts") or die "bad";
-	print HOSTS @knownhosts;
-	close(HOSTS);
+	write_host_keys(@knownhosts);
     }
 }
 
@@ -66,6 +65,22 @@ sub read_host_keys {
     return @knownhosts;
 }
 
+# The file is only replaced once all of the new contents are written
+sub write_host_keys {
+    my $file = abs_path("$ENV{HOME}/.ssh/known_hosts");
+    my $tmp = "$file.$$.tmp";
+
+    my $mode = (stat($file))[2] & 07777;
+    my $ok = open(my $fh, ">$tmp") && chmod($mode, $tmp);
+    $ok &&= print $fh @_ if @_ > 0;
+    $ok = close($fh) && $ok if defined $fh;
+    unless ($ok && rename($tmp, $file)) {
+	my $err = $!;
+	unlink($tmp);
+	die "Unable to write $file: $err";
+    }
+}
+
 sub remove_host_key {
     my($host, $knownhosts, $exact_match) = @_;
 
-- 
2.43.0


From aec848ec3c7c75762a7ceb5d878f0e1eaad8ad55 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 04:34:39 +0000
Subject: [PATCH 77/95] fix: time axis marks failed in the hour after midnight,
 were missing or off midnight in some time zones, and stood an hour off after
 a clock change

---
 src/Plot/Mercury/Tics.pm | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/Plot/Mercury/Tics.pm b/src/Plot/Mercury/Tics.pm
index 8339fa4..f3e8ff3 100644
--- a/src/Plot/Mercury/Tics.pm
+++ b/src/Plot/Mercury/Tics.pm
@@ -46,10 +46,14 @@ sub plottics {
 	return plottics_large($starttime,$endtime,$relative_hourunits);
     }
 
-    my $lmin = 48*3600 * int($starttime / (48*3600)) - 24*3600;
+    # two days back, as a clock change can leave a day without a midnight
+    my $lmin = 48*3600 * int($starttime / (48*3600)) - 48*3600;
     while(1) {
 	my @t = localtime($lmin);
-	last if $t[2] == 0;
+	if ($t[2] == 0) {
+	    $lmin -= $t[1] * 60 + $t[0]; # not every zone is off by whole hours
+	    last;
+	}
 	$lmin += 3600;
     }
 
@@ -59,16 +63,14 @@ sub plottics {
     my @ret;
     for(;$lmin < $endtime;$lmin += $tickstep) {
         my @t = localtime($lmin);
-	my $i = ($lmin - $starttime)/3600;
+	my $pos = $lmin;
 	if ($tickstep >= 24*3600) { # handle possible crossing of DST
 	    if ($t[2] == 1) { 
-		my $tmin = $lmin - 3600;
-		@t = localtime($tmin);
-		$i = ($tmin - $starttime)/3600;
+		$pos = $lmin - 3600;
+		@t = localtime($pos);
 	    } elsif ($t[2] == 23) {
-		my $tmin = $lmin + 3600;
-		@t = localtime($tmin);
-		$i = ($tmin - $starttime)/3600;
+		$pos = $lmin + 3600;
+		@t = localtime($pos);
 	    } elsif ($t[2] == 0) {
 		# already ok
 	    } else {
@@ -76,9 +78,9 @@ sub plottics {
 	    }
 #	    die "weird no DST correction $t[2] $lmin $i" unless $t[2] == 0;
 	}
+	my $i = ($pos - $starttime)/3600;
 	my $label;
-	if ($t[2] == 0) {
-	    die "??" unless $t[1] == 0 && $t[0] == 0;
+	if ($t[2] == 0 && $t[1] == 0 && $t[0] == 0) {
 	    my $x = sprintf("%4d-%02d-%02d",$t[5]+1900,$t[4]+1,$t[3]);
 	    $label = $x;
         } elsif ($t[0] == 0) {
@@ -90,7 +92,7 @@ sub plottics {
 	if ($relative_hourunits) {
 	    push(@ret,"\"$label\" $i");
 	} else {
-	    push(@ret,"\"$label\" $lmin");
+	    push(@ret,"\"$label\" $pos");
 	}
     }
     return "set xtics (" . join(", ",@ret) . ")";
-- 
2.43.0


From 724b2c68f694214d5ebd855ce42989961df1a441 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 04:34:39 +0000
Subject: [PATCH 78/95] fix: time axis marks for long spans printed a debugging
 line to standard output

---
 src/Plot/Mercury/Tics.pm | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/Plot/Mercury/Tics.pm b/src/Plot/Mercury/Tics.pm
index f3e8ff3..467f3a2 100644
--- a/src/Plot/Mercury/Tics.pm
+++ b/src/Plot/Mercury/Tics.pm
@@ -129,7 +129,6 @@ sub plottics_large {
 	my $wday = (localtime($daymin))[3];
 	my $prev_i = -1000000;
 	my $minstep = ($endtime - $starttime) / (3600*11);
-	print "XXXX $minstep\n";
 	while($daymin <= $endtime) {
 	    my @t = localtime($daymin);
 	    my $x = sprintf("%4d-%02d-%02d",$t[5]+1900,$t[4]+1,$t[3]);
-- 
2.43.0


From 8cb7b2495afce1f6a43b59b0483f99a8644df577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:12 +0000
Subject: [PATCH 79/95] fix: stringPrintF keeps messages of 1024 bytes and more
 whole

---
 src/AssertException.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/AssertException.cpp b/src/AssertException.cpp
index 5a19d8c..1b8386f 100644
--- a/src/AssertException.cpp
+++ b/src/AssertException.cpp
@@ -20,15 +20,18 @@ AssertExceptionT::~AssertExceptionT() throw()
 std::string
 AssertExceptionT::stringPrintF(const char *format, ...) 
 {
-  // could dynamically size up to get a long enough string
   std::string ret;
 
   ret.resize(1024);
-  va_list ap;
+  va_list ap, ap_again;
   va_start(ap, format);
-
+  va_copy(ap_again, ap);
   int actual_size = vsnprintf(&ret[0], ret.size(), format, ap);
-
+  if (actual_size >= static_cast<int>(ret.size())) {
+    ret.resize(actual_size + 1); // includes the trailing '\0'
+    actual_size = vsnprintf(&ret[0], ret.size(), format, ap_again);
+  }
+  va_end(ap_again);
   va_end(ap);
   ret.resize(actual_size);
   return ret;
-- 
2.43.0


From c713c564fa170ffa368998286a98fc18f63ae520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:12 +0000
Subject: [PATCH 80/95] fix: posix::read0 reports a short read instead of
 failing to format its message

---
 include/Lintel/Posix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Lintel/Posix.hpp b/include/Lintel/Posix.hpp
index e198beb..d61ece6 100644
--- a/include/Lintel/Posix.hpp
+++ b/include/Lintel/Posix.hpp
@@ -64,7 +64,7 @@ namespace posix {
 	ssize_t amt = ::read(fd, buf, nbyte);
 	INVARIANT(amt == static_cast<ssize_t>(nbyte), 
 		  boost::format("Read0(%d, %p, %d): only got %d bytes: %s")
-		  % fd % buf % nbyte % strerror(errno));
+		  % fd % buf % nbyte % amt % strerror(errno));
     };
 
     inline ssize_t readN(int fd, void *buf, size_t nbyte) {
-- 
2.43.0


From 15d98fdb99e0fd9821cdab668f609458a22a35b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:12 +0000
Subject: [PATCH 81/95] fix: posix::readN asks only for the bytes still missing

---
 include/Lintel/Posix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Lintel/Posix.hpp b/include/Lintel/Posix.hpp
index d61ece6..b8e8819 100644
--- a/include/Lintel/Posix.hpp
+++ b/include/Lintel/Posix.hpp
@@ -71,7 +71,7 @@ namespace posix {
 	uint8_t *buf2 = (uint8_t *)buf;
 	ssize_t left = nbyte;
 	do {
-	    ssize_t nb = ::read(fd, buf2, nbyte);
+	    ssize_t nb = ::read(fd, buf2, left);
 	    INVARIANT(nb != -1, boost::format("readN(%d): %s") 
 		      % fd % strerror(errno));
 	    if (nb == 0) {
-- 
2.43.0


From 9eeddba175c671cab5c575f2ecba7ed59b8af65a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:57 +0000
Subject: [PATCH 82/95] fix: Clock calibration took the truncated mean of
 unsorted quanta, one slow one made it last minutes

---
 src/Clock.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Clock.cpp b/src/Clock.cpp
index 01577f4..caaf6ae 100644
--- a/src/Clock.cpp
+++ b/src/Clock.cpp
@@ -233,6 +233,7 @@ void Clock::initialMeasurements() {
 		// We definately switched cores, so this measurement is bogus.
 	    }
 	}
+	sort(cycles.begin(), cycles.end());
 	Stats truncated_mean;
 	for(uint32_t i = static_cast<uint32_t>(nmeasurements * 0.25); 
 	    i < static_cast<uint32_t>(nmeasurements * 0.75);
-- 
2.43.0


From 389efe1922947074b3a025dd991d06d48ebb4bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:57 +0000
Subject: [PATCH 83/95] fix: a Clock made in mode AUFSO_UseTod before
 calibrateClock never looked at the time of day

---
 src/Clock.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Clock.cpp b/src/Clock.cpp
index caaf6ae..8c1e9ad 100644
--- a/src/Clock.cpp
+++ b/src/Clock.cpp
@@ -399,7 +399,9 @@ Clock::Clock(bool allow_calibration)
       last_calibrate_tod_tfrac(0),
       last_cc(0), last_recalibrate_cc(0), recalibrate_interval_cycles(0)
 {
-    if (!isCalibrated()) {
+    if (allow_unsafe_frequency_scaling == AUFSO_UseTod) {
+	calibrateClock(); // nothing to measure, but todccTfrac has to know to use todTfrac
+    } else if (!isCalibrated()) {
 	INVARIANT(allow_calibration, "you failed to call Clock::calibrateClock()!");
 	calibrateClock();
 	SINVARIANT(clock_rate > 0);
-- 
2.43.0


From ba996cf284334bcf2ccdb5ea8b27c06fda219a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:25 +0000
Subject: [PATCH 84/95] fix: Plot::Mercury read key files through FileHandle
 without loading it

---
 src/Plot/Mercury.pm | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Plot/Mercury.pm b/src/Plot/Mercury.pm
index 6b221eb..719f003 100644
--- a/src/Plot/Mercury.pm
+++ b/src/Plot/Mercury.pm
@@ -13,6 +13,7 @@ use vars qw($VERSION @ISA @EXPORT @EXPORT_OK $Default_DSN $dbh);
 
 use DBI;
 use English;
+use FileHandle;
 use Carp;
 
 require Exporter;
-- 
2.43.0


From 70ca92fc733c8d9702883c79dba9bbd1f9da43e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:25 +0000
Subject: [PATCH 85/95] fix: Plot::Mercury refused key file lines with the
 documented user and password

---
 src/Plot/Mercury.pm | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Plot/Mercury.pm b/src/Plot/Mercury.pm
index 719f003..b146875 100644
--- a/src/Plot/Mercury.pm
+++ b/src/Plot/Mercury.pm
@@ -54,7 +54,7 @@ sub getDSNbykey {
 	    $bits =~ s/\s+$//o;
 	    my @bits = split(/\s+/,$bits);
 	    die "Invalid line in $file: '$_'"
-		if @bits < 1 || @bits > 2;
+		if @bits < 1 || @bits > 3;
 	    die "Invalid DSN '$bits[0]' in $file"
 		unless $bits[0] =~ /^DBI:/o;
 	    return @bits;
-- 
2.43.0


From 6420fcc3c2b92bec1dc30de71a1520ecd79ffe9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:25 +0000
Subject: [PATCH 86/95] fix: Plot::Mercury took the key looked up for a pattern

---
 src/Plot/Mercury.pm | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Plot/Mercury.pm b/src/Plot/Mercury.pm
index b146875..31179f2 100644
--- a/src/Plot/Mercury.pm
+++ b/src/Plot/Mercury.pm
@@ -49,7 +49,7 @@ sub getDSNbykey {
 	or die "Unable to open $file for read: $!";
     while(<$fh>) {
 	chomp;
-	if (/^$dbkey\s+(.+)$/) {
+	if (/^\Q$dbkey\E\s+(.+)$/) {
 	    my $bits = $1;
 	    $bits =~ s/\s+$//o;
 	    my @bits = split(/\s+/,$bits);
-- 
2.43.0


From ef74b46e29501f6f83738984d5f0c66e9997e7c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:25 +0000
Subject: [PATCH 87/95] fix: reload_use failed on errors from before the load
 and on relative search paths

---
 src/Plot/Mercury.pm | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Plot/Mercury.pm b/src/Plot/Mercury.pm
index 31179f2..71cc64d 100644
--- a/src/Plot/Mercury.pm
+++ b/src/Plot/Mercury.pm
@@ -14,6 +14,7 @@ use vars qw($VERSION @ISA @EXPORT @EXPORT_OK $Default_DSN $dbh);
 use DBI;
 use English;
 use FileHandle;
+use File::Spec;
 use Carp;
 
 require Exporter;
@@ -276,9 +277,9 @@ sub reload_use {
 		    if $verbose;
 		return; 
 	    }
-	    my $ret = do $file;
-	    die "unable to read $file: $!" if $!;
+	    my $ret = do(File::Spec->rel2abs($file)); # do looks for a relative name in @INC
 	    die "unable to parse $file: $@" if $@;
+	    die "unable to read $file: $!" unless defined $ret;
 	    die "$file didn't return true" unless $ret;
 
 	    $module_times{$file} = -M $file;
-- 
2.43.0


From 68e10576fd91f9ee6aca9da47fb9c537e691a852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:25 +0000
Subject: [PATCH 88/95] fix: create_experiment lost columns after a refused
 attempt with the same description

---
 src/Plot/Mercury.pm | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Plot/Mercury.pm b/src/Plot/Mercury.pm
index 71cc64d..a551d27 100644
--- a/src/Plot/Mercury.pm
+++ b/src/Plot/Mercury.pm
@@ -199,6 +199,7 @@ sub create_experiment {
 	sql_quote($expinfo->{description}) : "''";
 
     my @data_cols;
+    keys %{$expinfo->{inputs}}; # start over, an earlier call may have stopped midway
     while (my($k,$v) = each %{$expinfo->{inputs}}) {
 	die "Can't have input column with same name ($k) as output column\n"
 	    if defined $expinfo->{outputs}->{$k};
@@ -207,6 +208,7 @@ sub create_experiment {
     die "When creating a table, must specify at least one input parameter\n"
 	unless @data_cols > 0;
 
+    keys %{$expinfo->{outputs}};
     while(my($k,$v) = each %{$expinfo->{outputs}}) {
 	add_col(\@data_cols,$k,$v);
     }
-- 
2.43.0


From efbe130d05dfaf49382fba217e1344fe88e1fc49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:25 +0000
Subject: [PATCH 89/95] fix: drawRandomLogNormal crashed without arguments

---
 src/drawRandomLogNormal.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/drawRandomLogNormal.cpp b/src/drawRandomLogNormal.cpp
index 4494da0..8f26714 100644
--- a/src/drawRandomLogNormal.cpp
+++ b/src/drawRandomLogNormal.cpp
@@ -623,7 +623,7 @@ int main(int argc, char* argv[])
 
     // Look for the -v argument:
     bool verbose_params = false;
-    if (strcmp(argv[iarg], "-v")==0) {
+    if (iarg<argc && strcmp(argv[iarg], "-v")==0) {
         verbose_params = true;
         ++iarg;
     }
-- 
2.43.0


From 31a2a66883581206954c37e67c0e031de1c3804d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:25 +0000
Subject: [PATCH 90/95] fix: drawRandomLogNormal's tolerances were absolute:
 wrong fits for small means, none for others

---
 src/drawRandomLogNormal.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/drawRandomLogNormal.cpp b/src/drawRandomLogNormal.cpp
index 8f26714..79c56a0 100644
--- a/src/drawRandomLogNormal.cpp
+++ b/src/drawRandomLogNormal.cpp
@@ -419,14 +419,17 @@ static void targetFunc(int, double const x[], double f[], double* j[])
     double const& log_sigma = x[1];
     double log_up_limit = log(desired_up_limit);
 
+    // Both target functions are relative to the desired sigma, so that
+    // neither the tolerances nor the test of the determinant depend on the
+    // scale of the problem.
     // The first target function is the deviation from the desired mean:
     double obs_mean = momentLogNormal(log_mean, log_sigma, log_up_limit, 1);
-    f[0] = obs_mean - desired_mean;
+    f[0] = (obs_mean - desired_mean) / desired_sigma;
 
     // The second target function is the deviation between observed
     // and desired variance:
     double obs_2nd = momentLogNormal(log_mean,log_sigma,log_up_limit,2);
-    f[1] = obs_2nd - obs_mean * obs_mean - desired_sigma*desired_sigma;
+    f[1] = (obs_2nd - obs_mean * obs_mean) / (desired_sigma*desired_sigma) - 1.;
 
     #if defined(REGRESSION_TEST) && REGRESSION_TEST==40
     ++n_iter;
@@ -474,11 +477,11 @@ static void targetFunc(int, double const x[], double f[], double* j[])
 
         double obs_mean_step = 
             momentLogNormal(log_mean_step,log_sigma_step,log_up_limit,1);
-        f_step[0][i_x] = obs_mean_step - desired_mean;
+        f_step[0][i_x] = (obs_mean_step - desired_mean) / desired_sigma;
         double obs_2nd_step = 
             momentLogNormal(log_mean_step,log_sigma_step,log_up_limit,2);
-        f_step[1][i_x] = obs_2nd_step - obs_mean_step*obs_mean_step
-                         - desired_sigma*desired_sigma;
+        f_step[1][i_x] = (obs_2nd_step - obs_mean_step*obs_mean_step)
+                         / (desired_sigma*desired_sigma) - 1.;
     }
     #if defined(REGRESSION_TEST) && REGRESSION_TEST==40
     printf("Step (%.5f,%.5f) -> (%.1f,%.1f)_0 (%.1f,%.1f)_1\n",
-- 
2.43.0


From 12d1f41187387adcbcbfe5a512f962febb3d6e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:25 +0000
Subject: [PATCH 91/95] fix: drawRandomLogNormal's moments lost all digits for
 limits far below the mean of the logarithm

---
 src/drawRandomLogNormal.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/drawRandomLogNormal.cpp b/src/drawRandomLogNormal.cpp
index 79c56a0..9747878 100644
--- a/src/drawRandomLogNormal.cpp
+++ b/src/drawRandomLogNormal.cpp
@@ -119,11 +119,12 @@ double logNormal(double x,
 double momentLogNormal(double log_mean, double log_sigma, 
                        double up_limit, int power)
 {
+    // erfc(-x) is 1 + erf(x) without the loss of all digits for x << 0
     return exp(power*log_mean +
                power*power*log_sigma*log_sigma / 2.) *
-           (1. + erf((up_limit - log_mean - power*log_sigma*log_sigma) 
-                 /s2/log_sigma)) /
-           (1. + erf( (up_limit - log_mean) / s2/log_sigma));
+           erfc(-(up_limit - log_mean - power*log_sigma*log_sigma) 
+                 /s2/log_sigma) /
+           erfc(-(up_limit - log_mean) / s2/log_sigma);
 }
 
 // ======================================================================
-- 
2.43.0


From 4b58da19a7327e788e6eb3db7a527104ae0b2e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:25 +0000
Subject: [PATCH 92/95] fix: drawRandomLogNormal never ended when the limit is
 far out in the tail

---
 src/drawRandomLogNormal.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/drawRandomLogNormal.cpp b/src/drawRandomLogNormal.cpp
index 9747878..0cdd6c7 100644
--- a/src/drawRandomLogNormal.cpp
+++ b/src/drawRandomLogNormal.cpp
@@ -569,6 +569,17 @@ bool solveLogNormal(double lin_mean,     // Input
 // recipes book:
 static double normal_random_limit(double up_limit)
 {
+    // Far out in the tail, hardly any normal number is small enough, and the
+    // loop below would never end; use Marsaglia's tail algorithm.
+    if (up_limit < -4.) {
+        double tail, v;
+        do {
+            tail = -log(1. - drand48()) / -up_limit;
+            v = -log(1. - drand48());
+        } while (2. * v <= tail * tail);
+        return up_limit - tail;
+    }
+
     double nr = 0.0; // This is the normal random number we want
     bool got_one = false;
     while (!got_one) {
-- 
2.43.0


From fdff4640ecc24d14d75eec6a17c66860eb692f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:20:09 +0000
Subject: [PATCH 93/95] fix: getDeptoolInfo failed on lines of 200 bytes and
 more

---
 src/TestUtil.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/TestUtil.cpp b/src/TestUtil.cpp
index 3a6cfaf..4817b29 100644
--- a/src/TestUtil.cpp
+++ b/src/TestUtil.cpp
@@ -58,15 +58,20 @@ DeptoolInfo getDeptoolInfo() {
                 % deptool % strerror(errno));
         const size_t buf_size = 200;
         char buf[buf_size];
+        string str_buf;
         while (!feof(deptool_pipe) && fgets(buf, buf_size, deptool_pipe) != NULL) {
-            string str_buf(buf);
-            SINVARIANT(!str_buf.empty() && str_buf[str_buf.size()-1] == '\n');
+            str_buf.append(buf);
+            if (str_buf.empty() || str_buf[str_buf.size()-1] != '\n') {
+                continue; // line longer than buf
+            }
             if (prefixequal(str_buf, "export BUILD_OS=\"")) {
                 build_os = extractEnv(str_buf);
             } else if (prefixequal(str_buf, "export UNAME_M=\"")) {
                 arch = extractEnv(str_buf);
             } // else ignore, lots of bits we don't care about.
+            str_buf.clear();
         }
+        SINVARIANT(str_buf.empty());
         SINVARIANT(!build_os.empty() && !arch.empty());
     }
 
-- 
2.43.0


From 82355d6befced37d785e6aecfefb1e6d6473c1fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:20:09 +0000
Subject: [PATCH 94/95] fix: getDeptoolInfo left its pipe open, and failed
 where deptool is not present

---
 src/TestUtil.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/TestUtil.cpp b/src/TestUtil.cpp
index 4817b29..529e45b 100644
--- a/src/TestUtil.cpp
+++ b/src/TestUtil.cpp
@@ -58,8 +58,10 @@ DeptoolInfo getDeptoolInfo() {
                 % deptool % strerror(errno));
         const size_t buf_size = 200;
         char buf[buf_size];
+        bool printed = false;
         string str_buf;
         while (!feof(deptool_pipe) && fgets(buf, buf_size, deptool_pipe) != NULL) {
+            printed = true;
             str_buf.append(buf);
             if (str_buf.empty() || str_buf[str_buf.size()-1] != '\n') {
                 continue; // line longer than buf
@@ -72,6 +74,10 @@ DeptoolInfo getDeptoolInfo() {
             str_buf.clear();
         }
         SINVARIANT(str_buf.empty());
+        int status = pclose(deptool_pipe);
+        if (status != 0 && !printed) {
+            return DeptoolInfo(); // deptool is not present
+        }
         SINVARIANT(!build_os.empty() && !arch.empty());
     }
 
-- 
2.43.0


From 1701ba000802e5863cc165ccc3c311777cad3407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:20:09 +0000
Subject: [PATCH 95/95] fix: Matrix::resize leaked the former elements

---
 src/Matrix.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Matrix.cpp b/src/Matrix.cpp
index 08c45d6..3ed0c0c 100644
--- a/src/Matrix.cpp
+++ b/src/Matrix.cpp
@@ -14,6 +14,7 @@
 #include <Lintel/Matrix.hpp>
 
 Matrix::Matrix(unsigned int rows, unsigned int cols)
+    : data(NULL)
 {
     resize(rows,cols);
 }
@@ -26,9 +27,11 @@ Matrix::~Matrix()
 void
 Matrix::resize(unsigned int rows, unsigned int cols)
 {
+    double *new_data = new double[rows * cols];
+    delete [] data;
+    data = new_data;
     nrows = rows;
     ncols = cols;
-    data = new double[rows * cols];
     setConstant(0.0);
 }
 
-- 
2.43.0

