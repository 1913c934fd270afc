From 7ad294a59040636285ebcac855543710ace7f5de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:38 +0000
Subject: [PATCH 01/22] fix: privacy-free evaluation used only the low half of
 the garbled row

table is a block reference, so table[0] is its low 64-bit lane, broadcast by
the XOR to both halves.
---
 emp-tool/gc/privacy_free_eva.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emp-tool/gc/privacy_free_eva.h b/emp-tool/gc/privacy_free_eva.h
index e239b3e..fce9e2e 100644
--- a/emp-tool/gc/privacy_free_eva.h
+++ b/emp-tool/gc/privacy_free_eva.h
@@ -27,7 +27,7 @@ inline block privacy_free_eval(block A, block B, const block &table, uint64_t id
 	}
 	if (sa) {
 		*((char *) &HA) |= 0x01;
-		W = HA ^ table[0];
+		W = HA ^ table;
 		W = W ^ B;
 	} else {
 		*((char *) &HA) &= 0xfe;
-- 
2.43.0


From 850e581edd03df1b6847f0bb14dfb7c0b0bbe537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:38 +0000
Subject: [PATCH 02/22] fix: Hash::put hashed a large chunk before the bytes
 buffered earlier

---
 emp-tool/utils/hash.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/emp-tool/utils/hash.h b/emp-tool/utils/hash.h
index 9f287a3..acd678f 100644
--- a/emp-tool/utils/hash.h
+++ b/emp-tool/utils/hash.h
@@ -23,9 +23,12 @@ class Hash { public:
 		EVP_MD_CTX_destroy(mdctx);
 	}
 	void put(const void * data, int nbyte) {
-		if (nbyte >= HASH_BUFFER_SIZE)
+		if (nbyte >= HASH_BUFFER_SIZE) {
+			// bytes buffered by earlier calls come first
+			EVP_DigestUpdate(mdctx, buffer, size);
+			size = 0;
 			EVP_DigestUpdate(mdctx, data, nbyte);
-		else if(size + nbyte < HASH_BUFFER_SIZE) {
+		} else if(size + nbyte < HASH_BUFFER_SIZE) {
 			memcpy(buffer+size, data, nbyte);
 			size+=nbyte;
 		} else {
-- 
2.43.0


From 747d02cb8552d4bad20ea0d81fc6a70a9e793ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:38 +0000
Subject: [PATCH 03/22] fix: send_bool/recv_bool encoding depended on the
 alignment of the caller's array

A sender and a receiver whose arrays have different alignment exchanged
different numbers of bytes.
---
 emp-tool/io/io_channel.h | 24 ++++--------------------
 1 file changed, 4 insertions(+), 20 deletions(-)

diff --git a/emp-tool/io/io_channel.h b/emp-tool/io/io_channel.h
index 66d7750..4453b8c 100644
--- a/emp-tool/io/io_channel.h
+++ b/emp-tool/io/io_channel.h
@@ -50,30 +50,14 @@ class IOChannel { public:
 		}
 	}	
 
+	// The encoding must not depend on where data lies in memory: sender and
+	// receiver may have differently aligned arrays.
 	void send_bool(bool * data, size_t length) {
-		void * ptr = (void *)data;
-		size_t space = length;
-		const void * aligned = std::align(alignof(uint64_t), sizeof(uint64_t), ptr, space);
-		if(aligned == nullptr)
-			send_data(data, length);
-		else{
-			size_t diff = length - space;
-			send_data(data, diff);
-			send_bool_aligned((const bool*)aligned, length - diff);
-		}
+		send_bool_aligned(data, length);
 	}
 
 	void recv_bool(bool * data, size_t length) {
-		void * ptr = (void *)data;
-		size_t space = length;
-		void * aligned = std::align(alignof(uint64_t), sizeof(uint64_t), ptr, space);
-		if(aligned == nullptr)
-			recv_data(data, length);
-		else{
-			size_t diff = length - space;
-			recv_data(data, diff);
-			recv_bool_aligned((bool*)aligned, length - diff);
-		}
+		recv_bool_aligned(data, length);
 	}
 
 
-- 
2.43.0


From 91695c3802a06027ff076e83cac2608eb4ebadc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:38 +0000
Subject: [PATCH 04/22] fix: HighSpeedNetIO padded its last block from beyond
 its buffer

The padding length is unrelated to ptr, so buf + ptr could run past the end of
buf, and uninitialised heap bytes were sent to the peer.
---
 emp-tool/io/highspeed_net_io_channel.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/emp-tool/io/highspeed_net_io_channel.h b/emp-tool/io/highspeed_net_io_channel.h
index 4400bad..3c8d865 100644
--- a/emp-tool/io/highspeed_net_io_channel.h
+++ b/emp-tool/io/highspeed_net_io_channel.h
@@ -48,8 +48,11 @@ class SenderSubChannel : public SubChannel { public:
 	void flush() {
 		flushes++;
 		send_data_raw(buf, ptr);
-		if (counter % NETWORK_BUFFER_SIZE2 != 0)
-			send_data_raw(buf + ptr, NETWORK_BUFFER_SIZE2 - counter % NETWORK_BUFFER_SIZE2);
+		if (counter % NETWORK_BUFFER_SIZE2 != 0) {
+			int padding = NETWORK_BUFFER_SIZE2 - counter % NETWORK_BUFFER_SIZE2;
+			memset(buf, 0, padding);
+			send_data_raw(buf, padding);
+		}
 		fflush(stream);
 		ptr = 0;
 	}
-- 
2.43.0


From 8d42390788879010d768d827354ff4d84bed7c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:38 +0000
Subject: [PATCH 05/22] fix: FileIO looped for ever at end of file and
 truncated lengths to int

---
 emp-tool/io/file_io_channel.h | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/emp-tool/io/file_io_channel.h b/emp-tool/io/file_io_channel.h
index 173f78a..79fa8e7 100644
--- a/emp-tool/io/file_io_channel.h
+++ b/emp-tool/io/file_io_channel.h
@@ -33,25 +33,25 @@ class FileIO: public IOChannel<FileIO> { public:
 	void reset() {
 		rewind(stream);
 	}
-	void send_data_internal(const void * data, int len) {
+	void send_data_internal(const void * data, size_t len) {
 		bytes_sent += len;
-		int sent = 0;
+		size_t sent = 0;
 		while(sent < len) {
-			int res = fwrite(sent+(char*)data, 1, len-sent, stream);
-			if (res >= 0)
+			size_t res = fwrite(sent+(char*)data, 1, len-sent, stream);
+			if (res > 0)
 				sent+=res;
 			else
-				fprintf(stderr,"error: file_send_data %d\n", res);
+				error("file_send_data\n");
 		}
 	}
-	void recv_data_internal(void  * data, int len) {
-		int sent = 0;
+	void recv_data_internal(void  * data, size_t len) {
+		size_t sent = 0;
 		while(sent < len) {
-			int res = fread(sent+(char*)data, 1, len-sent, stream);
-			if (res >= 0)
+			size_t res = fread(sent+(char*)data, 1, len-sent, stream);
+			if (res > 0)
 				sent+=res;
 			else 
-				fprintf(stderr,"error: file_recv_data %d\n", res);
+				error("file_recv_data\n");
 		}
 	}
 };
-- 
2.43.0


From 000bd4afcfea8d3481b9813bfc9aab58a18d81a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:38 +0000
Subject: [PATCH 06/22] fix: HighSpeedNetIO looped for ever when the peer was
 gone and truncated lengths to int

---
 emp-tool/io/highspeed_net_io_channel.h | 36 +++++++++++++-------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/emp-tool/io/highspeed_net_io_channel.h b/emp-tool/io/highspeed_net_io_channel.h
index 3c8d865..9c53484 100644
--- a/emp-tool/io/highspeed_net_io_channel.h
+++ b/emp-tool/io/highspeed_net_io_channel.h
@@ -57,8 +57,8 @@ class SenderSubChannel : public SubChannel { public:
 		ptr = 0;
 	}
 
-	void send_data(const void *data, int len) {
-		if (len <= NETWORK_BUFFER_SIZE2 - ptr) {
+	void send_data(const void *data, size_t len) {
+		if (len <= (size_t)(NETWORK_BUFFER_SIZE2 - ptr)) {
 			memcpy(buf + ptr, data, len);
 			ptr += len;
 		} else {
@@ -68,15 +68,15 @@ class SenderSubChannel : public SubChannel { public:
 		}
 	}
 
-	void send_data_raw(const void *data, int len) {
+	void send_data_raw(const void *data, size_t len) {
 		counter += len;
-		int sent = 0;
+		size_t sent = 0;
 		while (sent < len) {
-			int res = fwrite(sent + (char *)data, 1, len - sent, stream);
-			if (res >= 0)
+			size_t res = fwrite(sent + (char *)data, 1, len - sent, stream);
+			if (res > 0)
 				sent += res;
 			else
-				fprintf(stderr, "error: net_send_data %d\n", res);
+				error("net_data\n");
 		}
 	}
 };
@@ -88,18 +88,18 @@ class RecverSubChannel : public SubChannel { public:
 		ptr = NETWORK_BUFFER_SIZE2;
 	}
 
-	void recv_data(void *data, int len) {
-		if (len <= NETWORK_BUFFER_SIZE2 - ptr) {
+	void recv_data(void *data, size_t len) {
+		if (len <= (size_t)(NETWORK_BUFFER_SIZE2 - ptr)) {
 			memcpy(data, buf + ptr, len);
 			ptr += len;
 		} else {
-			int remain = len;
+			size_t remain = len;
 			memcpy(data, buf + ptr, NETWORK_BUFFER_SIZE2 - ptr);
 			remain -= NETWORK_BUFFER_SIZE2 - ptr;
 
 			while (true) {
 				recv_data_raw(buf, NETWORK_BUFFER_SIZE2);
-				if (remain <= NETWORK_BUFFER_SIZE2) {
+				if (remain <= (size_t)NETWORK_BUFFER_SIZE2) {
 					memcpy(len - remain + (char *)data, buf, remain);
 					ptr = remain;
 					break;
@@ -111,15 +111,15 @@ class RecverSubChannel : public SubChannel { public:
 		}
 	}
 
-	void recv_data_raw(void *data, int len) {
+	void recv_data_raw(void *data, size_t len) {
 		counter += len;
-		int sent = 0;
+		size_t sent = 0;
 		while (sent < len) {
-			int res = fread(sent + (char *)data, 1, len - sent, stream);
-			if (res >= 0)
+			size_t res = fread(sent + (char *)data, 1, len - sent, stream);
+			if (res > 0)
 				sent += res;
 			else
-				fprintf(stderr, "error: net_send_data %d\n", res);
+				error("net_data\n");
 		}
 	}
 };
@@ -235,7 +235,7 @@ class HighSpeedNetIO : public IOChannel<HighSpeedNetIO> { public:
 		FSM = 0;
 	}
 
-	void send_data_internal(const void *data, int len) {
+	void send_data_internal(const void *data, size_t len) {
 		if (FSM == 1) {
 			rchannel->flush();
 		}
@@ -243,7 +243,7 @@ class HighSpeedNetIO : public IOChannel<HighSpeedNetIO> { public:
 		FSM = 2;
 	}
 
-	void recv_data_internal(void *data, int len) {
+	void recv_data_internal(void *data, size_t len) {
 		if (FSM == 2) {
 			schannel->flush();
 		}
-- 
2.43.0


From 0dc815d23c1f992413e134c4e900161d7ee95e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:38 +0000
Subject: [PATCH 07/22] fix: MemIO returned from a receive without data, and
 clear() kept the read position

---
 emp-tool/io/mem_io_channel.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/emp-tool/io/mem_io_channel.h b/emp-tool/io/mem_io_channel.h
index 48f1a00..0a10033 100644
--- a/emp-tool/io/mem_io_channel.h
+++ b/emp-tool/io/mem_io_channel.h
@@ -31,6 +31,7 @@ class MemIO: public IOChannel<MemIO> { public:
 	}
 	void clear() {
 		size = 0;
+		read_pos = 0;
 	}
 	void send_data_internal(const void * data, int64_t len) {
 		if(size + len >= cap){
@@ -49,7 +50,7 @@ class MemIO: public IOChannel<MemIO> { public:
 			memcpy(data, buffer + read_pos, len);
 			read_pos += len;
 		} else {
-			fprintf(stderr,"error: mem_recv_data\n");
+			error("mem_recv_data\n");
 		}
 	}
 };
-- 
2.43.0


From c2db1847830c1a5330e019f4a67b72fcc7197698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:38 +0000
Subject: [PATCH 08/22] fix: PRG::reseed kept serving words drawn from the
 previous seed

---
 emp-tool/utils/prg.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/emp-tool/utils/prg.h b/emp-tool/utils/prg.h
index 5c1dba1..5e64ca7 100644
--- a/emp-tool/utils/prg.h
+++ b/emp-tool/utils/prg.h
@@ -52,6 +52,7 @@ class PRG { public:
 		key = v;
 		AES_set_encrypt_key(v, &aes);
 		counter = 0;
+		ptr = 32;
 	}
 
 	void random_data(void *data, int nbytes) {
-- 
2.43.0


From 54c43ad0fd82fa56e3a280d805e2285b7ac7eef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:38 +0000
Subject: [PATCH 09/22] fix: reversed to_bool/from_bool accessed the element
 past the end

---
 emp-tool/utils/utils.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/emp-tool/utils/utils.hpp b/emp-tool/utils/utils.hpp
index 13e2cef..e5e730f 100644
--- a/emp-tool/utils/utils.hpp
+++ b/emp-tool/utils/utils.hpp
@@ -58,7 +58,7 @@ inline void int_to_bool(bool * data, T input, int len) {
 template<typename T>
 inline void to_bool(bool * data, const T * input, const int len, const bool reverse) {
 	for (int i = 0; i < len; ++i) {
-		data[reverse ? len - i : i] = (bool) ((((uint8_t *) input)[i / 8] & (((uint8_t) 1) << (i % 8))) != 0);
+		data[reverse ? len - 1 - i : i] = (bool) ((((uint8_t *) input)[i / 8] & (((uint8_t) 1) << (i % 8))) != 0);
 	}
 }
 
@@ -70,7 +70,7 @@ template<typename T>
 inline void from_bool(const bool * data, T * output, const int len, const bool reverse) {
 	for (int i = 0; i < len; ++i) {
     ((uint8_t *) output)[i / 8] &= (~(((uint8_t) 1) << (i % 8))); // sets bit to 0
-    ((uint8_t *) output)[i / 8] |= (((uint8_t) data[reverse ? len - i : i]) << (i % 8)); // sets bit to bool[i]
+    ((uint8_t *) output)[i / 8] |= (((uint8_t) data[reverse ? len - 1 - i : i]) << (i % 8)); // sets bit to bool[i]
 	}
 }
 
-- 
2.43.0


From 17d4fbe78d21022e6cad72e252f7ac7307289663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:38 +0000
Subject: [PATCH 10/22] fix: MITCCRH read past its key batch when hash shapes
 were mixed

---
 emp-tool/utils/mitccrh.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emp-tool/utils/mitccrh.h b/emp-tool/utils/mitccrh.h
index 8164e85..0387765 100644
--- a/emp-tool/utils/mitccrh.h
+++ b/emp-tool/utils/mitccrh.h
@@ -45,7 +45,7 @@ class MITCCRH { public:
 	void hash(block * blks) {
 		assert(K <= BatchSize);
 		assert(BatchSize % K == 0);
-		if(key_used == BatchSize) renew_ks();
+		if(key_used + K > BatchSize) renew_ks();
 
 		block tmp[K*H];
 		for(int i = 0; i < K*H; ++i)
-- 
2.43.0


From 27201de83e4d0da35ba2ee0142fd6f4dd6fb0aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:19 +0000
Subject: [PATCH 11/22] fix: AES-CTR lost the carry out of the low 64 bits of
 the counter

The in-circuit counter and OpenSSL's own increment are 128 bits wide, so the
streams disagreed when the low half of IV + chunk overflowed.
---
 emp-tool/circuits/aes_128_ctr.h | 35 +++++++++++++--------------------
 1 file changed, 14 insertions(+), 21 deletions(-)

diff --git a/emp-tool/circuits/aes_128_ctr.h b/emp-tool/circuits/aes_128_ctr.h
index 6a1f278..cc913bf 100644
--- a/emp-tool/circuits/aes_128_ctr.h
+++ b/emp-tool/circuits/aes_128_ctr.h
@@ -23,6 +23,17 @@ extern unsigned char emp_tool_circuits_files_bristol_fashion_aes_128_txt[];
 
 namespace emp {
 
+// Add n to a 128-bit big-endian counter.
+inline __m128i add_to_counter(__m128i counter, uint64_t n) {
+	uint8_t * bytes = (uint8_t *)(&counter);
+	for (int i = 15; i >= 0; --i) {
+		const uint64_t sum = bytes[i] + (n & 0xff);
+		bytes[i] = (uint8_t) sum;
+		n = (n >> 8) + (sum >> 8);
+	}
+	return counter;
+}
+
 // Calculate the AES_128_CTR encryption of some bytes
 // (length refers to the number of elements of type T in the array "input").
 template<typename T>
@@ -33,17 +44,7 @@ int aes_128_ctr(const __m128i key,
 		const size_t length = 1,
 		const uint64_t start_chunk = 0) {
 	const size_t num_bytes = (input == nullptr) ? length : (length * sizeof(T));
-	__m128i counter = iv;
-	if (start_chunk != 0) { // increment iv, but it's big-endian, so it's funky
-		uint64_t count;
-		for(size_t i = 0; i < 8; ++i) {
-			((uint8_t *)(&count))[i] = ((uint8_t *)(&counter))[15 - i];
-		}
-		count += start_chunk;
-		for(size_t i = 0; i < 8; ++i) {
-			((uint8_t *)(&counter))[15 - i] = ((uint8_t *)(&count))[i];
-		}
-	}
+	__m128i counter = add_to_counter(iv, start_chunk);
 	if (input == nullptr && output == nullptr) {
 		std::cerr << "input and output of aes_128_ctr can't both be null pointers\n"<<std::flush;
                 return -1;
@@ -208,17 +209,9 @@ class AES_128_CTR_Calculator { public:
 		}
 
 		int answer;
-		__m128i counter = iv;
-		uint64_t count;
-		for(size_t j = 0; j < 8; ++j) {
-			((uint8_t *)(&count))[j] = ((uint8_t *)(&counter))[15 - j];
-		}
-		count += start_chunk;
+		__m128i counter = add_to_counter(iv, start_chunk);
 
 		for (uint64_t i = 0; (128 * i) < length; ++i) {
-			for(size_t j = 0; j < 8; ++j) {
-				((uint8_t *)(&counter))[15 - j] = ((uint8_t *)(&count))[j];
-			}
 			answer = this->aes_128_ctr(nullptr,
 					&(emp::Integer(128, &counter, party).bits[0].bit),
 					(input == nullptr ) ? nullptr : &(input[ 128 * i]),
@@ -229,7 +222,7 @@ class AES_128_CTR_Calculator { public:
 			if (answer != 0) {
 				return answer;
 			}
-			++count;
+			counter = add_to_counter(counter, 1);
 		}
 
 		return 0;
-- 
2.43.0


From 7849f1282e8baf0a3ba13eb0ac3764e880f08b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:19 +0000
Subject: [PATCH 12/22] fix: circuit loader wrote past its gate-name buffer on
 long names

---
 emp-tool/circuits/circuit_file.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/emp-tool/circuits/circuit_file.h b/emp-tool/circuits/circuit_file.h
index 6159ac0..17f67ed 100644
--- a/emp-tool/circuits/circuit_file.h
+++ b/emp-tool/circuits/circuit_file.h
@@ -90,12 +90,12 @@ class BristolFormat { public:
 		for(int i = 0; i < num_gate; ++i) {
 			(void)fscanf(f, "%d", &tmp);
 			if (tmp == 2) {
-				(void)fscanf(f, "%d%d%d%d%s", &tmp, &gates[4*i], &gates[4*i+1], &gates[4*i+2], str);
+				(void)fscanf(f, "%d%d%d%d%9s", &tmp, &gates[4*i], &gates[4*i+1], &gates[4*i+2], str);
 				if (str[0] == 'A') gates[4*i+3] = AND_GATE;
 				else if (str[0] == 'X') gates[4*i+3] = XOR_GATE;
 			}
 			else if (tmp == 1) {
-				(void)fscanf(f, "%d%d%d%s", &tmp, &gates[4*i], &gates[4*i+2], str);
+				(void)fscanf(f, "%d%d%d%9s", &tmp, &gates[4*i], &gates[4*i+2], str);
 				gates[4*i+3] = NOT_GATE;
 			}
 		}
@@ -163,12 +163,12 @@ class BristolFashion { public:
 		for(int i = 0; i < num_gate; ++i) {
 			(void)fscanf(f, "%d", &tmp);
 			if (tmp == 2) {
-				(void)fscanf(f, "%d%d%d%d%s", &tmp, &gates[4*i], &gates[4*i+1], &gates[4*i+2], str);
+				(void)fscanf(f, "%d%d%d%d%9s", &tmp, &gates[4*i], &gates[4*i+1], &gates[4*i+2], str);
 				if (str[0] == 'A') gates[4*i+3] = AND_GATE;
 				else if (str[0] == 'X') gates[4*i+3] = XOR_GATE;
 			}
 			else if (tmp == 1) {
-				(void)fscanf(f, "%d%d%d%s", &tmp, &gates[4*i], &gates[4*i+2], str);
+				(void)fscanf(f, "%d%d%d%9s", &tmp, &gates[4*i], &gates[4*i+2], str);
 				gates[4*i+3] = NOT_GATE;
 			}
 		}
-- 
2.43.0


From 39debdd7ccadf23eaf24c983e5d600c5cf95ef51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:19 +0000
Subject: [PATCH 13/22] fix: BristolFashion::from_file added to the sizes of a
 circuit loaded earlier

---
 emp-tool/circuits/circuit_file.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/emp-tool/circuits/circuit_file.h b/emp-tool/circuits/circuit_file.h
index 17f67ed..d484f3f 100644
--- a/emp-tool/circuits/circuit_file.h
+++ b/emp-tool/circuits/circuit_file.h
@@ -146,6 +146,7 @@ class BristolFashion { public:
 		int tmp;
 		(void)fscanf(f, "%d%d\n", &num_gate, &num_wire);
 		int niov = 0;
+		num_input = num_output = 0;
 		(void)fscanf(f, "%d", &niov);
 		for(int i = 0; i < niov; ++i) {
 			(void)fscanf(f, "%d", &tmp);
-- 
2.43.0


From 9ecd7b086ddbb9703cffe934c868437f95eab70f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:19 +0000
Subject: [PATCH 14/22] fix: half-gate num_and() counted prepared hash keys
 instead of AND gates

---
 emp-tool/gc/halfgate_eva.h | 4 +++-
 emp-tool/gc/halfgate_gen.h | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/emp-tool/gc/halfgate_eva.h b/emp-tool/gc/halfgate_eva.h
index e79dfcb..1aedf51 100644
--- a/emp-tool/gc/halfgate_eva.h
+++ b/emp-tool/gc/halfgate_eva.h
@@ -34,6 +34,7 @@ public:
 	T * io;
 	block constant[2];
 	MITCCRH<8> mitccrh;
+	uint64_t ands = 0;
 	HalfGateEva(T * io) :io(io) {
 		set_delta();
 		block tmp;
@@ -48,6 +49,7 @@ public:
 	}
 	block and_gate(const block& a, const block& b) override {
 		block table[2];
+		++ands;
 		io->recv_block(table, 2);
 		return halfgates_eval(a, b, table, &mitccrh);
 	}
@@ -58,7 +60,7 @@ public:
 		return xor_gate(a, public_label(true));
 	}
 	uint64_t num_and() override {
-		return mitccrh.gid/2;
+		return ands;
 	}
 };
 }
diff --git a/emp-tool/gc/halfgate_gen.h b/emp-tool/gc/halfgate_gen.h
index 7f8837d..259ecfa 100644
--- a/emp-tool/gc/halfgate_gen.h
+++ b/emp-tool/gc/halfgate_gen.h
@@ -47,6 +47,7 @@ public:
 	T * io;
 	block constant[2];
 	MITCCRH<8> mitccrh;
+	uint64_t ands = 0;
 	HalfGateGen(T * io) :io(io) {
 		block tmp[2];
 		PRG().random_block(tmp, 2);
@@ -65,6 +66,7 @@ public:
 	}
 	block and_gate(const block& a, const block& b) override {
 		block table[2];
+		++ands;
 		block res = halfgates_garble(a, a^delta, b, b^delta, delta, table, &mitccrh);
 		io->send_block(table, 2);
 		return res;
@@ -76,7 +78,7 @@ public:
 		return xor_gate(a, public_label(true));
 	}
 	uint64_t num_and() override {
-		return mitccrh.gid/2;
+		return ands;
 	}
 };
 }
-- 
2.43.0


From 10a2bda42a4948f3ba6c784c924dbe96097ecb38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:19 +0000
Subject: [PATCH 15/22] fix: revealed public constants were recorded as the
 first input wire

---
 emp-tool/execution/plain_prot.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/emp-tool/execution/plain_prot.h b/emp-tool/execution/plain_prot.h
index 2330915..02b19dd 100644
--- a/emp-tool/execution/plain_prot.h
+++ b/emp-tool/execution/plain_prot.h
@@ -46,7 +46,10 @@ public:
 	void reveal(bool* b, int party, const block * label, int length) override {
 		for (int i = 0; i < length; ++i) {
 			uint64_t *arr = (uint64_t*) (&label[i]);
-			output_vec.push_back(arr[1]);
+			if (cast_circ_exec->is_public(label[i], party))// constants have no wire
+				output_vec.push_back(cast_circ_exec->get_value(label[i]) ? -2 : -1);
+			else
+				output_vec.push_back(arr[1]);
 			b[i] = cast_circ_exec->get_value(label[i]);
 		}
 		n3+=length;
@@ -63,10 +66,14 @@ inline void finalize_plain_prot () {
 	PlainProt * cast_prot_exec = static_cast<PlainProt*> (ProtocolExecution::prot_exec);
 	int64_t z_index = cast_circ_exec->gid++;
 	cast_circ_exec->fout<<2<<" "<<1<<" "<<0<<" "<<0<<" "<<z_index<<" XOR"<<endl;
+	// outputs are the last wires, so the constant one has to come before them
+	int64_t o_index = cast_circ_exec->gid++;
+	cast_circ_exec->fout<<1<<" "<<1<<" "<<z_index<<" "<<o_index<<" INV"<<endl;
 	for (auto v : cast_prot_exec->output_vec) {
+		if (v < 0) v = (v == -2) ? o_index : z_index;
 		cast_circ_exec->fout<<2<<" "<<1<<" "<<z_index<<" "<<v<<" "<<cast_circ_exec->gid++<<" XOR"<<endl;
 	}
-	cast_circ_exec->gates += (1+cast_prot_exec->output_vec.size());
+	cast_circ_exec->gates += (2+cast_prot_exec->output_vec.size());
 	cast_circ_exec->finalize();
 
 	ProtocolExecution::prot_exec->finalize();
-- 
2.43.0


From 03d4626ed70a2d4b51cf11f49f4e5c42eda72190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:19 +0000
Subject: [PATCH 16/22] fix: HighSpeedNetIO closed its descriptors twice

---
 emp-tool/io/highspeed_net_io_channel.h | 2 --
 1 file changed, 2 deletions(-)

diff --git a/emp-tool/io/highspeed_net_io_channel.h b/emp-tool/io/highspeed_net_io_channel.h
index 9c53484..dc2b1b5 100644
--- a/emp-tool/io/highspeed_net_io_channel.h
+++ b/emp-tool/io/highspeed_net_io_channel.h
@@ -208,8 +208,6 @@ class HighSpeedNetIO : public IOChannel<HighSpeedNetIO> { public:
 		}
 		delete schannel;
 		delete rchannel;
-		close(send_sock);
-		close(recv_sock);
 	}
 
 	void sync() {}
-- 
2.43.0


From 294629d33cf54558636d59dcad537b06ddd57e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:19 +0000
Subject: [PATCH 17/22] fix: PRP(const char *) ignored the key it was given

---
 emp-tool/utils/prp.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/emp-tool/utils/prp.h b/emp-tool/utils/prp.h
index 08db0da..0ee4d5f 100644
--- a/emp-tool/utils/prp.h
+++ b/emp-tool/utils/prp.h
@@ -18,6 +18,8 @@ class PRP { public:
 	PRP(const char * key = nullptr) {
 		if(key == nullptr)
 			aes_set_key(zero_block);
+		else
+			aes_set_key(_mm_loadu_si128((const block *)key));
 	}
 
 	PRP(const block& key) {
-- 
2.43.0


From 1e80e62b506d6875b5f7fd2420e53f4c31da724c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:19 +0000
Subject: [PATCH 18/22] fix: uni_hash_coeff_gen wrote coefficients when none
 were asked for

---
 emp-tool/utils/f2k.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/emp-tool/utils/f2k.h b/emp-tool/utils/f2k.h
index 4819b0e..ea68ac2 100644
--- a/emp-tool/utils/f2k.h
+++ b/emp-tool/utils/f2k.h
@@ -167,6 +167,7 @@ inline void vector_inn_prdt_sum_no_red(block *res, const block *a, const block *
 /* coefficients of almost universal hash function */
 inline void uni_hash_coeff_gen(block* coeff, block seed, int sz) {
 	// Handle the case with small `sz`
+	if(sz <= 0) return;
 	coeff[0] = seed;
 	if(sz == 1) return;
 
-- 
2.43.0


From 74c3f3c4330da615239f131dde3452c745029c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:28 +0000
Subject: [PATCH 19/22] fix: recv_pt checked the received length only in debug
 builds

---
 emp-tool/io/io_channel.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emp-tool/io/io_channel.h b/emp-tool/io/io_channel.h
index 4453b8c..4b492ee 100644
--- a/emp-tool/io/io_channel.h
+++ b/emp-tool/io/io_channel.h
@@ -42,7 +42,7 @@ class IOChannel { public:
 		size_t len = 0;
 		for(size_t i = 0; i < num_pts; ++i) {
 			recv_data(&len, 4);
-			assert(len <= 2048);
+			if (len > 2048) error("recv_pt: encoding too long\n");
 			g->resize_scratch(len);
 			unsigned char * tmp = g->scratch;
 			recv_data(tmp, len);
-- 
2.43.0


From a998c77933b7a3fdb77d6aabc20530c065daa3d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:20:38 +0000
Subject: [PATCH 20/22] fix: Hash::put_block overflowed from 2^27 blocks on

---
 emp-tool/utils/hash.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/emp-tool/utils/hash.h b/emp-tool/utils/hash.h
index acd678f..4ffa460 100644
--- a/emp-tool/utils/hash.h
+++ b/emp-tool/utils/hash.h
@@ -22,13 +22,13 @@ class Hash { public:
 	~Hash() {
 		EVP_MD_CTX_destroy(mdctx);
 	}
-	void put(const void * data, int nbyte) {
-		if (nbyte >= HASH_BUFFER_SIZE) {
+	void put(const void * data, size_t nbyte) {
+		if (nbyte >= (size_t)HASH_BUFFER_SIZE) {
 			// bytes buffered by earlier calls come first
 			EVP_DigestUpdate(mdctx, buffer, size);
 			size = 0;
 			EVP_DigestUpdate(mdctx, data, nbyte);
-		} else if(size + nbyte < HASH_BUFFER_SIZE) {
+		} else if(size + nbyte < (size_t)HASH_BUFFER_SIZE) {
 			memcpy(buffer+size, data, nbyte);
 			size+=nbyte;
 		} else {
@@ -38,7 +38,7 @@ class Hash { public:
 		}
 	}
 	void put_block(const block* blk, int nblock=1){
-		put(blk, sizeof(block)*nblock);
+		put(blk, sizeof(block)*(size_t)nblock);
 	}
 	void digest(void * a) {
 		if(size > 0) {
-- 
2.43.0


From e9942cf93c851abd1a3d29e011cb0100aada484f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:20:43 +0000
Subject: [PATCH 21/22] fix: aes_128_ctr left data unencrypted beyond 2 GiB

---
 emp-tool/circuits/aes_128_ctr.h | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/emp-tool/circuits/aes_128_ctr.h b/emp-tool/circuits/aes_128_ctr.h
index cc913bf..b308d1e 100644
--- a/emp-tool/circuits/aes_128_ctr.h
+++ b/emp-tool/circuits/aes_128_ctr.h
@@ -74,16 +74,22 @@ int aes_128_ctr(const __m128i key,
 		return -2;
 	}
 	// Provide the message to be encrypted, and obtain the encrypted output.
-	// EVP_EncryptUpdate can be called multiple times if necessary
-	if(1 != EVP_EncryptUpdate(ctx, (unsigned char *) output, &len, (unsigned char *) input, num_bytes)) {
-		std::cerr<< "EVP_EncryptUpdate gave something besides 1\n"<<std::flush;
-		EVP_CIPHER_CTX_free(ctx);
-		return -3;
+	// EVP_EncryptUpdate takes the length as an int, so it is called repeatedly
+	// for long messages.
+	size_t ciphertext_len = 0;
+	while (ciphertext_len < num_bytes) {
+		const size_t rest = num_bytes - ciphertext_len;
+		const int step = rest > ((size_t)1 << 30) ? (1 << 30) : (int) rest;
+		if(1 != EVP_EncryptUpdate(ctx, ((unsigned char *) output) + ciphertext_len, &len, ((unsigned char *) input) + ciphertext_len, step)) {
+			std::cerr<< "EVP_EncryptUpdate gave something besides 1\n"<<std::flush;
+			EVP_CIPHER_CTX_free(ctx);
+			return -3;
+		}
+		ciphertext_len += len;
 	}
-	size_t ciphertext_len = len;
 	// Finalise the encryption. Further ciphertext bytes may be written at
 	// this stage.
-	if(1 != EVP_EncryptFinal_ex(ctx, ((unsigned char *) output) + len, &len)) {
+	if(1 != EVP_EncryptFinal_ex(ctx, ((unsigned char *) output) + ciphertext_len, &len)) {
 		std::cerr<< "EVP_EncryptFinal gave something besides 1\n"<<std::flush;
 		EVP_CIPHER_CTX_free(ctx);
 		return -4;
-- 
2.43.0


From b9a20b3b5b90e9fe7e6b6e5d0852cce076197513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:41 +0000
Subject: [PATCH 22/22] fix: error() used its message as a printf format

---
 emp-tool/utils/utils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emp-tool/utils/utils.hpp b/emp-tool/utils/utils.hpp
index e5e730f..700af41 100644
--- a/emp-tool/utils/utils.hpp
+++ b/emp-tool/utils/utils.hpp
@@ -20,7 +20,7 @@ inline double time_from(const time_point<high_resolution_clock>& s) {
 }
 
 inline void error(const char * s, int line, const char * file) {
-	fprintf(stderr, s, "\n");
+	fprintf(stderr, "%s\n", s);
 	if(file != nullptr) {
 		fprintf(stderr, "at %d, %s\n", line, file);
 	}
-- 
2.43.0

