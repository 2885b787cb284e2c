From 88d3e730a3f25ab6bda9915913d0fe47b7e22dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:11 +0000
Subject: [PATCH 01/37] fix: murmur hash tail must fall through (drops up to 14
 bytes of the input)

---
 src/libeopsi/murmurhash3.cpp | 60 ++++++++++++++++++------------------
 1 file changed, 30 insertions(+), 30 deletions(-)

diff --git a/src/libeopsi/murmurhash3.cpp b/src/libeopsi/murmurhash3.cpp
index 7f0f670..68c7716 100644
--- a/src/libeopsi/murmurhash3.cpp
+++ b/src/libeopsi/murmurhash3.cpp
@@ -117,10 +117,10 @@ void MurmurHash3::murmurHash3_x86_32 (const void * key, int len, void * out) {
   switch(len & 3) {
     case 3:
       k1 ^= tail[2] << 16;
-      break;
+      /* FALLTHRU */
     case 2:
       k1 ^= tail[1] << 8;
-      break;
+      /* FALLTHRU */
     case 1:
       k1 ^= tail[0];
       k1 *= c1;
@@ -210,58 +210,58 @@ void MurmurHash3::murmurHash3_x86_128 (const void * key, const int len, void * o
   switch(len & 15) {
     case 15:
       k4 ^= tail[14] << 16;
-      break;
+      /* FALLTHRU */
     case 14:
       k4 ^= tail[13] << 8;
-      break;
+      /* FALLTHRU */
     case 13:
       k4 ^= tail[12] << 0;
       k4 *= c4;
       k4  = ROTL32(k4,18);
       k4 *= c1;
       h4 ^= k4;
-      break;
+      /* FALLTHRU */
     case 12:
       k3 ^= tail[11] << 24;
-      break;
+      /* FALLTHRU */
     case 11:
       k3 ^= tail[10] << 16;
-      break;
+      /* FALLTHRU */
     case 10:
       k3 ^= tail[ 9] << 8;
-      break;
+      /* FALLTHRU */
     case  9:
       k3 ^= tail[ 8] << 0;
       k3 *= c3;
       k3  = ROTL32(k3,17);
       k3 *= c4;
       h3 ^= k3;
-      break;
+      /* FALLTHRU */
     case  8:
       k2 ^= tail[ 7] << 24;
-      break;
+      /* FALLTHRU */
     case  7:
       k2 ^= tail[ 6] << 16;
-      break;
+      /* FALLTHRU */
     case  6:
       k2 ^= tail[ 5] << 8;
-      break;
+      /* FALLTHRU */
     case  5:
       k2 ^= tail[ 4] << 0;
       k2 *= c2;
       k2  = ROTL32(k2,16);
       k2 *= c3;
       h2 ^= k2;
-      break;
+      /* FALLTHRU */
     case  4:
       k1 ^= tail[ 3] << 24;
-      break;
+      /* FALLTHRU */
     case  3:
       k1 ^= tail[ 2] << 16;
-      break;
+      /* FALLTHRU */
     case  2:
       k1 ^= tail[ 1] << 8;
-      break;
+      /* FALLTHRU */
     case  1:
       k1 ^= tail[ 0] << 0;
       k1 *= c1;
@@ -351,50 +351,50 @@ void MurmurHash3::murmurHash3_x64_128 (const void * key, const int len, void * o
   switch(len & 15) {
     case 15:
       k2 ^= ((uint64_t)tail[14]) << 48;
-      break;
+      /* FALLTHRU */
     case 14:
       k2 ^= ((uint64_t)tail[13]) << 40;
-      break;
+      /* FALLTHRU */
     case 13:
       k2 ^= ((uint64_t)tail[12]) << 32;
-      break;
+      /* FALLTHRU */
     case 12:
       k2 ^= ((uint64_t)tail[11]) << 24;
-      break;
+      /* FALLTHRU */
     case 11:
       k2 ^= ((uint64_t)tail[10]) << 16;
-      break;
+      /* FALLTHRU */
     case 10:
       k2 ^= ((uint64_t)tail[ 9]) << 8;
-      break;
+      /* FALLTHRU */
     case  9:
       k2 ^= ((uint64_t)tail[ 8]) << 0;
       k2 *= c2;
       k2  = ROTL64(k2,33);
       k2 *= c1;
       h2 ^= k2;
-      break;
+      /* FALLTHRU */
     case  8:
       k1 ^= ((uint64_t)tail[ 7]) << 56;
-      break;
+      /* FALLTHRU */
     case  7:
       k1 ^= ((uint64_t)tail[ 6]) << 48;
-      break;
+      /* FALLTHRU */
     case  6:
       k1 ^= ((uint64_t)tail[ 5]) << 40;
-      break;
+      /* FALLTHRU */
     case  5:
       k1 ^= ((uint64_t)tail[ 4]) << 32;
-      break;
+      /* FALLTHRU */
     case  4:
       k1 ^= ((uint64_t)tail[ 3]) << 24;
-      break;
+      /* FALLTHRU */
     case  3:
       k1 ^= ((uint64_t)tail[ 2]) << 16;
-      break;
+      /* FALLTHRU */
     case  2:
       k1 ^= ((uint64_t)tail[ 1]) << 8;
-      break;
+      /* FALLTHRU */
     case  1:
       k1 ^= ((uint64_t)tail[ 0]) << 0;
       k1 *= c1;
-- 
2.43.0


From 04b021f589038af8219a550632342ac54b3e3569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:11 +0000
Subject: [PATCH 02/37] fix: murmur hash reads four times the length of its
 input

---
 src/libeopsi/murmurhash3.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libeopsi/murmurhash3.cpp b/src/libeopsi/murmurhash3.cpp
index 68c7716..e1de550 100644
--- a/src/libeopsi/murmurhash3.cpp
+++ b/src/libeopsi/murmurhash3.cpp
@@ -457,7 +457,7 @@ byte* MurmurHash3::hash(const NTL::ZZ_p n, const size_t len) {
   zzString = zzStreamString.str();
   truncLen = len > 0 && len < zzString.length() ? len : zzString.length();
   
-  murmurHash3_x64_128((const void *) zzString.c_str(), 4*truncLen, (void *) this->hash128);
+  murmurHash3_x64_128((const void *) zzString.c_str(), truncLen, (void *) this->hash128);
   return this->hash128;
 }
 //-----------------------------------------------------------------------------
-- 
2.43.0


From de86589ef42566c45d50bff182dab1db7015065e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:39 +0000
Subject: [PATCH 03/37] fix: a message from an unknown sender crashes the
 client instead of being refused

---
 src/libeopsi/eopsiclient.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libeopsi/eopsiclient.cpp b/src/libeopsi/eopsiclient.cpp
index 8ab2795..e975faa 100644
--- a/src/libeopsi/eopsiclient.cpp
+++ b/src/libeopsi/eopsiclient.cpp
@@ -222,7 +222,7 @@ bool EOPSIClient::isAuthorised(const EOPSIMessage *msg) const {
   }
   
   sender = getPartyById(msg->getPartyId());
-  if (!hasAuthenticated(*sender)) {
+  if (sender == nullptr || !hasAuthenticated(*sender)) {
     return false;
   }
   
-- 
2.43.0


From 8437ab2a4bfac13648209a5c438bee2d1686cd46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:41 +0000
Subject: [PATCH 04/37] fix: the responder reads only three bytes of the
 requester's secret

---
 src/libeopsi/eopsiclient.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libeopsi/eopsiclient.cpp b/src/libeopsi/eopsiclient.cpp
index e975faa..c3f19c7 100644
--- a/src/libeopsi/eopsiclient.cpp
+++ b/src/libeopsi/eopsiclient.cpp
@@ -144,7 +144,7 @@ void EOPSIClient::receive(EOPSIMessage* msg) {
       
       // Reception feedback
       otherSecretBytes = &((byte *) msg->getData())[msgClaimedId.length() + 1];
-      otherSecret = NTL::ZZFromBytes(otherSecretBytes, 3);
+      otherSecret = NTL::ZZFromBytes(otherSecretBytes, msg->length() - msgClaimedId.length() - 1);
       std::cout << id << ". Received \"" << otherSecret << "\" from " << sender->getId() << "." << std::endl;
       
       // Send the message to cloud
-- 
2.43.0


From 903aebf5272e0da85c130494665930582d0f4ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:43 +0000
Subject: [PATCH 05/37] fix: missing or truncated message content is read out
 of bounds instead of being refused

---
 src/libeopsi/eopsiclient.cpp | 19 +++++++++++++++----
 src/libeopsi/eopsimsg.cpp    | 20 ++++++++++++++++++++
 src/libeopsi/eopsimsg.h      | 10 ++++++++++
 src/libeopsi/eopsiserver.cpp | 15 ++++++++++++---
 4 files changed, 57 insertions(+), 7 deletions(-)

diff --git a/src/libeopsi/eopsiclient.cpp b/src/libeopsi/eopsiclient.cpp
index c3f19c7..4db91ed 100644
--- a/src/libeopsi/eopsiclient.cpp
+++ b/src/libeopsi/eopsiclient.cpp
@@ -68,7 +68,7 @@ void EOPSIClient::receive(EOPSIMessage* msg) {
   NTL::ZZ tmpKey;
   byte *tmpKeyBytes;
   byte *data = nullptr;
-  size_t dataLen, tmpKeyByteSize, i;
+  size_t dataLen, tmpKeyByteSize, i, pos;
   std::map<std::string, EOPSIParty*>::const_iterator mi;
   NTL::vec_ZZ_p setcap;
   
@@ -89,7 +89,10 @@ void EOPSIClient::receive(EOPSIMessage* msg) {
       bm.start();
       
       // Check sender and message content
-      msgClaimedId = (char *) msg->getData();
+      pos = 0;
+      if (!msg->readString(pos, msgClaimedId)) {
+        throw ProtocolException("Missing or truncated message data");
+      }
       if (msgClaimedId != sender->getId()) {
         throw ProtocolException("Id mismatch between sender and message data");
       }
@@ -143,8 +146,8 @@ void EOPSIClient::receive(EOPSIMessage* msg) {
       }
       
       // Reception feedback
-      otherSecretBytes = &((byte *) msg->getData())[msgClaimedId.length() + 1];
-      otherSecret = NTL::ZZFromBytes(otherSecretBytes, msg->length() - msgClaimedId.length() - 1);
+      otherSecretBytes = &((byte *) msg->getData())[pos];
+      otherSecret = NTL::ZZFromBytes(otherSecretBytes, msg->length() - pos);
       std::cout << id << ". Received \"" << otherSecret << "\" from " << sender->getId() << "." << std::endl;
       
       // Send the message to cloud
@@ -173,6 +176,10 @@ void EOPSIClient::receive(EOPSIMessage* msg) {
       break;
       
     case EOPSI_MESSAGE_OUTPUT_COMPUTATION:
+      if (msg->getData() == nullptr) {
+        throw ProtocolException("Missing or truncated message data");
+      }
+      
       bm.start();
       t = (NTL::vec_ZZ_p *) msg->getData();
       // Reception feedback
@@ -189,6 +196,10 @@ void EOPSIClient::receive(EOPSIMessage* msg) {
       break;
       
     case EOPSI_MESSAGE_POLYNOMIAL:
+      if (msg->getData() == nullptr) {
+        throw ProtocolException("Missing or truncated message data");
+      }
+      
       bm.start();
       q = (NTL::vec_ZZ_p *) msg->getData();
       // Reception feedback
diff --git a/src/libeopsi/eopsimsg.cpp b/src/libeopsi/eopsimsg.cpp
index d99152c..149021b 100644
--- a/src/libeopsi/eopsimsg.cpp
+++ b/src/libeopsi/eopsimsg.cpp
@@ -4,6 +4,7 @@
  * Copyright (C) 2016  Roberto Metere, Glasgow <roberto.metere@strath.ac.uk>
  */
 
+#include <cstring>
 #include "eopsimsg.h"
 //-----------------------------------------------------------------------------
 
@@ -57,3 +58,22 @@ size_t EOPSIMessage::length() const {
 }
 //-----------------------------------------------------------------------------
 
+bool EOPSIMessage::readString(size_t& pos, std::string& str) const {
+  const char *begin, *end;
+  
+  if (this->data == nullptr || pos >= this->len) {
+    return false;
+  }
+  
+  begin = (const char *) this->data + pos;
+  end = (const char *) std::memchr(begin, '\0', this->len - pos);
+  if (end == nullptr) {
+    return false;
+  }
+  
+  str.assign(begin, end);
+  pos += str.length() + 1;
+  return true;
+}
+//-----------------------------------------------------------------------------
+
diff --git a/src/libeopsi/eopsimsg.h b/src/libeopsi/eopsimsg.h
index b720c39..380de3e 100644
--- a/src/libeopsi/eopsimsg.h
+++ b/src/libeopsi/eopsimsg.h
@@ -47,6 +47,16 @@ public:
   virtual void setData(void* data, const size_t length = 0);
   virtual void* getData() const;
   virtual size_t length() const;
+  
+  /**
+   * Read a null-terminated string out of the message data, never reading
+   * beyond the message length.
+   * 
+   * @param pos the position to read from, moved just after the terminator
+   * @param str the string read
+   * @return <code>false</code> if there is no such string in the message data
+   */
+  virtual bool readString(size_t& pos, std::string& str) const;
 };
 //-----------------------------------------------------------------------------
 
diff --git a/src/libeopsi/eopsiserver.cpp b/src/libeopsi/eopsiserver.cpp
index 3ff7d0a..41cf6f9 100644
--- a/src/libeopsi/eopsiserver.cpp
+++ b/src/libeopsi/eopsiserver.cpp
@@ -27,6 +27,7 @@ void EOPSIServer::receive(EOPSIMessage* msg) {
   NTL::ZZ tmpKey;
   byte *tmpKeyBytes;
   NTL::vec_ZZ_p *t;
+  size_t pos;
   
   if (msg->getPartyId() == this->id) {
     throw ProtocolException("Self-messaging is not allowed in EOPSI protocol");
@@ -48,14 +49,19 @@ void EOPSIServer::receive(EOPSIMessage* msg) {
       }
       
       // Check sender and message content
-      msgClaimedId = (char *) msg->getData();
+      pos = 0;
+      if (!msg->readString(pos, msgClaimedId)) {
+        throw ProtocolException("Missing or truncated message data");
+      }
       if (msgClaimedId != sender->getId()) {
         throw ProtocolException("Id mismatch between sender and message data");
       }
-      partnerId = &((char *) msg->getData())[msgClaimedId.length() + 1];
+      if (!msg->readString(pos, partnerId) || msg->length() - pos < NTL::bytes(DEFAULT_KEY_BITSIZE)) {
+        throw ProtocolException("Missing or truncated message data");
+      }
       
       // Prepare message for the partner client
-      tmpKeyBytes = (&((byte *) msg->getData())[msgClaimedId.length() + 1 + partnerId.length() + 1]);
+      tmpKeyBytes = (&((byte *) msg->getData())[pos]);
       tmpKey = NTL::ZZFromBytes(tmpKeyBytes, NTL::bytes(DEFAULT_KEY_BITSIZE));
       std::cout << "I, " << id << ", received key \"" << tmpKey << "\" from " << sender->getId() << std::endl;
       
@@ -76,6 +82,9 @@ void EOPSIServer::receive(EOPSIMessage* msg) {
       if (sender->getType() == EOPSI_PARTY_SERVER) {
         throw ProtocolException("Outsourcing data between servers is not (yet) supported");
       }
+      if (msg->getData() == nullptr || msg->length() < this->length * this->degree) {
+        throw ProtocolException("Missing or truncated message data");
+      }
       this->storedData[sender->getId()] = msg;
       std::cout << id << ". Data from " << sender->getId() << " stored (size " << msg->length() << ")." << std::endl;
       
-- 
2.43.0


From 9f3366c029d0e50157a256f8838cc37d946c079d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:44 +0000
Subject: [PATCH 06/37] fix: a request naming an unknown client, or one without
 outsourced data, crashes the server

---
 src/libeopsi/eopsiserver.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/libeopsi/eopsiserver.cpp b/src/libeopsi/eopsiserver.cpp
index 41cf6f9..e5b792e 100644
--- a/src/libeopsi/eopsiserver.cpp
+++ b/src/libeopsi/eopsiserver.cpp
@@ -60,6 +60,11 @@ void EOPSIServer::receive(EOPSIMessage* msg) {
         throw ProtocolException("Missing or truncated message data");
       }
       
+      // Both parties must be known and have outsourced their data
+      if (getPartyById(partnerId) == nullptr || storedData.count(sender->getId()) == 0 || storedData.count(partnerId) == 0) {
+        throw ProtocolException("No outsourced data to compute the intersection of \"" + sender->getId() + "\" and \"" + partnerId + "\".");
+      }
+      
       // Prepare message for the partner client
       tmpKeyBytes = (&((byte *) msg->getData())[pos]);
       tmpKey = NTL::ZZFromBytes(tmpKeyBytes, NTL::bytes(DEFAULT_KEY_BITSIZE));
-- 
2.43.0


From a89e7b1d84c930d8a3ec5a87635d91ac0c50cefc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:46 +0000
Subject: [PATCH 07/37] fix: a computation request the cloud refuses ends the
 responder's process

---
 src/libeopsi/eopsiclient.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/libeopsi/eopsiclient.cpp b/src/libeopsi/eopsiclient.cpp
index 4db91ed..2d49935 100644
--- a/src/libeopsi/eopsiclient.cpp
+++ b/src/libeopsi/eopsiclient.cpp
@@ -141,8 +141,8 @@ void EOPSIClient::receive(EOPSIMessage* msg) {
         mi++;
       }
       if (cloud == nullptr) {
-        std::cerr << "receive(). Could not find any cloud to outsource data to." << std::endl;
-        exit(2);
+        delete [] data;
+        throw ProtocolException("Could not find any cloud to outsource data to.");
       }
       
       // Reception feedback
@@ -157,7 +157,8 @@ void EOPSIClient::receive(EOPSIMessage* msg) {
         this->send(*cloud, &msgToCloud);
       } catch (ProtocolException &e) {
         std::cerr << "receive(). " << e.what() << std::endl;
-        exit(2);
+        delete [] data; // The cloud releases it only when it accepts the request
+        throw;
       }
       bm.cont();
       
-- 
2.43.0


From bf861a0310f893051c88c25fc41fa66c5c59d8d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:48 +0000
Subject: [PATCH 08/37] fix: the client keeps and reuses the shares it has
 released after an intersection

---
 src/libeopsi/eopsiclient.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/libeopsi/eopsiclient.cpp b/src/libeopsi/eopsiclient.cpp
index 2d49935..a410ead 100644
--- a/src/libeopsi/eopsiclient.cpp
+++ b/src/libeopsi/eopsiclient.cpp
@@ -191,6 +191,7 @@ void EOPSIClient::receive(EOPSIMessage* msg) {
         std::cout << "Finding intersection required " << bm.cumulativeBenchmark().count()/1000. << " ms" << std::endl;
         delete [] t;
         delete [] q;
+        t = q = nullptr;
       }
       std::cout << EOPSI_MESSAGE_OUTPUT_COMPUTATION << ". Receiving partial intersection data \"t\" required " << bm.cumulativeBenchmark("int-unsure").count() << " µs" << std::endl;
       
@@ -211,6 +212,7 @@ void EOPSIClient::receive(EOPSIMessage* msg) {
         std::cout << "Finding intersection required " << bm.cumulativeBenchmark().count()/1000. << " ms" << std::endl;
         delete [] t;
         delete [] q;
+        t = q = nullptr;
       }
       std::cout << EOPSI_MESSAGE_POLYNOMIAL << ". Receiving partial intersection data \"q\" required " << bm.cumulativeBenchmark("int-unsure").count() << " µs" << std::endl;
       break;
-- 
2.43.0


From 1826c06251fda0a27cdd6b375e670196fa502e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:50 +0000
Subject: [PATCH 09/37] fix: the share a responder sends overwrites the one it
 waits for as a requester

---
 src/libeopsi/eopsiclient.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/libeopsi/eopsiclient.cpp b/src/libeopsi/eopsiclient.cpp
index a410ead..0b2b8ac 100644
--- a/src/libeopsi/eopsiclient.cpp
+++ b/src/libeopsi/eopsiclient.cpp
@@ -70,7 +70,7 @@ void EOPSIClient::receive(EOPSIMessage* msg) {
   byte *data = nullptr;
   size_t dataLen, tmpKeyByteSize, i, pos;
   std::map<std::string, EOPSIParty*>::const_iterator mi;
-  NTL::vec_ZZ_p setcap;
+  NTL::vec_ZZ_p *share;
   
   if (msg->getPartyId() == this->id) {
     throw ProtocolException("Self-messaging is not allowed in EO-PSI protocol");
@@ -165,8 +165,8 @@ void EOPSIClient::receive(EOPSIMessage* msg) {
       /*
        * 2. Send q to client
        */
-      q = delegationOutput(otherSecret, tmpKey);
-      msgToClient.setData((void *) q, 1);
+      share = delegationOutput(otherSecret, tmpKey);
+      msgToClient.setData((void *) share, 1);
       msgToClient.setType(EOPSI_MESSAGE_POLYNOMIAL);
       msgToClient.setPartyId(this->getId());
       
-- 
2.43.0


From b8dabee773e51103854d48811da3c0d3a50b293a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:51 +0000
Subject: [PATCH 10/37] fix: the common element zero is never found

---
 src/libeopsi/zzppoly.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libeopsi/zzppoly.cpp b/src/libeopsi/zzppoly.cpp
index f0100a2..af57719 100644
--- a/src/libeopsi/zzppoly.cpp
+++ b/src/libeopsi/zzppoly.cpp
@@ -149,7 +149,7 @@ NTL::vec_ZZ& ZZpPolynomials::findIntersection() {
         z = rep(-(NTL::ConstTerm(this->factorPairs[j][k].a)));
         
 //         std::cout << "Result " << k << ": " << z << " - Leading zeros: " << NTL::countLeadingZeros(z) << std::endl;
-        if (NTL::countLeadingZeros(z) >= this->padsize) {
+        if (NTL::IsZero(z) || NTL::countLeadingZeros(z) >= this->padsize) {
           NTL::append(this->roots, z >> this->padsize);
         }
       }
@@ -224,7 +224,7 @@ NTL::vec_ZZ& ZZpPolynomials::findIntersection(NTL::vec_ZZ_p& x, NTL::vec_ZZ_p *y
         z = rep(-(NTL::ConstTerm(this->factorPairs[j][k].a)));
         
 //         std::cout << "Result " << k << ": " << z << " - Leading zeros: " << NTL::countLeadingZeros(z) << std::endl;
-        if (NTL::countLeadingZeros(z) >= this->padsize) {
+        if (NTL::IsZero(z) || NTL::countLeadingZeros(z) >= this->padsize) {
           NTL::append(this->roots, z >> this->padsize);
         }
       }
-- 
2.43.0


From 8a3074641561782c47c98c70aa04237c43eedc1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:53 +0000
Subject: [PATCH 11/37] fix: the size of a hash table is always zero

---
 src/libeopsi/hashbuckets.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/libeopsi/hashbuckets.hpp b/src/libeopsi/hashbuckets.hpp
index 2acac0a..d31825a 100644
--- a/src/libeopsi/hashbuckets.hpp
+++ b/src/libeopsi/hashbuckets.hpp
@@ -141,6 +141,7 @@ template <typename T> void HashBuckets<T>::add(const T& element) {
 //     if (index == 0)
 //     std::cerr << "HashBuckets<T>::add()" << ". Index of " << element << " is " << index << "." << std::endl; // Debug purposes
     this->buckets[index].push_back(element);
+    this->n++;
 }
 //-----------------------------------------------------------------------------
 
@@ -148,6 +149,7 @@ template <typename T> void HashBuckets<T>::addToBucket(const T& element, const s
   size_t index = i;
   if (index < this->k) {
     this->buckets[index].push_back(element);
+    this->n++;
   } else {
     throw OutOfBoundException("HashBuckets<T>::addToBucket(). Index out of bound.", OutOfBoundException::FATAL);
   }
-- 
2.43.0


From beafaf6502db9a561b1dbc3060268fb690f5658b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:19 +0000
Subject: [PATCH 12/37] fix: adding to a given bucket, or without hash
 algorithm, exceeds the maximum load

---
 src/libeopsi/hashbuckets.hpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/libeopsi/hashbuckets.hpp b/src/libeopsi/hashbuckets.hpp
index d31825a..a154b1d 100644
--- a/src/libeopsi/hashbuckets.hpp
+++ b/src/libeopsi/hashbuckets.hpp
@@ -127,12 +127,6 @@ template <typename T> void HashBuckets<T>::add(const T& element) {
     this->hashStrInt->set(this->hashAlgorithm->hash(element), this->hashAlgorithm->hashSize());
     index = this->hashStrInt->rem(this->k);
 //     std::cerr << element << " hashed to "<< *this->hashStrInt << " mod " << this->k << " = " << index << std::endl;
-    
-    if (this->buckets[index].size() == this->maxLoad) {
-      std::stringstream msg;
-      msg << "HashBuckets<T>::addToBucket(). MarkedVector " << index << " full.";
-      throw OutOfBoundException(msg.str(), OutOfBoundException::FATAL);
-    }
   } else {
     index = 0;
     std::cerr << "HashBuckets<T>::add()" << ". Element index completely invented (you did not set a hash algorithm)." << std::endl;
@@ -140,14 +134,18 @@ template <typename T> void HashBuckets<T>::add(const T& element) {
     
 //     if (index == 0)
 //     std::cerr << "HashBuckets<T>::add()" << ". Index of " << element << " is " << index << "." << std::endl; // Debug purposes
-    this->buckets[index].push_back(element);
-    this->n++;
+    this->addToBucket(element, index);
 }
 //-----------------------------------------------------------------------------
 
 template <typename T> void HashBuckets<T>::addToBucket(const T& element, const size_t i) {
   size_t index = i;
   if (index < this->k) {
+    if (this->buckets[index].size() >= this->maxLoad) {
+      std::stringstream msg;
+      msg << "HashBuckets<T>::addToBucket(). MarkedVector " << index << " full.";
+      throw OutOfBoundException(msg.str(), OutOfBoundException::FATAL);
+    }
     this->buckets[index].push_back(element);
     this->n++;
   } else {
-- 
2.43.0


From 8cbf18a8c52cde58d243078156cbea629ac0fabf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:20 +0000
Subject: [PATCH 13/37] fix: setting a number from no bytes keeps part of the
 previous number

---
 src/libeopsi/strint.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/libeopsi/strint.cpp b/src/libeopsi/strint.cpp
index e3c2761..e0834be 100644
--- a/src/libeopsi/strint.cpp
+++ b/src/libeopsi/strint.cpp
@@ -103,7 +103,11 @@ void StrInt::set(const byte *n, const size_t len) {
   }
   
   // Save to z
-  mpz_set(z, b[0]);
+  if (dim > 0) {
+    mpz_set(z, b[0]);
+  } else {
+    mpz_set_ui(z, 0);
+  }
 }
 //-----------------------------------------------------------------------------
 
-- 
2.43.0


From 9b744fad768176fcce34fc8aa359444f4a2a0d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:22 +0000
Subject: [PATCH 14/37] fix: the least significant bits are computed modulo
 2^64-1 of an internal summand

---
 src/libeopsi/strint.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libeopsi/strint.cpp b/src/libeopsi/strint.cpp
index e0834be..4f870a5 100644
--- a/src/libeopsi/strint.cpp
+++ b/src/libeopsi/strint.cpp
@@ -117,7 +117,7 @@ unsigned long StrInt::rem(const unsigned long divisor) const {
 //-----------------------------------------------------------------------------
 
 unsigned long StrInt::lsb() const {
-  return mpz_fdiv_ui(b[0], (unsigned long) (-1L));
+  return mpz_get_ui(z);
 }
 //-----------------------------------------------------------------------------
 
-- 
2.43.0


From 560eec65ccc06e4626b3d37bf97f62e2248495d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:23 +0000
Subject: [PATCH 15/37] fix: the byte conversion of a number counts bits as
 bytes and exits or crashes

---
 src/libeopsi/strint.cpp | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/libeopsi/strint.cpp b/src/libeopsi/strint.cpp
index 4f870a5..f038424 100644
--- a/src/libeopsi/strint.cpp
+++ b/src/libeopsi/strint.cpp
@@ -144,7 +144,9 @@ byte* StrInt::toBytes(byte *barr, size_t* bytelen) const {
   const int BIG_ENDIANNESS = 1;
   const size_t LEN = this->getByteSize();
   
-  if ((barr != NULL) && (bytelen != NULL) && (*bytelen != LEN)) {
+  size_t count;
+  
+  if ((barr == NULL) || (bytelen == NULL) || (*bytelen < LEN)) {
     try {
       barr = new byte[LEN];
     } catch (std::bad_alloc&) {
@@ -152,19 +154,22 @@ byte* StrInt::toBytes(byte *barr, size_t* bytelen) const {
       exit(2);
     }
   }
-  mpz_export((void *) barr, bytelen, MSB_FIRST, sizeof(byte), BIG_ENDIANNESS, 0, this->z);
+  mpz_export((void *) barr, &count, MSB_FIRST, sizeof(byte), BIG_ENDIANNESS, 0, this->z);
   
   /*
    * If this->z is zero then the count returned will be zero and nothing 
-   * written to barr. If barr is NULL in this case, no block is allocated, 
-   * just NULL is returned. 
+   * written to barr.
    */
-  if (*bytelen == 0 && LEN == 1) {
+  if (count == 0 && LEN == 1) {
     barr[0] = '\0';
-    *bytelen = 1;
+    count = 1;
+  }
+  
+  if (bytelen != NULL) {
+    *bytelen = count;
   }
   
-  if (*bytelen != LEN) {
+  if (count != LEN) {
     std::cerr << "toBytes(). Something unexpected happened in conversion." << std::endl;
     exit(2);
   }
@@ -174,7 +179,7 @@ byte* StrInt::toBytes(byte *barr, size_t* bytelen) const {
 //-----------------------------------------------------------------------------
 
 size_t StrInt::getByteSize() const {
-  return (mpz_sizeinbase(this->z, 2) + sizeof(byte) - 1)/sizeof(byte);
+  return (mpz_sizeinbase(this->z, 2) + 8*sizeof(byte) - 1)/(8*sizeof(byte));
 }
 //-----------------------------------------------------------------------------
 
-- 
2.43.0


From 32740efaf0238f759d0768e6d1802c6908c4eba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:25 +0000
Subject: [PATCH 16/37] fix: the name of a SHA algorithm is read out of the
 bounds of a literal

---
 src/libeopsi/sha.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libeopsi/sha.hpp b/src/libeopsi/sha.hpp
index f2c0fc8..11ff6e8 100644
--- a/src/libeopsi/sha.hpp
+++ b/src/libeopsi/sha.hpp
@@ -99,7 +99,7 @@ public:
   }
   
   virtual std::string name() const {
-    return "SHA" + this->flavour;
+    return "SHA" + std::to_string(this->flavour);
   }
 };
 //-----------------------------------------------------------------------------
-- 
2.43.0


From 84dd543a12fd0fee255c18ec9b24a557c390523d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:26 +0000
Subject: [PATCH 17/37] fix: copies of SHA algorithms and of pseudo-random
 functions release the same memory twice

---
 src/libeopsi/sha.hpp   | 10 ++++++++++
 src/libeopsi/zzprf.cpp | 16 ++++++++++++++++
 src/libeopsi/zzprf.h   |  2 ++
 3 files changed, 28 insertions(+)

diff --git a/src/libeopsi/sha.hpp b/src/libeopsi/sha.hpp
index 11ff6e8..8f33a68 100644
--- a/src/libeopsi/sha.hpp
+++ b/src/libeopsi/sha.hpp
@@ -78,6 +78,16 @@ public:
     this->setFlavour(flavour);
   }
   
+  SHA(const SHA& other) : SHA(other.flavour) {
+  }
+  
+  SHA& operator=(const SHA& other) {
+    if (this != &other) {
+      this->setFlavour(other.flavour);
+    }
+    return *this;
+  }
+  
   ~SHA() {
     if (this->sha != nullptr) {
       delete this->sha;
diff --git a/src/libeopsi/zzprf.cpp b/src/libeopsi/zzprf.cpp
index a87346c..ad438ce 100644
--- a/src/libeopsi/zzprf.cpp
+++ b/src/libeopsi/zzprf.cpp
@@ -19,6 +19,22 @@ ZZPRF::ZZPRF() : PseudoRandom() {
 }
 //-----------------------------------------------------------------------------
 
+ZZPRF::ZZPRF(const ZZPRF& other) : ZZPRF() {
+  *this = other;
+}
+//-----------------------------------------------------------------------------
+
+ZZPRF& ZZPRF::operator=(const ZZPRF& other) {
+  // Buffers are not shared
+  if (this != &other) {
+    autoIndex = other.autoIndex;
+    autoSeed = other.autoSeed;
+    autoSeedPtr = other.autoSeedPtr != nullptr ? &autoSeed : nullptr;
+  }
+  return *this;
+}
+//-----------------------------------------------------------------------------
+
 ZZPRF::~ZZPRF() {
   if (gen != nullptr) {
     delete [] gen;
diff --git a/src/libeopsi/zzprf.h b/src/libeopsi/zzprf.h
index 46629cb..30a7e3e 100644
--- a/src/libeopsi/zzprf.h
+++ b/src/libeopsi/zzprf.h
@@ -32,6 +32,8 @@ protected:
   
 public:
   ZZPRF();
+  ZZPRF(const ZZPRF& other);
+  ZZPRF& operator=(const ZZPRF& other);
   virtual ~ZZPRF();
   
   virtual NTL::ZZ generate(const NTL::ZZ seed, const size_t index, const size_t bits = 0);
-- 
2.43.0


From a48611d19716b8b1bfd19045fb1fb308064a50d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:55 +0000
Subject: [PATCH 18/37] fix: numbers of unspecified length shift a byte by
 their whole length

---
 src/libeopsi/zzprf.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libeopsi/zzprf.cpp b/src/libeopsi/zzprf.cpp
index ad438ce..36dd63e 100644
--- a/src/libeopsi/zzprf.cpp
+++ b/src/libeopsi/zzprf.cpp
@@ -116,7 +116,7 @@ NTL::ZZ ZZPRF::generate(const NTL::ZZ seed, const size_t index, const size_t bit
   } while (r > 0);
   
   // Cut bits
-  rbits = n*8 - bits;
+  rbits = bits > 0 ? n*8 - bits : 0;
 //   std::cerr << (int) (gen[0]) << " -> ";
 //   gen[n - 1] = (gen[n - 1] << rbits) >> rbits; // This does not work --- bug?
   // [[WARNING]] the right order of these might be endian dependend
-- 
2.43.0


From 9b40ee8f8d4a89c77eb8c3ec8880ce49fa039330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:56 +0000
Subject: [PATCH 19/37] fix: factorisations of a previous number of polynomials
 are used after interpolating

---
 src/libeopsi/zzppoly.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/libeopsi/zzppoly.cpp b/src/libeopsi/zzppoly.cpp
index af57719..29d3cbc 100644
--- a/src/libeopsi/zzppoly.cpp
+++ b/src/libeopsi/zzppoly.cpp
@@ -70,6 +70,12 @@ void ZZpPolynomials::interpolate(NTL::vec_ZZ_p& x, NTL::vec_ZZ_p *y, const size_
       }
       
       this->polynomials = new NTL::ZZ_pX[n];
+      
+      // Any factorisation belongs to the previous polynomials
+      if (this->factorPairs != nullptr) {
+        delete [] this->factorPairs;
+        this->factorPairs = nullptr;
+      }
     } catch (std::bad_alloc &) {
       std::cerr << "interpolate(). Error allocating memory." << std::endl;
       exit(2);
@@ -178,7 +184,7 @@ NTL::vec_ZZ& ZZpPolynomials::findIntersection(NTL::vec_ZZ_p& x, NTL::vec_ZZ_p *y
       break;
   }
   
-  if (this->n != n) {
+  if (this->n != n || this->factorPairs == nullptr) {
     try {
       if (this->polynomials != nullptr) {
         delete [] this->polynomials;
-- 
2.43.0


From 733a07d8a12b1cad2ab7b0ceef84c57f328e2153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:58 +0000
Subject: [PATCH 20/37] fix: the last interval is read out of bounds when there
 is no interval

---
 src/libeopsi/simplebm.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libeopsi/simplebm.cpp b/src/libeopsi/simplebm.cpp
index 370c493..b182908 100644
--- a/src/libeopsi/simplebm.cpp
+++ b/src/libeopsi/simplebm.cpp
@@ -209,7 +209,7 @@ bool SimpleBenchmark::isStopped() const {
 //-----------------------------------------------------------------------------
 
 std::chrono::microseconds SimpleBenchmark::benchmark(const size_t cursor) const {
-  if (cursor >= this->times.size()) {
+  if (cursor >= this->times.size() || this->times.size() < 2) {
     return SimpleBenchmark::ZEROMS;
   }
   
-- 
2.43.0


From 8e8e5f67f9f0596de04c09fe32cbc1d75ebb96aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:59 +0000
Subject: [PATCH 21/37] fix: the variance of the bucket sizes truncates every
 deviation

---
 src/libeopsi/hashbuckets.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/libeopsi/hashbuckets.hpp b/src/libeopsi/hashbuckets.hpp
index a154b1d..e6f421c 100644
--- a/src/libeopsi/hashbuckets.hpp
+++ b/src/libeopsi/hashbuckets.hpp
@@ -182,8 +182,8 @@ template <typename T> size_t HashBuckets<T>::getMaxLoad() const {
 //-----------------------------------------------------------------------------
 
 template <typename T> void HashBuckets<T>::printStats(bool full) const {
-  size_t minSize, minBucket, maxSize, maxBucket, total, diff, nshow;
-  double avgSize, varSize;
+  size_t minSize, minBucket, maxSize, maxBucket, total, nshow;
+  double avgSize, varSize, diff;
   
   // Integer stuff
   total = minSize = maxSize = this->buckets[0].size();
@@ -205,7 +205,7 @@ template <typename T> void HashBuckets<T>::printStats(bool full) const {
   varSize = 0.0;
   for (size_t i = 0; i < this->k; i++) {
     diff = (avgSize > this->buckets[i].size()) ? avgSize - this->buckets[i].size() : this->buckets[i].size() - avgSize;
-    varSize += (double) diff * diff / this->k;
+    varSize += diff * diff / this->k;
   }
   
   // Print stats
-- 
2.43.0


From 23af2d36a3e35a1148e6b0b2f96e52c5c176e745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:33 +0000
Subject: [PATCH 22/37] fix: statistics that count the pauses are always zero
 or leave the pauses out

---
 src/libeopsi/simplebm.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/libeopsi/simplebm.cpp b/src/libeopsi/simplebm.cpp
index b182908..516a10b 100644
--- a/src/libeopsi/simplebm.cpp
+++ b/src/libeopsi/simplebm.cpp
@@ -83,7 +83,7 @@ std::chrono::microseconds SimpleBenchmark::minOrMax(const bool giveMax, const bo
   
   min = max = currentInterval = ZEROMS;
   
-  if ((this->times.size() < 2) || (!noPauses && (this->countNotPausedTimes(this->times.size(), 0) < 2))) {
+  if (this->times.size() < 2) {
     std::cerr << "minOrMax(). No intervals taken." << std::endl;
     return ZEROMS;
   }
@@ -252,14 +252,14 @@ std::chrono::microseconds SimpleBenchmark::cumulativeBenchmark(const std::string
 //-----------------------------------------------------------------------------
 
 double SimpleBenchmark::average(const bool noPauses) const {
-  if ((this->times.size() < 2) || (!noPauses && (this->countNotPausedTimes(this->times.size(), 0) < 2))) {
+  if (this->times.size() < 2) {
     std::cerr << "average(). Not enough points to average." << std::endl;
     return 0.;
   }
   if (noPauses) {
     return this->cumulativeBenchmark(false).count() / (double) this->countNotPausedTimes(1, this->times.size());
   } else {
-    return this->cumulativeBenchmark().count() / (double) (this->times.size() - 1);
+    return this->cumulativeBenchmark((size_t) 0, false).count() / (double) (this->times.size() - 1);
   }
 }
 //-----------------------------------------------------------------------------
@@ -269,7 +269,7 @@ double SimpleBenchmark::variance(const bool noPauses) const {
   size_t n;
   unsigned long x;
   
-  if ((this->times.size() < 2) || (!noPauses && (this->countNotPausedTimes(this->times.size(), 0) < 2))) {
+  if (this->times.size() < 2) {
     std::cerr << "variance(). Not enough points to compute variance." << std::endl;
     return 0.;
   }
@@ -290,7 +290,7 @@ double SimpleBenchmark::variance(const bool noPauses) const {
 //-----------------------------------------------------------------------------
 
 double SimpleBenchmark::standardDeviation(const bool noPauses) const {
-  if ((this->times.size() < 2) || (!noPauses && (this->countNotPausedTimes(this->times.size(), 0) < 2))) {
+  if (this->times.size() < 2) {
     std::cerr << "standardDeviation(). Not enough points to compute standard deviation." << std::endl;
     return 0.;
   }
@@ -300,7 +300,7 @@ double SimpleBenchmark::standardDeviation(const bool noPauses) const {
 //-----------------------------------------------------------------------------
 
 std::chrono::microseconds SimpleBenchmark::max(const bool noPauses) const {
-  if ((this->times.size() < 2) || (!noPauses && (this->countNotPausedTimes(this->times.size(), 0) < 2))) {
+  if (this->times.size() < 2) {
     std::cerr << "max(). No intervals taken." << std::endl;
     return ZEROMS;
   }
@@ -310,7 +310,7 @@ std::chrono::microseconds SimpleBenchmark::max(const bool noPauses) const {
 //-----------------------------------------------------------------------------
 
 std::chrono::microseconds SimpleBenchmark::min(const bool noPauses) const {
-  if ((this->times.size() < 2) || (!noPauses && (this->countNotPausedTimes(this->times.size(), 0) < 2))) {
+  if (this->times.size() < 2) {
     std::cerr << "min(). No intervals taken." << std::endl;
     return ZEROMS;
   }
-- 
2.43.0


From 8a3f346bb3972ad2981ddb90c9460402b27fe984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:34 +0000
Subject: [PATCH 23/37] fix: the variance divides by intervals it does not sum,
 and is zero when pauses count

---
 src/libeopsi/simplebm.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libeopsi/simplebm.cpp b/src/libeopsi/simplebm.cpp
index 516a10b..fea379d 100644
--- a/src/libeopsi/simplebm.cpp
+++ b/src/libeopsi/simplebm.cpp
@@ -275,10 +275,10 @@ double SimpleBenchmark::variance(const bool noPauses) const {
   }
   
   avg = this->average(noPauses);
-  n = this->times.size() - 1;
+  n = noPauses ? this->countNotPausedTimes(1, this->times.size()) : this->times.size() - 1;
   var = 0.;
   for (size_t i = 1; i < this->times.size(); i++) {
-    if (noPauses && !this->pauses[i]) {
+    if (!noPauses || !this->pauses[i]) {
       x = std::chrono::duration_cast<std::chrono::microseconds>(this->times[i] - this->times[i - 1]).count();
       diff = x > avg ? x - avg : avg - x;
       var += diff/n*diff;
-- 
2.43.0


From afca90e580694a41dfe73ae6188be7932f61ff9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:47 +0000
Subject: [PATCH 24/37] fix: a request arriving while the cloud serves another
 one releases the same memory twice

---
 src/libeopsi/eopsiclient.cpp | 9 +++++----
 src/libeopsi/eopsiclient.h   | 2 +-
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/libeopsi/eopsiclient.cpp b/src/libeopsi/eopsiclient.cpp
index 0b2b8ac..2c43f40 100644
--- a/src/libeopsi/eopsiclient.cpp
+++ b/src/libeopsi/eopsiclient.cpp
@@ -71,6 +71,7 @@ void EOPSIClient::receive(EOPSIMessage* msg) {
   size_t dataLen, tmpKeyByteSize, i, pos;
   std::map<std::string, EOPSIParty*>::const_iterator mi;
   NTL::vec_ZZ_p *share;
+  EOPSIMessage request; // Other requests may arrive while the cloud is serving this one
   
   if (msg->getPartyId() == this->id) {
     throw ProtocolException("Self-messaging is not allowed in EO-PSI protocol");
@@ -127,9 +128,9 @@ void EOPSIClient::receive(EOPSIMessage* msg) {
       data[dataLen - 1] = '\0'; // Correctly end data
       delete [] tmpKeyBytes;
       
-      msgToCloud.setData(data, dataLen);
-      msgToCloud.setType(EOPSI_MESSAGE_CLOUD_COMPUTATION_REQUEST);
-      msgToCloud.setPartyId(this->getId());
+      request.setData(data, dataLen);
+      request.setType(EOPSI_MESSAGE_CLOUD_COMPUTATION_REQUEST);
+      request.setPartyId(this->getId());
       
       // Find some cloud among authenticated parties
       cloud = nullptr;
@@ -154,7 +155,7 @@ void EOPSIClient::receive(EOPSIMessage* msg) {
       std::cout << this->getId() << ". Sending cloud computation request with key \"" << tmpKey << "\" to " << cloud->getId() << "." << std::endl;
       bm.pause("cloud");
       try {
-        this->send(*cloud, &msgToCloud);
+        this->send(*cloud, &request);
       } catch (ProtocolException &e) {
         std::cerr << "receive(). " << e.what() << std::endl;
         delete [] data; // The cloud releases it only when it accepts the request
diff --git a/src/libeopsi/eopsiclient.h b/src/libeopsi/eopsiclient.h
index e974a1d..fd24235 100644
--- a/src/libeopsi/eopsiclient.h
+++ b/src/libeopsi/eopsiclient.h
@@ -29,7 +29,7 @@ protected:
   HashBuckets<NTL::ZZ_p> *hashBuckets;
   NTL::vec_ZZ_p *q, *t;
   ZZpPRF *zzpprf;
-  EOPSIMessage msgToCloud, msgToClient;
+  EOPSIMessage msgToClient;
   NTL::vec_ZZ setcap;
   
   virtual size_t padSize() const;
-- 
2.43.0


From d50812c3796c724f481f2ca5b3d89e76fc77e929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:56 +0000
Subject: [PATCH 25/37] fix: setting the hash algorithm of a hash table again
 leaks the previous number

---
 src/libeopsi/hashbuckets.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/libeopsi/hashbuckets.hpp b/src/libeopsi/hashbuckets.hpp
index e6f421c..3d35df2 100644
--- a/src/libeopsi/hashbuckets.hpp
+++ b/src/libeopsi/hashbuckets.hpp
@@ -110,6 +110,11 @@ template <typename T> void HashBuckets<T>::setHashAlgorithm(const HashAlgorithm<
     return;
   }
   
+  // Release what a previous algorithm used
+  if (this->hashStrInt != nullptr) {
+    delete this->hashStrInt;
+  }
+  
   try {
     hashStrInt = new StrInt(hashAlgorithm->hashSize());
   } catch (std::bad_alloc&) {
-- 
2.43.0


From e836dcc6813e0dccfdd0c980a62475aa5d1cd893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:50 +0000
Subject: [PATCH 26/37] fix: shares of a run that is never completed are leaked

---
 src/libeopsi/eopsiclient.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/libeopsi/eopsiclient.cpp b/src/libeopsi/eopsiclient.cpp
index 2c43f40..3dbfbeb 100644
--- a/src/libeopsi/eopsiclient.cpp
+++ b/src/libeopsi/eopsiclient.cpp
@@ -57,6 +57,10 @@ EOPSIClient::~EOPSIClient() {
   if (this->blindedData != nullptr) {
     delete [] this->blindedData;
   }
+  
+  // Shares of a run that has not been completed
+  delete [] this->t;
+  delete [] this->q;
 }
 //-----------------------------------------------------------------------------
 
@@ -183,6 +187,9 @@ void EOPSIClient::receive(EOPSIMessage* msg) {
       }
       
       bm.start();
+      if (t != (NTL::vec_ZZ_p *) msg->getData()) {
+        delete [] t; // Share of a run that has not been completed
+      }
       t = (NTL::vec_ZZ_p *) msg->getData();
       // Reception feedback
       std::cout << "I, " << id << ", received \"" << t[0][0] << ", ...\" from " << sender->getId() << "." << std::endl;
@@ -204,6 +211,9 @@ void EOPSIClient::receive(EOPSIMessage* msg) {
       }
       
       bm.start();
+      if (q != (NTL::vec_ZZ_p *) msg->getData()) {
+        delete [] q; // Share of a run that has not been completed
+      }
       q = (NTL::vec_ZZ_p *) msg->getData();
       // Reception feedback
       std::cout << "I, " << id << ", received \"" << q[0][0] << ", ...\" from " << sender->getId() << "." << std::endl;
-- 
2.43.0


From 931c4b8243155f3fc052f9825da6185d165dc706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:15 +0000
Subject: [PATCH 27/37] fix: a party given another field or degree keeps the
 points, and a client the generator, of the previous ones

---
 src/libeopsi/eopsiclient.cpp | 4 +++-
 src/libeopsi/eopsiparty.cpp  | 5 ++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/libeopsi/eopsiclient.cpp b/src/libeopsi/eopsiclient.cpp
index 3dbfbeb..8c836e6 100644
--- a/src/libeopsi/eopsiclient.cpp
+++ b/src/libeopsi/eopsiclient.cpp
@@ -394,6 +394,7 @@ void EOPSIClient::blind(unsigned int nThreads) {
   std::cout.flush();
   
   // Fill the hash table with random elements
+  this->zzpprf->setModulo(this->fieldsize);
   this->hashBuckets->conceal(*zzpprf);
   
   // FEEDBACK
@@ -492,6 +493,7 @@ NTL::vec_ZZ_p * EOPSIClient::delegationOutput(const NTL::ZZ secretOtherParty, co
     exit(2);
   }
   
+  this->zzpprf->setModulo(this->fieldsize);
   conv(zzpSeed, this->secret);
   conv(zzpSeedOther, secretOtherParty);
   index = 0;
@@ -544,7 +546,7 @@ bool EOPSIClient::intersect(const bool showStats) {
   }
   
   // Not secret unknowns
-  unknowns = this->getUnknowns();
+  unknowns = this->getUnknowns(this->degree);
   
 //   std::cout << "length: " << this->length << std::endl;
     
diff --git a/src/libeopsi/eopsiparty.cpp b/src/libeopsi/eopsiparty.cpp
index 5087248..2798c9a 100644
--- a/src/libeopsi/eopsiparty.cpp
+++ b/src/libeopsi/eopsiparty.cpp
@@ -61,7 +61,7 @@ NTL::vec_ZZ_p EOPSIParty::generateUnknowns(const size_t n) {
 //-----------------------------------------------------------------------------
 
 NTL::vec_ZZ_p EOPSIParty::getUnknowns(const size_t n) {
-  if (unknowns.length() == 0 && n > 0) {
+  if ((size_t) unknowns.length() != n && n > 0) {
     unknowns = generateUnknowns(n);
   }
   
@@ -145,6 +145,9 @@ std::string EOPSIParty::getId() const {
 //-----------------------------------------------------------------------------
 
 void EOPSIParty::setFieldsize(const NTL::ZZ fieldsize) {
+  if (this->fieldsize != fieldsize) {
+    this->unknowns.kill(); // The unknowns depend on the field
+  }
   this->fieldsize = fieldsize;
   this->fieldbitsize = NTL::NumBits(this->fieldsize);
 }
-- 
2.43.0


From 3b2b4ea7980740bcb55ab230625b653c21915a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:15 +0000
Subject: [PATCH 28/37] fix: a polynomial batch used again under a longer
 modulus ends the process

---
 src/libeopsi/zzppoly.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/libeopsi/zzppoly.cpp b/src/libeopsi/zzppoly.cpp
index 29d3cbc..1ae7784 100644
--- a/src/libeopsi/zzppoly.cpp
+++ b/src/libeopsi/zzppoly.cpp
@@ -85,6 +85,7 @@ void ZZpPolynomials::interpolate(NTL::vec_ZZ_p& x, NTL::vec_ZZ_p *y, const size_
   this->n = n;
   for (size_t j = 0; j < n; j++) {
 //     std::cout << "\t------------" << std::endl;
+    polynomials[j].kill(); // It may hold coefficients of another (shorter) modulus
     polynomials[j] = NTL::interpolate(x, y[j]);
 //     std::cout << "Polynomial " << j << ": {" << polynomials[j] << "}" << std::endl;
   }
@@ -208,6 +209,8 @@ NTL::vec_ZZ& ZZpPolynomials::findIntersection(NTL::vec_ZZ_p& x, NTL::vec_ZZ_p *y
     // Interpolate and make monic
 //     std::cout << "\t------------" << std::endl;
     this->bmInt.cont();
+    polynomials[j].kill(); // Results of a previous call may belong to another (shorter) modulus
+    factorPairs[j].kill();
     polynomials[j] = NTL::interpolate(x, y[j]);
     this->bmInt.pause();
     
-- 
2.43.0


From 40bcf535812afb31454c6ef6190bb8a33e0ed884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:15 +0000
Subject: [PATCH 29/37] fix: the name of the SHA algorithm for field elements
 depends on the global locale

---
 src/libeopsi/shazzp.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/libeopsi/shazzp.cpp b/src/libeopsi/shazzp.cpp
index 5e1915c..57a9024 100644
--- a/src/libeopsi/shazzp.cpp
+++ b/src/libeopsi/shazzp.cpp
@@ -30,9 +30,7 @@ byte* SHAZZp::hash(NTL::ZZ_p n, const size_t len) {
 //-----------------------------------------------------------------------------
 
 std::string SHAZZp::name() const {
-  std::ostringstream sstr;
-  sstr << "SHA" << (this->flavour) << " for integers modulo p";
-  return sstr.str();
+  return "SHA" + std::to_string(this->flavour) + " for integers modulo p";
 }
 //-----------------------------------------------------------------------------
 
-- 
2.43.0


From 431f5947ee4fcd0fc532c73772ca6e2dd7313e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:01 +0000
Subject: [PATCH 30/37] fix: copies of a number from bytes release the same
 memory twice

---
 src/libeopsi/strint.cpp | 18 ++++++++++++++++++
 src/libeopsi/strint.h   |  2 ++
 2 files changed, 20 insertions(+)

diff --git a/src/libeopsi/strint.cpp b/src/libeopsi/strint.cpp
index f038424..8b6d529 100644
--- a/src/libeopsi/strint.cpp
+++ b/src/libeopsi/strint.cpp
@@ -6,6 +6,7 @@
 
 #include <iostream>
 #include <sstream>
+#include <utility>
 #include "strint.h"
 //-----------------------------------------------------------------------------
 
@@ -59,6 +60,23 @@ StrInt::StrInt(const size_t bytes, const byte *n, const size_t len) {
 }
 //-----------------------------------------------------------------------------
 
+StrInt::StrInt(const StrInt& other) : StrInt(other.length) {
+  mpz_set(z, other.z);
+}
+//-----------------------------------------------------------------------------
+
+StrInt& StrInt::operator=(const StrInt& other) {
+  // Buffers are not shared
+  StrInt copy(other);
+  
+  std::swap(b, copy.b);
+  std::swap(pow2, copy.pow2);
+  std::swap(length, copy.length);
+  mpz_swap(z, copy.z);
+  return *this;
+}
+//-----------------------------------------------------------------------------
+
 StrInt::~StrInt() {
   size_t i;
   
diff --git a/src/libeopsi/strint.h b/src/libeopsi/strint.h
index 17f7d74..572aad4 100644
--- a/src/libeopsi/strint.h
+++ b/src/libeopsi/strint.h
@@ -42,6 +42,8 @@ public:
    * @param dim The number of bytes in the string to read.
    */
   StrInt(const size_t bytes, const byte *n = nullptr, const size_t dim = 0);
+  StrInt(const StrInt& other);
+  StrInt& operator=(const StrInt& other);
   virtual ~StrInt();
   
   /**
-- 
2.43.0


From 979186a685ef4ebc77d3f062b86f90935f3e9908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:01 +0000
Subject: [PATCH 31/37] fix: copies of a hash table share their buckets and
 release them twice

---
 src/libeopsi/hashbuckets.hpp | 39 ++++++++++++++++++++++++++++++++++++
 1 file changed, 39 insertions(+)

diff --git a/src/libeopsi/hashbuckets.hpp b/src/libeopsi/hashbuckets.hpp
index 3d35df2..20beeb7 100644
--- a/src/libeopsi/hashbuckets.hpp
+++ b/src/libeopsi/hashbuckets.hpp
@@ -41,6 +41,8 @@ public:
    * @param maxLoad The maximum number of elements for each bucket.
    */
   HashBuckets(size_t length, size_t maxLoad, const HashAlgorithm<T>* hashAlgorithm = nullptr);
+  HashBuckets(const HashBuckets& other);
+  HashBuckets& operator=(const HashBuckets& other);
   virtual ~HashBuckets();
   
   /**
@@ -96,6 +98,43 @@ template <typename T> HashBuckets<T>::HashBuckets(size_t length, size_t maxLoad,
 }
 //-----------------------------------------------------------------------------
 
+template <typename T> HashBuckets<T>::HashBuckets(const HashBuckets<T>& other) : HashTable<T, MarkedVector<T>>() {
+  this->hashStrInt = nullptr;
+  *this = other;
+}
+//-----------------------------------------------------------------------------
+
+template <typename T> HashBuckets<T>& HashBuckets<T>::operator=(const HashBuckets<T>& other) {
+  if (this != &other) {
+    // Buckets are not shared
+    delete [] this->buckets;
+    this->buckets = nullptr;
+    if (this->hashStrInt != nullptr) {
+      delete this->hashStrInt;
+      this->hashStrInt = nullptr;
+    }
+    
+    this->n = other.n;
+    this->k = other.k;
+    this->maxLoad = other.maxLoad;
+    this->hashAlgorithm = other.hashAlgorithm;
+    try {
+      if (other.hashStrInt != nullptr) {
+        this->hashStrInt = new StrInt(*other.hashStrInt);
+      }
+      this->buckets = new MarkedVector<T>[this->k];
+    } catch (std::bad_alloc&) {
+      std::cerr << "HashBuckets(). Fatal error allocating space." << std::endl;
+      exit(2);
+    }
+    for (size_t i = 0; i < this->k; i++) {
+      this->buckets[i] = other.buckets[i];
+    }
+  }
+  return *this;
+}
+//-----------------------------------------------------------------------------
+
 template <typename T> HashBuckets<T>::~HashBuckets() {
   delete [] this->buckets;
   if (this->hashStrInt != nullptr) {
-- 
2.43.0


From 15b575807149c199c2e5b659659b0c753c1a8fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:01 +0000
Subject: [PATCH 32/37] fix: copies of a polynomial batch release the same
 memory twice

---
 src/libeopsi/zzppoly.cpp | 46 ++++++++++++++++++++++++++++++++++++++++
 src/libeopsi/zzppoly.h   |  3 +++
 2 files changed, 49 insertions(+)

diff --git a/src/libeopsi/zzppoly.cpp b/src/libeopsi/zzppoly.cpp
index 1ae7784..a149167 100644
--- a/src/libeopsi/zzppoly.cpp
+++ b/src/libeopsi/zzppoly.cpp
@@ -20,6 +20,52 @@ ZZpPolynomials::ZZpPolynomials(const size_t padsize) {
 }
 //-----------------------------------------------------------------------------
 
+ZZpPolynomials::ZZpPolynomials(const ZZpPolynomials& other) : ZZpPolynomials(other.padsize) {
+  *this = other;
+}
+//-----------------------------------------------------------------------------
+
+ZZpPolynomials& ZZpPolynomials::operator=(const ZZpPolynomials& other) {
+  if (this != &other) {
+    // Polynomials and factorisations are not shared
+    delete [] this->polynomials;
+    delete [] this->factorPairs;
+    this->polynomials = nullptr;
+    this->factorPairs = nullptr;
+    
+    try {
+      if (other.polynomials != nullptr) {
+        this->polynomials = new NTL::ZZ_pX[other.n];
+      }
+      if (other.factorPairs != nullptr) {
+        this->factorPairs = new NTL::vec_pair_ZZ_pX_long[other.n];
+      }
+    } catch (std::bad_alloc &) {
+      std::cerr << "ZZpPolynomials(). Error allocating memory." << std::endl;
+      exit(2);
+    }
+    for (size_t j = 0; j < other.n; j++) {
+      if (other.polynomials != nullptr) {
+        this->polynomials[j] = other.polynomials[j];
+      }
+      if (other.factorPairs != nullptr) {
+        this->factorPairs[j] = other.factorPairs[j];
+      }
+    }
+    
+    this->n = other.n;
+    this->padsize = other.padsize;
+    this->roots = other.roots;
+    this->nThreads = other.nThreads;
+    this->bmInt = other.bmInt;
+    this->bmMon = other.bmMon;
+    this->bmFac = other.bmFac;
+    this->bmCap = other.bmCap;
+  }
+  return *this;
+}
+//-----------------------------------------------------------------------------
+
 ZZpPolynomials::~ZZpPolynomials() {
   if (this->polynomials != nullptr) {
     delete [] this->polynomials;
diff --git a/src/libeopsi/zzppoly.h b/src/libeopsi/zzppoly.h
index c3d1198..8079d50 100644
--- a/src/libeopsi/zzppoly.h
+++ b/src/libeopsi/zzppoly.h
@@ -54,6 +54,9 @@ public:
    */
   ZZpPolynomials(const size_t padsize);
   
+  ZZpPolynomials(const ZZpPolynomials& other);
+  ZZpPolynomials& operator=(const ZZpPolynomials& other);
+  
   /**
    * Destructor.
    */
-- 
2.43.0


From db1254239a46bb32d8ff3437fee1a643551a849b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:02 +0000
Subject: [PATCH 33/37] fix: the readable digest uses an uninitialised pointer
 when memory runs out

---
 src/libeopsi/hashalgorithm.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libeopsi/hashalgorithm.hpp b/src/libeopsi/hashalgorithm.hpp
index ef8df6b..7f509f6 100644
--- a/src/libeopsi/hashalgorithm.hpp
+++ b/src/libeopsi/hashalgorithm.hpp
@@ -52,6 +52,7 @@ public:
       stringSink = new CryptoPP::StringSink(output);
     } catch(std::bad_alloc&) {
       std::cerr << "readableHash(). Unable to allocate memory." << std::endl;
+      exit(2);
     }
     
     encoder.Attach(stringSink);
-- 
2.43.0


From 7f518c113f6b1b77b346e533f0a6e2abbd5c3cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:02 +0000
Subject: [PATCH 34/37] fix: a number's text cut short when memory runs out is
 hashed, or given, as if it were whole

---
 src/libeopsi/murmurhash3.cpp | 4 ++++
 src/libeopsi/shazzp.cpp      | 4 ++++
 src/libeopsi/strint.cpp      | 3 +++
 3 files changed, 11 insertions(+)

diff --git a/src/libeopsi/murmurhash3.cpp b/src/libeopsi/murmurhash3.cpp
index e1de550..e38703a 100644
--- a/src/libeopsi/murmurhash3.cpp
+++ b/src/libeopsi/murmurhash3.cpp
@@ -452,8 +452,12 @@ size_t MurmurHash3::hashSize() const {
 byte* MurmurHash3::hash(const NTL::ZZ_p n, const size_t len) {
   size_t truncLen;
   
+  zzStreamString.clear();
   zzStreamString.str(std::string()); // Clear stream string
   zzStreamString << n;
+  if (!zzStreamString) {
+    throw std::bad_alloc(); // The stream does not tell why it has failed
+  }
   zzString = zzStreamString.str();
   truncLen = len > 0 && len < zzString.length() ? len : zzString.length();
   
diff --git a/src/libeopsi/shazzp.cpp b/src/libeopsi/shazzp.cpp
index 57a9024..b671af9 100644
--- a/src/libeopsi/shazzp.cpp
+++ b/src/libeopsi/shazzp.cpp
@@ -19,8 +19,12 @@ SHAZZp::~SHAZZp() {
 
 byte* SHAZZp::hash(NTL::ZZ_p n, const size_t len) {
   size_t truncLen;
+  zzStreamString.clear();
   zzStreamString.str(std::string()); // Clear stream string
   zzStreamString << n;
+  if (!zzStreamString) {
+    throw std::bad_alloc(); // The stream does not tell why it has failed
+  }
   zzString = zzStreamString.str();
   truncLen = len > 0 && len < zzString.length() ? len : zzString.length();
   
diff --git a/src/libeopsi/strint.cpp b/src/libeopsi/strint.cpp
index 8b6d529..aa016d0 100644
--- a/src/libeopsi/strint.cpp
+++ b/src/libeopsi/strint.cpp
@@ -153,6 +153,9 @@ void StrInt::add(const unsigned long n) {
 std::string StrInt::toString() const {
   std::stringstream sstr;
   sstr << this->z;
+  if (!sstr) {
+    throw std::bad_alloc(); // The stream does not tell why it has failed
+  }
   return sstr.str();
 }
 //-----------------------------------------------------------------------------
-- 
2.43.0


From 70ceb7071274af387b75488686f4deebff9dac17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:32:56 +0000
Subject: [PATCH 35/37] fix: counting the blocks of very many bits or of very
 large blocks overflows

---
 src/libeopsi/ntlmiss.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libeopsi/ntlmiss.cpp b/src/libeopsi/ntlmiss.cpp
index 80a29ce..45cb1dd 100644
--- a/src/libeopsi/ntlmiss.cpp
+++ b/src/libeopsi/ntlmiss.cpp
@@ -26,7 +26,7 @@ namespace NTL {
   //---------------------------------------------------------------------------
 
   unsigned long blocks(const unsigned long bits, const unsigned long bitsPerBlock) {
-    return (bits + bitsPerBlock - 1)/bitsPerBlock;
+    return bits/bitsPerBlock + (bits % bitsPerBlock > 0 ? 1 : 0); // The sum of the two may not be expressible
   }
   //---------------------------------------------------------------------------
 
-- 
2.43.0


From a998cb9cb71a73deae6e1a1e077ebbe19b24204e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:20 +0000
Subject: [PATCH 36/37] fix: converting a part of a vector into that vector
 reads released memory

---
 src/libeopsi/ntlmiss.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/libeopsi/ntlmiss.cpp b/src/libeopsi/ntlmiss.cpp
index 45cb1dd..1cda59d 100644
--- a/src/libeopsi/ntlmiss.cpp
+++ b/src/libeopsi/ntlmiss.cpp
@@ -72,11 +72,9 @@ namespace NTL {
       return;
     }
     
+    vec_ZZ_p copy = array2VecZZp(v, dim); // The array may be a part of the vector
     zp.kill();
-    zp.SetLength(dim);
-    for (size_t i = 0; i < dim; i++) {
-      zp[i] = v[i];
-    }
+    zp.swap(copy);
   }
   //---------------------------------------------------------------------------
   
-- 
2.43.0


From ac99f6e487a749aec412143a58dad883b6b54a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:37:21 +0000
Subject: [PATCH 37/37] fix: adding to a hash table without buckets divides by
 zero instead of being refused

---
 src/libeopsi/hashbuckets.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/libeopsi/hashbuckets.hpp b/src/libeopsi/hashbuckets.hpp
index 20beeb7..b36f1b2 100644
--- a/src/libeopsi/hashbuckets.hpp
+++ b/src/libeopsi/hashbuckets.hpp
@@ -167,6 +167,10 @@ template <typename T> void HashBuckets<T>::setHashAlgorithm(const HashAlgorithm<
 template <typename T> void HashBuckets<T>::add(const T& element) {
   size_t index;
   
+  if (this->k == 0) {
+    throw OutOfBoundException("HashBuckets<T>::add(). There are no buckets.", OutOfBoundException::FATAL);
+  }
+  
   if (this->hashStrInt != nullptr) {
     this->hashStrInt->set(this->hashAlgorithm->hash(element), this->hashAlgorithm->hashSize());
     index = this->hashStrInt->rem(this->k);
-- 
2.43.0

