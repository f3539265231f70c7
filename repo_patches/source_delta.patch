From aa7651e30e3997aa7a19b4c569c9d52994b9ec71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:50 +0000
Subject: [PATCH 01/89] fix: release the cipher context and client when a
 buffer type is invalid

---
 reference/src/taimpl/src/ta_sa_crypto_cipher_process.c      | 6 ++++--
 reference/src/taimpl/src/ta_sa_crypto_cipher_process_last.c | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/reference/src/taimpl/src/ta_sa_crypto_cipher_process.c b/reference/src/taimpl/src/ta_sa_crypto_cipher_process.c
index d47c986..92f552b 100644
--- a/reference/src/taimpl/src/ta_sa_crypto_cipher_process.c
+++ b/reference/src/taimpl/src/ta_sa_crypto_cipher_process.c
@@ -428,12 +428,14 @@ sa_status ta_sa_crypto_cipher_process(
 
         if (out->buffer_type != SA_BUFFER_TYPE_CLEAR && out->buffer_type != SA_BUFFER_TYPE_SVP) {
             ERROR("Invalid out buffer type");
-            return SA_STATUS_INVALID_PARAMETER;
+            status = SA_STATUS_INVALID_PARAMETER;
+            break;
         }
 
         if (in->buffer_type != SA_BUFFER_TYPE_CLEAR && in->buffer_type != SA_BUFFER_TYPE_SVP) {
             ERROR("Invalid in buffer type");
-            return SA_STATUS_INVALID_PARAMETER;
+            status = SA_STATUS_INVALID_PARAMETER;
+            break;
         }
 
         sa_cipher_algorithm cipher_algorithm = cipher_get_algorithm(cipher);
diff --git a/reference/src/taimpl/src/ta_sa_crypto_cipher_process_last.c b/reference/src/taimpl/src/ta_sa_crypto_cipher_process_last.c
index 7612d87..dedef13 100644
--- a/reference/src/taimpl/src/ta_sa_crypto_cipher_process_last.c
+++ b/reference/src/taimpl/src/ta_sa_crypto_cipher_process_last.c
@@ -555,12 +555,14 @@ sa_status ta_sa_crypto_cipher_process_last(
 
         if (out->buffer_type != SA_BUFFER_TYPE_CLEAR && out->buffer_type != SA_BUFFER_TYPE_SVP) {
             ERROR("Invalid out buffer type");
-            return SA_STATUS_INVALID_PARAMETER;
+            status = SA_STATUS_INVALID_PARAMETER;
+            break;
         }
 
         if (in->buffer_type != SA_BUFFER_TYPE_CLEAR && in->buffer_type != SA_BUFFER_TYPE_SVP) {
             ERROR("Invalid in buffer type");
-            return SA_STATUS_INVALID_PARAMETER;
+            status = SA_STATUS_INVALID_PARAMETER;
+            break;
         }
 
         sa_cipher_algorithm cipher_algorithm = cipher_get_algorithm(cipher);
-- 
2.43.0


From 856ca55d0470190bf223aa193e7819cde9a971ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:50 +0000
Subject: [PATCH 02/89] fix: report failures of rsa_sign_pss instead of success

---
 reference/src/taimpl/src/internal/rsa.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reference/src/taimpl/src/internal/rsa.c b/reference/src/taimpl/src/internal/rsa.c
index 010b53e..c161209 100644
--- a/reference/src/taimpl/src/internal/rsa.c
+++ b/reference/src/taimpl/src/internal/rsa.c
@@ -467,7 +467,7 @@ sa_status rsa_sign_pss(
         return SA_STATUS_NULL_PARAMETER;
     }
 
-    sa_status status = SA_STATUS_OK;
+    sa_status status = SA_STATUS_INTERNAL_ERROR;
     EVP_MD_CTX* evp_md_ctx = NULL;
     EVP_PKEY* evp_pkey = NULL;
     EVP_PKEY_CTX* evp_pkey_ctx = NULL;
-- 
2.43.0


From b9415310f6863fb0235995c9a4ee9145f4293dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:00 +0000
Subject: [PATCH 03/89] fix: refuse an empty PKCS #7 padded wrapped key instead
 of reading before the buffer

---
 reference/src/taimpl/src/internal/unwrap.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/reference/src/taimpl/src/internal/unwrap.c b/reference/src/taimpl/src/internal/unwrap.c
index ccfdc03..9c07d01 100644
--- a/reference/src/taimpl/src/internal/unwrap.c
+++ b/reference/src/taimpl/src/internal/unwrap.c
@@ -156,7 +156,8 @@ sa_status unwrap_aes_ecb(
 
         uint8_t pad_value = 0;
         if (cipher_algorithm == SA_CIPHER_ALGORITHM_AES_ECB_PKCS7) {
-            if (!pad_check_pkcs7(&pad_value, unwrapped_key + in_length - AES_BLOCK_SIZE)) {
+            if (in_length < AES_BLOCK_SIZE ||
+                    !pad_check_pkcs7(&pad_value, unwrapped_key + in_length - AES_BLOCK_SIZE)) {
                 ERROR("pad_check_pkcs7 failed");
                 status = SA_STATUS_INVALID_KEY_FORMAT;
                 break;
@@ -247,7 +248,8 @@ sa_status unwrap_aes_cbc(
 
         uint8_t pad_value = 0;
         if (cipher_algorithm == SA_CIPHER_ALGORITHM_AES_CBC_PKCS7) {
-            if (!pad_check_pkcs7(&pad_value, unwrapped_key + in_length - AES_BLOCK_SIZE)) {
+            if (in_length < AES_BLOCK_SIZE ||
+                    !pad_check_pkcs7(&pad_value, unwrapped_key + in_length - AES_BLOCK_SIZE)) {
                 ERROR("pad_check_pkcs7 failed");
                 status = SA_STATUS_INVALID_KEY_FORMAT;
                 break;
-- 
2.43.0


From f7bce5cf0eb1ce9e87f79b3798e0c8845c12c174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:11 +0000
Subject: [PATCH 04/89] fix: free the unwrapped key when the OAEP label is
 invalid

---
 reference/src/taimpl/src/internal/unwrap.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/reference/src/taimpl/src/internal/unwrap.c b/reference/src/taimpl/src/internal/unwrap.c
index 9c07d01..85ce830 100644
--- a/reference/src/taimpl/src/internal/unwrap.c
+++ b/reference/src/taimpl/src/internal/unwrap.c
@@ -804,7 +804,8 @@ sa_status unwrap_rsa(
             sa_unwrap_parameters_rsa_oaep* oaep_parameters = (sa_unwrap_parameters_rsa_oaep*) algorithm_parameters;
             if (oaep_parameters->label == NULL && oaep_parameters->label_length != 0) {
                 ERROR("Invalid label_length");
-                return SA_STATUS_INVALID_PARAMETER;
+                status = SA_STATUS_INVALID_PARAMETER;
+                break;
             }
 
             status = rsa_decrypt_oaep(unwrapped_key, &unwrapped_key_length, stored_key_wrapping,
-- 
2.43.0


From d86a79c66ff645a8485e1475ad901b23b0a4aad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:11 +0000
Subject: [PATCH 05/89] fix: fail the DH exchange when padding cannot be set
 instead of reporting success

---
 reference/src/taimpl/src/internal/dh.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reference/src/taimpl/src/internal/dh.c b/reference/src/taimpl/src/internal/dh.c
index 5342212..173ad8b 100644
--- a/reference/src/taimpl/src/internal/dh.c
+++ b/reference/src/taimpl/src/internal/dh.c
@@ -197,7 +197,7 @@ sa_status dh_compute_shared_secret(
 #if OPENSSL_VERSION_NUMBER >= 0x10100000
         if (EVP_PKEY_CTX_set_dh_pad(evp_pkey_ctx, 1) != 1) {
             ERROR("EVP_PKEY_CTX_set_dh_pad failed");
-            return false;
+            break;
         }
 #endif
 
-- 
2.43.0


From bb94b19ea5575a8a34e7224b2ebc3af82a784891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:49 +0000
Subject: [PATCH 06/89] fix: do not free the key of an OAEP context twice when
 its parameters cannot be stored

---
 .../src/taimpl/src/ta_sa_crypto_cipher_init.c | 20 +++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/reference/src/taimpl/src/ta_sa_crypto_cipher_init.c b/reference/src/taimpl/src/ta_sa_crypto_cipher_init.c
index 87aed5f..83b67d1 100644
--- a/reference/src/taimpl/src/ta_sa_crypto_cipher_init.c
+++ b/reference/src/taimpl/src/ta_sa_crypto_cipher_init.c
@@ -718,7 +718,7 @@ static sa_status ta_sa_crypto_cipher_init_rsa_pkcs1v15(
 static sa_status ta_sa_crypto_cipher_init_rsa_oaep(
         sa_crypto_cipher_context* context,
         sa_cipher_mode cipher_mode,
-        stored_key_t* stored_key,
+        stored_key_t** stored_key,
         sa_cipher_parameters_rsa_oaep* parameters,
         client_t* client,
         const sa_uuid* caller_uuid) {
@@ -729,7 +729,7 @@ static sa_status ta_sa_crypto_cipher_init_rsa_oaep(
     }
     *context = INVALID_HANDLE;
 
-    if (stored_key == NULL) {
+    if (stored_key == NULL || *stored_key == NULL) {
         ERROR("NULL stored_key");
         return SA_STATUS_NULL_PARAMETER;
     }
@@ -744,7 +744,7 @@ static sa_status ta_sa_crypto_cipher_init_rsa_oaep(
         return SA_STATUS_INVALID_PARAMETER;
     }
 
-    const sa_header* header = stored_key_get_header(stored_key);
+    const sa_header* header = stored_key_get_header(*stored_key);
     if (header == NULL) {
         ERROR("stored_key_get_header failed");
         return SA_STATUS_NULL_PARAMETER;
@@ -774,19 +774,22 @@ static sa_status ta_sa_crypto_cipher_init_rsa_oaep(
     cipher_store_t* cipher_store = client_get_cipher_store(client);
     cipher_t* cipher = NULL;
     do {
-        status = rsa_verify_cipher(SA_CIPHER_ALGORITHM_RSA_OAEP, cipher_mode, parameters, stored_key);
+        status = rsa_verify_cipher(SA_CIPHER_ALGORITHM_RSA_OAEP, cipher_mode, parameters, *stored_key);
         if (status != SA_STATUS_OK) {
             ERROR("rsa_verify_cipher failed");
             break;
         }
 
         status = cipher_store_add_asymmetric_key(context, cipher_store, SA_CIPHER_ALGORITHM_RSA_OAEP, cipher_mode,
-                stored_key, caller_uuid);
+                *stored_key, caller_uuid);
         if (status != SA_STATUS_OK) {
             ERROR("cipher_store_add_asymmetric_key failed");
             break;
         }
 
+        // stored key is now owned by cipher store
+        *stored_key = NULL;
+
         status = cipher_store_acquire_exclusive(&cipher, cipher_store, *context, caller_uuid);
         if (status != SA_STATUS_OK) {
             ERROR("cipher_store_acquire_exclusive failed");
@@ -804,6 +807,11 @@ static sa_status ta_sa_crypto_cipher_init_rsa_oaep(
     if (cipher != NULL)
         cipher_store_release_exclusive(cipher_store, *context, cipher, caller_uuid);
 
+    if (status != SA_STATUS_OK && *context != INVALID_HANDLE) {
+        cipher_store_remove(cipher_store, *context, caller_uuid);
+        *context = INVALID_HANDLE;
+    }
+
     return status;
 }
 
@@ -1000,7 +1008,7 @@ sa_status ta_sa_crypto_cipher_init(
                 break;
             }
         } else if (cipher_algorithm == SA_CIPHER_ALGORITHM_RSA_OAEP) {
-            status = ta_sa_crypto_cipher_init_rsa_oaep(context, cipher_mode, stored_key,
+            status = ta_sa_crypto_cipher_init_rsa_oaep(context, cipher_mode, &stored_key,
                     (sa_cipher_parameters_rsa_oaep*) parameters, client,
                     caller_uuid);
             if (status != SA_STATUS_OK) {
-- 
2.43.0


From 2375ff415291ece56935a6c1c3ddd8bee4c46e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:32 +0000
Subject: [PATCH 07/89] fix: refuse cipher data after the last chunk has been
 processed

---
 .../src/taimpl/include/internal/cipher_store.h | 18 ++++++++++++++++++
 .../src/taimpl/src/internal/cipher_store.c     | 13 +++++++++++++
 .../taimpl/src/ta_sa_crypto_cipher_process.c   |  6 ++++++
 .../src/ta_sa_crypto_cipher_process_last.c     |  8 ++++++++
 .../taimpl/src/ta_sa_crypto_cipher_update_iv.c |  2 ++
 5 files changed, 47 insertions(+)

diff --git a/reference/src/taimpl/include/internal/cipher_store.h b/reference/src/taimpl/include/internal/cipher_store.h
index 3ec2231..3f00224 100644
--- a/reference/src/taimpl/include/internal/cipher_store.h
+++ b/reference/src/taimpl/include/internal/cipher_store.h
@@ -48,6 +48,24 @@ typedef object_store_t cipher_store_t;
  */
 sa_cipher_algorithm cipher_get_algorithm(const cipher_t* cipher);
 
+/**
+ * Determines if the last data chunk has already been processed.
+ *
+ * @param[in] cipher cipher.
+ * @return true if the last data chunk has been processed.
+ */
+bool cipher_is_last_processed(const cipher_t* cipher);
+
+/**
+ * Records whether the last data chunk has been processed.
+ *
+ * @param[in] cipher cipher.
+ * @param[in] last_processed true if the last data chunk has been processed.
+ */
+void cipher_set_last_processed(
+        cipher_t* cipher,
+        bool last_processed);
+
 /**
  * Get the cipher mode.
  *
diff --git a/reference/src/taimpl/src/internal/cipher_store.c b/reference/src/taimpl/src/internal/cipher_store.c
index bbe2afc..083ed4f 100644
--- a/reference/src/taimpl/src/internal/cipher_store.c
+++ b/reference/src/taimpl/src/internal/cipher_store.c
@@ -32,6 +32,7 @@ struct cipher_s {
     sa_digest_algorithm oaep_mgf1_digest_algorithm;
     void* oaep_label;
     size_t oaep_label_length;
+    bool last_processed;
     mtx_t mutex;
 };
 
@@ -44,6 +45,18 @@ sa_cipher_algorithm cipher_get_algorithm(const cipher_t* cipher) {
     return cipher->cipher_algorithm;
 }
 
+bool cipher_is_last_processed(const cipher_t* cipher) {
+    return cipher != NULL && cipher->last_processed;
+}
+
+void cipher_set_last_processed(
+        cipher_t* cipher,
+        bool last_processed) {
+
+    if (cipher != NULL)
+        cipher->last_processed = last_processed;
+}
+
 sa_cipher_mode cipher_get_mode(const cipher_t* cipher) {
     if (cipher == NULL) {
         ERROR("NULL cipher");
diff --git a/reference/src/taimpl/src/ta_sa_crypto_cipher_process.c b/reference/src/taimpl/src/ta_sa_crypto_cipher_process.c
index 92f552b..d539294 100644
--- a/reference/src/taimpl/src/ta_sa_crypto_cipher_process.c
+++ b/reference/src/taimpl/src/ta_sa_crypto_cipher_process.c
@@ -426,6 +426,12 @@ sa_status ta_sa_crypto_cipher_process(
             break;
         }
 
+        if (cipher_is_last_processed(cipher)) {
+            ERROR("Context has already processed last data chunk");
+            status = SA_STATUS_INVALID_PARAMETER;
+            break;
+        }
+
         if (out->buffer_type != SA_BUFFER_TYPE_CLEAR && out->buffer_type != SA_BUFFER_TYPE_SVP) {
             ERROR("Invalid out buffer type");
             status = SA_STATUS_INVALID_PARAMETER;
diff --git a/reference/src/taimpl/src/ta_sa_crypto_cipher_process_last.c b/reference/src/taimpl/src/ta_sa_crypto_cipher_process_last.c
index dedef13..f75641b 100644
--- a/reference/src/taimpl/src/ta_sa_crypto_cipher_process_last.c
+++ b/reference/src/taimpl/src/ta_sa_crypto_cipher_process_last.c
@@ -553,6 +553,12 @@ sa_status ta_sa_crypto_cipher_process_last(
             break;
         }
 
+        if (cipher_is_last_processed(cipher)) {
+            ERROR("Context has already processed last data chunk");
+            status = SA_STATUS_INVALID_PARAMETER;
+            break;
+        }
+
         if (out->buffer_type != SA_BUFFER_TYPE_CLEAR && out->buffer_type != SA_BUFFER_TYPE_SVP) {
             ERROR("Invalid out buffer type");
             status = SA_STATUS_INVALID_PARAMETER;
@@ -652,6 +658,8 @@ sa_status ta_sa_crypto_cipher_process_last(
             break;
         }
 
+        cipher_set_last_processed(cipher, true);
+
         if (out != NULL) {
             if (in->buffer_type == SA_BUFFER_TYPE_SVP)
                 in->context.svp.offset += in_length;
diff --git a/reference/src/taimpl/src/ta_sa_crypto_cipher_update_iv.c b/reference/src/taimpl/src/ta_sa_crypto_cipher_update_iv.c
index 22f2a07..f0097f3 100644
--- a/reference/src/taimpl/src/ta_sa_crypto_cipher_update_iv.c
+++ b/reference/src/taimpl/src/ta_sa_crypto_cipher_update_iv.c
@@ -80,6 +80,8 @@ sa_status ta_sa_crypto_cipher_update_iv(
                 ERROR("symmetric_context_set_iv failed");
                 break;
             }
+
+            cipher_set_last_processed(cipher, false);
         } else {
             status = SA_STATUS_INVALID_PARAMETER;
             ERROR("Invalid algorithm");
-- 
2.43.0


From 0cf7c9370784c732dad82fd061202119f8db480a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:57 +0000
Subject: [PATCH 08/89] fix: accept key unwrap without additional authenticated
 data through the client API

---
 reference/src/taimpl/src/internal/ta.c | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/reference/src/taimpl/src/internal/ta.c b/reference/src/taimpl/src/internal/ta.c
index e7955d1..1a47888 100644
--- a/reference/src/taimpl/src/internal/ta.c
+++ b/reference/src/taimpl/src/internal/ta.c
@@ -596,11 +596,7 @@ static sa_status ta_invoke_key_unwrap(
                 return SA_STATUS_INVALID_PARAMETER;
             }
 
-            if (params[3].mem_ref == NULL) {
-                ERROR("NULL params[3].mem_ref");
-                return SA_STATUS_NULL_PARAMETER;
-            }
-
+            // params[3].mem_ref can be NULL
             memcpy(&parameters_aes_gcm_s, params[2].mem_ref, params[2].mem_ref_size);
             parameters_aes_gcm.iv = &parameters_aes_gcm_s.iv;
             parameters_aes_gcm.iv_length = parameters_aes_gcm_s.iv_length;
@@ -641,11 +637,7 @@ static sa_status ta_invoke_key_unwrap(
                 return SA_STATUS_INVALID_PARAMETER;
             }
 
-            if (params[3].mem_ref == NULL) {
-                ERROR("NULL params[3].mem_ref");
-                return SA_STATUS_NULL_PARAMETER;
-            }
-
+            // params[3].mem_ref can be NULL
             memcpy(&parameters_chacha_20_poly_1305_s, params[2].mem_ref, params[2].mem_ref_size);
             parameters_chacha20_poly1305.nonce = &parameters_chacha_20_poly_1305_s.nonce;
             parameters_chacha20_poly1305.nonce_length = parameters_chacha_20_poly_1305_s.nonce_length;
-- 
2.43.0


From dd46dd9875c7117dab09009efb4575ca45e9e62c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:07 +0000
Subject: [PATCH 09/89] fix: do not write through a NULL ciphertext when
 wrapping a key runs out of memory

---
 reference/src/taimpl/src/internal/key_store.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/reference/src/taimpl/src/internal/key_store.c b/reference/src/taimpl/src/internal/key_store.c
index 88d2535..23e0f39 100644
--- a/reference/src/taimpl/src/internal/key_store.c
+++ b/reference/src/taimpl/src/internal/key_store.c
@@ -253,8 +253,10 @@ static void wrapped_key_free(void* obj) {
 
     wrapped_key_t* wrapped_key = (wrapped_key_t*) obj;
 
-    memory_memset_unoptimizable(wrapped_key->ciphertext, 0, wrapped_key->cipher_parameters.ciphertext_length);
-    memory_secure_free(wrapped_key->ciphertext);
+    if (wrapped_key->ciphertext != NULL) {
+        memory_memset_unoptimizable(wrapped_key->ciphertext, 0, wrapped_key->cipher_parameters.ciphertext_length);
+        memory_secure_free(wrapped_key->ciphertext);
+    }
 
     memory_memset_unoptimizable(wrapped_key, 0, sizeof(wrapped_key_t));
     memory_secure_free(wrapped_key);
-- 
2.43.0


From 08793dfbf40816b4bae853e2c57840b64475235d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:55 +0000
Subject: [PATCH 10/89] fix: free the slots and objects of a store whose mutex
 cannot be created

---
 reference/src/taimpl/src/internal/object_store.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/reference/src/taimpl/src/internal/object_store.c b/reference/src/taimpl/src/internal/object_store.c
index de6ea30..d9ed51d 100644
--- a/reference/src/taimpl/src/internal/object_store.c
+++ b/reference/src/taimpl/src/internal/object_store.c
@@ -91,15 +91,15 @@ object_store_t* object_store_init(
         store->release_count = 0;
         store->name = name;
 
-        // slots and objects are not owned by the store
-        slots = NULL;
-        objects = NULL;
-
         if (mtx_init(&store->mutex, mtx_recursive) != thrd_success) {
             ERROR("mtx_init failed");
             break;
         }
 
+        // slots and objects are now owned by the store
+        slots = NULL;
+        objects = NULL;
+
         status = true;
     } while (false);
 
-- 
2.43.0


From 6779d47f3ce2357aab3fee877a3f7101db841527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:40 +0000
Subject: [PATCH 11/89] fix: do not take another key for the common root key
 when its bag cannot be parsed

---
 reference/src/util/src/pkcs12.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/reference/src/util/src/pkcs12.c b/reference/src/util/src/pkcs12.c
index f71d4a1..a401822 100644
--- a/reference/src/util/src/pkcs12.c
+++ b/reference/src/util/src/pkcs12.c
@@ -244,6 +244,7 @@ bool load_pkcs12_secret_key(
                 if (parse_pkcs12_safe_bag(pkcs12_safebag, password, key, key_length, name, name_length) != 1) {
                     pkcs12_parse_failed = true;
                     ERROR("parse_pkcs12_safe_bag failed");
+                    break;
                 }
 
                 bool is_common_root = strncmp(COMMON_ROOT_NAME, name, strlen(COMMON_ROOT_NAME)) == 0;
-- 
2.43.0


From 6842f5693dfeba75d411c95fc9769471058f60dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:40 +0000
Subject: [PATCH 12/89] fix: publish the root keys only after they are loaded
 completely, under a lock

---
 reference/src/taimpl/src/porting/otp.c | 47 ++++++++++++++++++++++++--
 1 file changed, 45 insertions(+), 2 deletions(-)

diff --git a/reference/src/taimpl/src/porting/otp.c b/reference/src/taimpl/src/porting/otp.c
index 98a283d..6e35931 100644
--- a/reference/src/taimpl/src/porting/otp.c
+++ b/reference/src/taimpl/src/porting/otp.c
@@ -27,6 +27,7 @@
 #include <ctype.h>
 #include <openssl/evp.h>
 #include <openssl/x509.h>
+#include <pthread.h>
 #if OPENSSL_VERSION_NUMBER < 0x30000000
 #include <memory.h>
 #endif
@@ -35,6 +36,9 @@
 
 static uint64_t device_id;
 
+// protects the cached keys and device ID while they are loaded
+static pthread_mutex_t keystore_mutex = PTHREAD_MUTEX_INITIALIZER;
+
 static uint64_t convert_str_to_int(
         const char* str,
         size_t str_length) {
@@ -64,6 +68,16 @@ static uint64_t convert_str_to_int(
     return value;
 }
 
+static bool lock_keystore() {
+    return pthread_mutex_lock(&keystore_mutex) == 0;
+}
+
+static void unlock_keystore() {
+    if (pthread_mutex_unlock(&keystore_mutex) != 0) {
+        ERROR("pthread_mutex_unlock failed");
+    }
+}
+
 static bool get_root_key(
         void* root_key,
         size_t* root_key_length) {
@@ -80,22 +94,37 @@ static bool get_root_key(
         return false;
     }
 
+    if (!lock_keystore()) {
+        ERROR("lock_keystore failed");
+        return false;
+    }
+
     if (key_length == 0) {
+        // a failed load must leave neither a key nor a length behind
+        uint8_t loaded_key[SYM_128_KEY_SIZE];
+        size_t loaded_key_length = 0;
         char device_name[MAX_DEVICE_NAME_LENGTH];
         size_t device_name_length = MAX_DEVICE_NAME_LENGTH;
         device_name[0] = '\0';
-        if (load_pkcs12_secret_key(key, &key_length, device_name, &device_name_length) != 1) {
+        if (load_pkcs12_secret_key(loaded_key, &loaded_key_length, device_name, &device_name_length) != 1) {
             ERROR("load_pkcs12_secret_key failed");
+            unlock_keystore();
             return false;
         }
 
         device_id = convert_str_to_int(device_name, device_name_length);
         if (device_id == 0) {
             ERROR("Invalid device ID in keystore");
+            unlock_keystore();
             return false;
         }
+
+        memcpy(key, loaded_key, loaded_key_length);
+        key_length = loaded_key_length;
     }
 
+    unlock_keystore();
+
     if (*root_key_length < key_length) {
         ERROR("root key too short");
         return false;
@@ -122,16 +151,30 @@ static bool get_common_root_key(
         return false;
     }
 
+    if (!lock_keystore()) {
+        ERROR("lock_keystore failed");
+        return false;
+    }
+
     if (key_length == 0) {
+        // a failed load must leave neither a key nor a length behind
+        uint8_t loaded_key[SYM_128_KEY_SIZE];
+        size_t loaded_key_length = 0;
         char name[MAX_NAME_SIZE];
         size_t name_length = MAX_NAME_SIZE;
         strcpy(name, COMMON_ROOT_NAME);
-        if (load_pkcs12_secret_key(key, &key_length, name, &name_length) != 1) {
+        if (load_pkcs12_secret_key(loaded_key, &loaded_key_length, name, &name_length) != 1) {
             ERROR("load_pkcs12_secret_key failed");
+            unlock_keystore();
             return false;
         }
+
+        memcpy(key, loaded_key, loaded_key_length);
+        key_length = loaded_key_length;
     }
 
+    unlock_keystore();
+
     if (*common_root_key_length < key_length) {
         ERROR("root key too short");
         return false;
-- 
2.43.0


From 123421f315657284c6cccc0ca057f3edf3ef8456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:58 +0000
Subject: [PATCH 13/89] fix: leave the byte count alone when encrypting the
 last padded block fails

---
 reference/src/taimpl/src/ta_sa_crypto_cipher_process_last.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/reference/src/taimpl/src/ta_sa_crypto_cipher_process_last.c b/reference/src/taimpl/src/ta_sa_crypto_cipher_process_last.c
index f75641b..6ea9127 100644
--- a/reference/src/taimpl/src/ta_sa_crypto_cipher_process_last.c
+++ b/reference/src/taimpl/src/ta_sa_crypto_cipher_process_last.c
@@ -106,6 +106,7 @@ static sa_status ta_sa_crypto_cipher_process_last_aes_pkcs7(
             status = symmetric_context_encrypt_last(symmetric_context, out, &out_length, in, *bytes_to_process);
             if (status != SA_STATUS_OK) {
                 ERROR("symmetric_context_encrypt failed");
+                break;
             }
 
             *bytes_to_process = out_length;
-- 
2.43.0


From 51bb15f6c7de6427e0a6aaeee74c6d1ddb29a06f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:33 +0000
Subject: [PATCH 14/89] fix: copy overlapping ranges within one SVP buffer
 correctly

---
 reference/src/taimpl/src/porting/svp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reference/src/taimpl/src/porting/svp.c b/reference/src/taimpl/src/porting/svp.c
index 7dfb5c4..997f8aa 100644
--- a/reference/src/taimpl/src/porting/svp.c
+++ b/reference/src/taimpl/src/porting/svp.c
@@ -230,7 +230,7 @@ bool svp_copy(
             return false;
         }
 
-        memcpy((void*) out_position, (void*) in_position, offsets[i].length); // NOLINT
+        memmove((void*) out_position, (void*) in_position, offsets[i].length); // NOLINT
     }
     return true;
 }
-- 
2.43.0


From 231b88db9d9559eec5a1daa20afc3e9fe8e364c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:57 +0000
Subject: [PATCH 15/89] fix: pass every offset of sa_svp_buffer_write to the
 secure application, not the first one repeatedly

---
 reference/src/clientimpl/src/sa_svp_buffer_write.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/reference/src/clientimpl/src/sa_svp_buffer_write.c b/reference/src/clientimpl/src/sa_svp_buffer_write.c
index 30d9738..5c4150d 100644
--- a/reference/src/clientimpl/src/sa_svp_buffer_write.c
+++ b/reference/src/clientimpl/src/sa_svp_buffer_write.c
@@ -67,9 +67,9 @@ sa_status sa_svp_buffer_write(
         }
 
         for (size_t i = 0; i < offsets_length; i++) {
-            offset_s[i].out_offset = offsets->out_offset;
-            offset_s[i].in_offset = offsets->in_offset;
-            offset_s[i].length = offsets->length;
+            offset_s[i].out_offset = offsets[i].out_offset;
+            offset_s[i].in_offset = offsets[i].in_offset;
+            offset_s[i].length = offsets[i].length;
         }
 
         CREATE_PARAM(param2, offset_s, param2_size);
-- 
2.43.0


From 1f4fb2d1a262fa9999d1c4d53458b3c6ef107593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:57 +0000
Subject: [PATCH 16/89] fix: refuse memory that is not valid SVP memory instead
 of taking the error code for success

---
 reference/src/taimpl/src/porting/svp.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reference/src/taimpl/src/porting/svp.c b/reference/src/taimpl/src/porting/svp.c
index 997f8aa..52fbb34 100644
--- a/reference/src/taimpl/src/porting/svp.c
+++ b/reference/src/taimpl/src/porting/svp.c
@@ -39,7 +39,7 @@ static bool svp_validate_buffer(const svp_buffer_t* svp_buffer) {
 
     if (!memory_is_valid_svp(svp_buffer->svp_memory, svp_buffer->size)) {
         ERROR("memory range is not within SVP memory");
-        return SA_STATUS_INVALID_PARAMETER;
+        return false;
     }
 
     return true;
@@ -62,7 +62,7 @@ bool svp_create_buffer(
 
     if (!memory_is_valid_svp(svp_memory, size)) {
         ERROR("memory range is not within SVP memory");
-        return SA_STATUS_INVALID_PARAMETER;
+        return false;
     }
 
     *svp_buffer = memory_internal_alloc(sizeof(svp_buffer_t));
-- 
2.43.0


From 97d3b9d1333bd76dc765725df131a863df81a8ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:40 +0000
Subject: [PATCH 17/89] fix: give up the SVP buffer and report an error when
 its release fails

---
 reference/src/taimpl/src/internal/svp_store.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/reference/src/taimpl/src/internal/svp_store.c b/reference/src/taimpl/src/internal/svp_store.c
index bc04ffe..f4a6761 100644
--- a/reference/src/taimpl/src/internal/svp_store.c
+++ b/reference/src/taimpl/src/internal/svp_store.c
@@ -232,7 +232,8 @@ sa_status svp_store_release(
 
     if (!svp_release_buffer(svp_memory, size, svp->buffer)) {
         ERROR("svp_release_buffer failed");
-        return status;
+        svp_store_release_exclusive(store, svp_buffer, svp, caller_uuid);
+        return SA_STATUS_INTERNAL_ERROR;
     }
 
     svp->buffer = NULL;
-- 
2.43.0


From cb9fa8a35ca10aa80b0eb68cc0273abc83dc1b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:40 +0000
Subject: [PATCH 18/89] fix: validate an SVP buffer before its size is used for
 a digest

---
 reference/src/taimpl/src/porting/svp.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/reference/src/taimpl/src/porting/svp.c b/reference/src/taimpl/src/porting/svp.c
index 52fbb34..e71a90d 100644
--- a/reference/src/taimpl/src/porting/svp.c
+++ b/reference/src/taimpl/src/porting/svp.c
@@ -301,6 +301,11 @@ bool svp_digest(
         size_t offset,
         size_t length) {
 
+    if (!svp_validate_buffer(svp_buffer)) {
+        ERROR("svp_validate_buffer failed");
+        return false;
+    }
+
     size_t range;
     if (add_overflow(offset, length, &range)) {
         ERROR("Integer overflow");
@@ -312,11 +317,6 @@ bool svp_digest(
         return false;
     }
 
-    if (!svp_validate_buffer(svp_buffer)) {
-        ERROR("svp_validate_buffer failed");
-        return false;
-    }
-
     unsigned long position;
     if (add_overflow((unsigned long) svp_buffer->svp_memory, offset, &position)) {
         ERROR("Integer overflow");
-- 
2.43.0


From 6da709505bd3ef17bd8998abe8418fceb6ee7930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:13 +0000
Subject: [PATCH 19/89] fix: count the blocks before the counter of a common
 encryption sample wraps correctly

---
 reference/src/taimpl/src/internal/cenc.c | 118 +++++++++--------------
 1 file changed, 43 insertions(+), 75 deletions(-)

diff --git a/reference/src/taimpl/src/internal/cenc.c b/reference/src/taimpl/src/internal/cenc.c
index 84af6b3..cde9da5 100644
--- a/reference/src/taimpl/src/internal/cenc.c
+++ b/reference/src/taimpl/src/internal/cenc.c
@@ -39,92 +39,60 @@ static sa_status decrypt(
         uint8_t* in_bytes,
         size_t bytes_to_process,
         size_t* enc_byte_count,
-        uint8_t* iv,
+        const uint8_t* iv,
         sa_cipher_algorithm cipher_algorithm,
         symmetric_context_t* symmetric_context) {
 
     // For AES-CTR mode, IV is an 8 byte nonce followed by an 8 byte counter. Openssl as well as other implementations
-    // treat all 16 bytes as a counter. This code accounts for the rollover condition.
-
-    // Determine if the iv will rollover. If not, decrypt the whole block.
-    size_t leading_partial_block_size =
-            *enc_byte_count % AES_BLOCK_SIZE == 0 ? 0 : AES_BLOCK_SIZE - *enc_byte_count % AES_BLOCK_SIZE;
-    size_t number_of_full_blocks = (bytes_to_process - leading_partial_block_size) / AES_BLOCK_SIZE;
-    uint64_t* counter_buffer = (uint64_t*) (iv + 8);
-    size_t num_blocks_before_rollover = UINT64_MAX - be64toh(*counter_buffer) + 1;
-    bool counter_rollover =
-            num_blocks_before_rollover <= (number_of_full_blocks + (leading_partial_block_size > 0 ? 1 : 0));
-
-    for (size_t bytes_encrypted = 0; bytes_to_process > bytes_encrypted;) {
-        if (counter_rollover && cipher_algorithm == SA_CIPHER_ALGORITHM_AES_CTR) {
-            // This is an AES-CTR cipher and the counter portion of the IV is going to rollover, so encrypt all blocks
-            // up to the rollover block and manually increment the IV.
-            if (leading_partial_block_size > 0) {
-                size_t length = leading_partial_block_size;
-                sa_status status = symmetric_context_decrypt(symmetric_context, out_bytes + bytes_encrypted,
-                        &length, in_bytes + bytes_encrypted, leading_partial_block_size);
-                if (status != SA_STATUS_OK) {
-                    ERROR("symmetric_context_decrypt failed");
-                    return status;
-                }
-
-                // Increment the IV by the number of full blocks just decrypted.
-                (*counter_buffer) = htobe64(be64toh(*counter_buffer) + 1);
-                status = symmetric_context_set_iv(symmetric_context, iv, AES_BLOCK_SIZE);
-                if (status != SA_STATUS_OK) {
-                    ERROR("symmetric_context_set_iv failed");
-                    return status;
-                }
-
-                *enc_byte_count += length;
-                bytes_encrypted += length;
-                leading_partial_block_size = 0;
+    // treat all 16 bytes as a counter. This code accounts for the rollover condition: the 8 byte counter starts again at
+    // zero and the nonce stays as it is. enc_byte_count is the number of bytes of this sample processed before this call.
+    size_t bytes_before_rollover = bytes_to_process;
+    bool counter_rollover = false;
+    if (cipher_algorithm == SA_CIPHER_ALGORITHM_AES_CTR) {
+        uint64_t counter = 0;
+        memcpy(&counter, iv + 8, sizeof(counter));
+        counter = be64toh(counter);
+
+        // The number of blocks before the rollover. When the counter starts at 0, it can never roll over.
+        uint64_t blocks = UINT64_MAX - counter + 1;
+        if (blocks > 0 && blocks <= SIZE_MAX / AES_BLOCK_SIZE) {
+            size_t rollover = (size_t) blocks * AES_BLOCK_SIZE;
+            if (*enc_byte_count <= rollover && bytes_to_process > rollover - *enc_byte_count) {
+                counter_rollover = true;
+                bytes_before_rollover = rollover - *enc_byte_count;
             }
+        }
+    }
 
-            size_t full_blocks_to_encrypt = MIN(num_blocks_before_rollover, number_of_full_blocks);
-            if (full_blocks_to_encrypt > 0) {
-                size_t length = full_blocks_to_encrypt * AES_BLOCK_SIZE;
-                sa_status status = symmetric_context_decrypt(symmetric_context, out_bytes + bytes_encrypted,
-                        &length, in_bytes + bytes_encrypted, full_blocks_to_encrypt * AES_BLOCK_SIZE);
-                if (status != SA_STATUS_OK) {
-                    ERROR("symmetric_context_decrypt failed");
-                    return status;
-                }
-
-                // Increment the IV by the number of full blocks just decrypted.
-                (*counter_buffer) = htobe64(be64toh(*counter_buffer) + full_blocks_to_encrypt);
-                status = symmetric_context_set_iv(symmetric_context, iv, AES_BLOCK_SIZE);
-                if (status != SA_STATUS_OK) {
-                    ERROR("symmetric_context_set_iv failed");
-                    return status;
-                }
-
-                *enc_byte_count += length;
-                bytes_encrypted += length;
-                number_of_full_blocks -= full_blocks_to_encrypt;
-                num_blocks_before_rollover = 0;
-            }
+    if (bytes_before_rollover > 0) {
+        size_t length = bytes_before_rollover;
+        sa_status status = symmetric_context_decrypt(symmetric_context, out_bytes, &length, in_bytes,
+                bytes_before_rollover);
+        if (status != SA_STATUS_OK) {
+            ERROR("symmetric_context_decrypt failed");
+            return status;
+        }
+    }
 
-            counter_rollover = false;
-        } else {
-            // The IV counter is not going to rollover or this is an AES-CBC CIPHER. Openssl and other implementations
-            // handle this automatically.
-            size_t length = bytes_to_process - bytes_encrypted;
-            sa_status status = symmetric_context_decrypt(symmetric_context, out_bytes + bytes_encrypted,
-                    &length, in_bytes + bytes_encrypted, bytes_to_process - bytes_encrypted);
-            if (status != SA_STATUS_OK) {
-                ERROR("symmetric_context_decrypt failed");
-                return status;
-            }
+    if (counter_rollover) {
+        uint8_t rollover_iv[AES_BLOCK_SIZE] = {0};
+        memcpy(rollover_iv, iv, 8);
+        sa_status status = symmetric_context_set_iv(symmetric_context, rollover_iv, AES_BLOCK_SIZE);
+        if (status != SA_STATUS_OK) {
+            ERROR("symmetric_context_set_iv failed");
+            return status;
+        }
 
-            uint64_t new_iv = be64toh(*counter_buffer);
-            new_iv += number_of_full_blocks + (leading_partial_block_size > 0 ? 1 : 0);
-            (*counter_buffer) = htobe64(new_iv);
-            *enc_byte_count += length;
-            bytes_encrypted = bytes_to_process; // length?
+        size_t length = bytes_to_process - bytes_before_rollover;
+        status = symmetric_context_decrypt(symmetric_context, out_bytes + bytes_before_rollover, &length,
+                in_bytes + bytes_before_rollover, bytes_to_process - bytes_before_rollover);
+        if (status != SA_STATUS_OK) {
+            ERROR("symmetric_context_decrypt failed");
+            return status;
         }
     }
 
+    *enc_byte_count += bytes_to_process;
     return SA_STATUS_OK;
 }
 
-- 
2.43.0


From 76675482d231670d07fa9517d105b4ee67ececef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:14 +0000
Subject: [PATCH 20/89] fix: do not overflow, and then loop forever, on large
 encryption patterns

---
 reference/src/taimpl/src/internal/cenc.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/reference/src/taimpl/src/internal/cenc.c b/reference/src/taimpl/src/internal/cenc.c
index cde9da5..6bd16a7 100644
--- a/reference/src/taimpl/src/internal/cenc.c
+++ b/reference/src/taimpl/src/internal/cenc.c
@@ -232,8 +232,7 @@ sa_status cenc_process_sample(
                     while (bytes_left >= AES_BLOCK_SIZE) {
                         // Calculate the number of bytes in the encrypted pattern stripe and decrypt them into the
                         // output buffer. Account for any remainder partial block at the end of the protected data.
-                        size_t block = MIN(sample->crypt_byte_block * AES_BLOCK_SIZE,
-                                (bytes_left / AES_BLOCK_SIZE) * AES_BLOCK_SIZE);
+                        size_t block = MIN(sample->crypt_byte_block, bytes_left / AES_BLOCK_SIZE) * AES_BLOCK_SIZE;
                         if (block > 0) {
                             status = decrypt(out_bytes + offset, in_bytes + offset, block, &enc_byte_count, iv,
                                     cipher_algorithm, symmetric_context);
@@ -249,8 +248,7 @@ sa_status cenc_process_sample(
                         // Calculate the number of bytes in the skipped pattern stripe and copy them into the output
                         // buffer. Account for any remainder partial block at the end of the protected data.
                         if (sample->skip_byte_block > 0) {
-                            block = MIN(sample->skip_byte_block * AES_BLOCK_SIZE,
-                                    (bytes_left / AES_BLOCK_SIZE) * AES_BLOCK_SIZE);
+                            block = MIN(sample->skip_byte_block, bytes_left / AES_BLOCK_SIZE) * AES_BLOCK_SIZE;
                             if (block > 0) {
                                 memcpy(out_bytes + offset, in_bytes + offset, block);
                                 offset += block;
-- 
2.43.0


From 1d0f863b3eb18b0a4c8657b57f5848f9f57a87c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:14 +0000
Subject: [PATCH 21/89] fix: stop processing a sample when decrypting one of
 its pattern stripes fails

---
 reference/src/taimpl/src/internal/cenc.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/reference/src/taimpl/src/internal/cenc.c b/reference/src/taimpl/src/internal/cenc.c
index 6bd16a7..051b551 100644
--- a/reference/src/taimpl/src/internal/cenc.c
+++ b/reference/src/taimpl/src/internal/cenc.c
@@ -257,6 +257,9 @@ sa_status cenc_process_sample(
                         }
                     }
 
+                    if (status != SA_STATUS_OK)
+                        break;
+
                     // Copy the clear remainder partial block into the output buffer.
                     if (bytes_left > 0) {
                         memcpy(out_bytes + offset, in_bytes + offset, bytes_left);
-- 
2.43.0


From cb245e3f40d31173a2691fa6a0bbd6411a9f72b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:14 +0000
Subject: [PATCH 22/89] fix: do not take adjacent buffers of a sample for
 overlapping ones

---
 reference/src/taimpl/src/ta_sa_process_common_encryption.c | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/reference/src/taimpl/src/ta_sa_process_common_encryption.c b/reference/src/taimpl/src/ta_sa_process_common_encryption.c
index 449b84f..b7ed4f6 100644
--- a/reference/src/taimpl/src/ta_sa_process_common_encryption.c
+++ b/reference/src/taimpl/src/ta_sa_process_common_encryption.c
@@ -150,12 +150,7 @@ static sa_status verify_sample(
         }
 
         // Check if the buffers overlap.
-        uint8_t* out_bytes_end = out_bytes + required_length;
-        uint8_t* in_bytes_end = in_bytes + required_length;
-        if ((out_bytes >= in_bytes && out_bytes <= in_bytes_end) ||
-                (out_bytes_end >= in_bytes && out_bytes_end <= in_bytes_end) ||
-                (in_bytes >= out_bytes && in_bytes <= out_bytes_end) ||
-                (in_bytes_end >= out_bytes && in_bytes_end <= out_bytes_end)) {
+        if (out_bytes < in_bytes + required_length && in_bytes < out_bytes + required_length) {
             ERROR("Overlapping in and out buffers");
             status = SA_STATUS_INVALID_PARAMETER;
             break;
-- 
2.43.0


From 04f0f6ae653b99727eee8fce604d5f7d7b0b8d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:23 +0000
Subject: [PATCH 23/89] fix: refuse common encryption samples on a context that
 has processed its last data

---
 reference/src/taimpl/src/ta_sa_process_common_encryption.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/reference/src/taimpl/src/ta_sa_process_common_encryption.c b/reference/src/taimpl/src/ta_sa_process_common_encryption.c
index b7ed4f6..5b275b7 100644
--- a/reference/src/taimpl/src/ta_sa_process_common_encryption.c
+++ b/reference/src/taimpl/src/ta_sa_process_common_encryption.c
@@ -82,6 +82,12 @@ static sa_status verify_sample(
             break;
         }
 
+        if (cipher_is_last_processed(cipher)) {
+            ERROR("Last already processed");
+            status = SA_STATUS_INVALID_PARAMETER;
+            break;
+        }
+
         const sa_rights* rights = cipher_get_key_rights(cipher);
         if (rights == NULL) {
             ERROR("cipher_get_key_rights failed");
-- 
2.43.0


From 6ad83f0ebf686547a54293ba510461d71478f41b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:23 +0000
Subject: [PATCH 24/89] fix: bound the recursion of the JSON parser by the
 nesting and length of its input

---
 reference/src/taimpl/src/internal/json.c | 69 +++++++++++++++---------
 1 file changed, 43 insertions(+), 26 deletions(-)

diff --git a/reference/src/taimpl/src/internal/json.c b/reference/src/taimpl/src/internal/json.c
index c2a3bac..85ae046 100644
--- a/reference/src/taimpl/src/internal/json.c
+++ b/reference/src/taimpl/src/internal/json.c
@@ -25,6 +25,7 @@
 #include <yajl/yajl_version.h>
 
 #define MAX_KEY_LENGTH 255 // NOLINT
+#define MAX_DEPTH 64       // NOLINT
 
 struct json_value_s {
     json_type_e type;
@@ -114,18 +115,21 @@ static void json_map_free(json_map_t* map) {
         return;
     }
 
-    memory_internal_free(map->key);
-    json_value_free(map->value);
-    json_map_free(map->next);
-    memory_internal_free(map);
+    while (map != NULL) {
+        json_map_t* next = map->next;
+        memory_internal_free(map->key);
+        json_value_free(map->value);
+        memory_internal_free(map);
+        map = next;
+    }
 }
 
 static size_t json_map_size(const json_map_t* map) {
-    if (map->next == NULL) {
-        return 0;
-    }
+    size_t size = 0;
+    for (; map->next != NULL; map = map->next)
+        size++;
 
-    return 1 + json_map_size(map->next);
+    return size;
 }
 
 static json_map_t* json_map_last_key_value(json_map_t* map) {
@@ -133,11 +137,10 @@ static json_map_t* json_map_last_key_value(json_map_t* map) {
         return NULL;
     }
 
-    if (map->next == NULL) {
-        return map;
-    }
+    while (map->next != NULL)
+        map = map->next;
 
-    return json_map_last_key_value(map->next);
+    return map;
 }
 
 static json_map_t* json_map_add_key_value(json_map_t* map) {
@@ -205,17 +208,20 @@ static void json_array_free(json_array_t* array) {
         return;
     }
 
-    json_array_free(array->next);
-    json_value_free(array->value);
-    memory_internal_free(array);
+    while (array != NULL) {
+        json_array_t* next = array->next;
+        json_value_free(array->value);
+        memory_internal_free(array);
+        array = next;
+    }
 }
 
 static size_t json_array_size(const json_array_t* array) {
-    if (array->next == NULL) {
-        return 0;
-    }
+    size_t size = 0;
+    for (; array->next != NULL; array = array->next)
+        size++;
 
-    return 1 + json_array_size(array->next);
+    return size;
 }
 
 static void json_array_set_value(json_array_t* array, json_value_t* value) {
@@ -233,11 +239,10 @@ static json_array_t* json_array_last(json_array_t* array) {
         return NULL;
     }
 
-    if (array->next == NULL) {
-        return array;
-    }
+    while (array->next != NULL)
+        array = array->next;
 
-    return json_array_last(array->next);
+    return array;
 }
 
 static json_array_t* json_array_add(
@@ -284,9 +289,12 @@ static void json_stack_free(json_stack_t* stack) {
         return;
     }
 
-    json_stack_free(stack->previous);
-    json_value_free(stack->value);
-    memory_internal_free(stack);
+    while (stack != NULL) {
+        json_stack_t* previous = stack->previous;
+        json_value_free(stack->value);
+        memory_internal_free(stack);
+        stack = previous;
+    }
 }
 
 static void json_stack_set_value(
@@ -331,6 +339,7 @@ static json_stack_t* json_stack_pop(
 
 typedef struct {
     yajl_handle yajl;
+    size_t depth;
     json_stack_t* stack;
     json_value_t* root;
 } json_parse_context_t;
@@ -404,6 +413,12 @@ static json_stack_t* json_parse_context_push(
         return NULL;
     }
 
+    // A value is freed recursively, so the nesting has to be bounded.
+    if (context->depth >= MAX_DEPTH) {
+        ERROR("Too many nested values");
+        return NULL;
+    }
+
     json_stack_t* new_stack = json_stack_push(context->stack);
     if (new_stack == NULL) {
         ERROR("json_stack_push failed");
@@ -413,6 +428,7 @@ static json_stack_t* json_parse_context_push(
     json_stack_set_value(new_stack, val);
 
     context->stack = new_stack;
+    context->depth++;
 
     return context->stack;
 }
@@ -481,6 +497,7 @@ static json_stack_t* json_parse_context_pop(json_parse_context_t* context) {
 
     json_value_t* value = NULL;
     context->stack = json_stack_pop(context->stack, &value);
+    context->depth--;
 
     json_parse_context_set_value(context, value);
 
-- 
2.43.0


From 07a568d80fdf433677f5df63208130737d83130d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:23 +0000
Subject: [PATCH 25/89] fix: stop parsing JSON when memory for one of its
 values cannot be allocated

---
 reference/src/taimpl/src/internal/json.c | 74 +++++++++++++-----------
 1 file changed, 41 insertions(+), 33 deletions(-)

diff --git a/reference/src/taimpl/src/internal/json.c b/reference/src/taimpl/src/internal/json.c
index 85ae046..c23b8e5 100644
--- a/reference/src/taimpl/src/internal/json.c
+++ b/reference/src/taimpl/src/internal/json.c
@@ -433,7 +433,7 @@ static json_stack_t* json_parse_context_push(
     return context->stack;
 }
 
-static void json_parse_context_set_value(
+static bool json_parse_context_set_value(
         json_parse_context_t* context,
         json_value_t* value) {
     do {
@@ -444,7 +444,7 @@ static void json_parse_context_set_value(
 
         if (context->stack == NULL) {
             json_parse_context_set_root(context, value);
-            return;
+            return true;
         }
 
         // stack exists, but no value set. should never get here
@@ -462,7 +462,7 @@ static void json_parse_context_set_value(
             }
 
             json_map_set_value(obj, value);
-            return;
+            return true;
         }
 
         // array
@@ -473,8 +473,12 @@ static void json_parse_context_set_value(
                 break;
             }
 
-            json_array_add(arr, value);
-            return;
+            if (json_array_add(arr, value) == NULL) {
+                ERROR("json_array_add failed");
+                break;
+            }
+
+            return true;
         }
 
         ERROR("Invalid context stack state detected");
@@ -482,26 +486,25 @@ static void json_parse_context_set_value(
 
     // since an error was detected, free the val
     json_value_free(value);
+    return false;
 }
 
-static json_stack_t* json_parse_context_pop(json_parse_context_t* context) {
+static bool json_parse_context_pop(json_parse_context_t* context) {
     if (context == NULL) {
         ERROR("NULL context");
-        return NULL;
+        return false;
     }
 
     if (context->stack == NULL) {
         ERROR("NULL stack");
-        return NULL;
+        return false;
     }
 
     json_value_t* value = NULL;
     context->stack = json_stack_pop(context->stack, &value);
     context->depth--;
 
-    json_parse_context_set_value(context, value);
-
-    return context->stack;
+    return json_parse_context_set_value(context, value);
 }
 
 static char* string_new(
@@ -704,9 +707,7 @@ static int bool_callback(
         return 0;
     }
 
-    json_parse_context_set_value(session, value);
-
-    return 1;
+    return json_parse_context_set_value(session, value) ? 1 : 0;
 }
 
 static int double_callback(
@@ -720,9 +721,7 @@ static int double_callback(
         return 0;
     }
 
-    json_parse_context_set_value(session, value);
-
-    return 1;
+    return json_parse_context_set_value(session, value) ? 1 : 0;
 }
 
 #if YAJL_MAJOR < 2
@@ -742,17 +741,13 @@ static int integer_callback(
         return 0;
     }
 
-    json_parse_context_set_value(session, value);
-
-    return 1;
+    return json_parse_context_set_value(session, value) ? 1 : 0;
 }
 
 static int null_callback(void* context) {
     json_parse_context_t* session = (json_parse_context_t*) context;
 
-    json_parse_context_set_value(session, NULL);
-
-    return 1;
+    return json_parse_context_set_value(session, NULL) ? 1 : 0;
 }
 
 #if YAJL_MAJOR < 2
@@ -775,9 +770,7 @@ static int string_callback(
         return 0;
     }
 
-    json_parse_context_set_value(session, value);
-
-    return 1;
+    return json_parse_context_set_value(session, value) ? 1 : 0;
 }
 
 #if YAJL_MAJOR < 2
@@ -819,13 +812,20 @@ static int map_key_callback(
         return 0;
     }
 
+    char* new_key = string_new(key, key_length);
+    if (new_key == NULL) {
+        ERROR("string_new failed");
+        return 0;
+    }
+
     json_map_t* new_key_value = json_map_add_key_value((json_map_t*) session->stack->value->payload);
     if (new_key_value == NULL) {
+        memory_internal_free(new_key);
         ERROR("json_map_add_key_value failed");
         return 0;
     }
 
-    json_map_set_key(new_key_value, string_new(key, key_length), key_length);
+    json_map_set_key(new_key_value, new_key, key_length);
 
     return 1;
 }
@@ -851,8 +851,7 @@ static int start_map_callback(void* context) {
 
 static int end_map_callback(void* context) {
     json_parse_context_t* session = (json_parse_context_t*) context;
-    json_parse_context_pop(session);
-    return 1;
+    return json_parse_context_pop(session) ? 1 : 0;
 }
 
 static int start_array_callback(void* context) {
@@ -876,8 +875,7 @@ static int start_array_callback(void* context) {
 
 static int end_array_callback(void* context) {
     json_parse_context_t* session = (json_parse_context_t*) context;
-    json_parse_context_pop(session);
-    return 1;
+    return json_parse_context_pop(session) ? 1 : 0;
 }
 
 json_value_t* json_parse_bytes(
@@ -1010,7 +1008,12 @@ json_value_t** json_value_as_array(
     const json_array_t* array_payload = (const json_array_t*) value->payload;
     size_t size = json_array_size(array_payload);
 
-    json_value_t** values_array = memory_internal_alloc(sizeof(json_value_t*) * size);
+    json_value_t** values_array = memory_internal_alloc(sizeof(json_value_t*) * (size + 1));
+    if (values_array == NULL) {
+        ERROR("memory_internal_alloc failed");
+        return NULL;
+    }
+
     for (size_t i = 0; i < size; ++i) {
         array_payload = array_payload->next;
         values_array[i] = array_payload->value;
@@ -1045,7 +1048,12 @@ json_key_value_t* json_value_as_map(
     const json_map_t* map_payload = (const json_map_t*) value->payload;
     size_t size = json_map_size(map_payload);
 
-    json_key_value_t* map_key_values = memory_internal_alloc(sizeof(json_key_value_t) * size);
+    json_key_value_t* map_key_values = memory_internal_alloc(sizeof(json_key_value_t) * (size + 1));
+    if (map_key_values == NULL) {
+        ERROR("memory_internal_alloc failed");
+        return NULL;
+    }
+
     for (size_t i = 0; i < size; ++i) {
         map_payload = map_payload->next;
         map_key_values[i].key = map_payload->key;
-- 
2.43.0


From 6fa9dbc6543d98786cf4665bd2ed1532028f9d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:23 +0000
Subject: [PATCH 26/89] fix: refuse base64 with characters outside of its
 alphabet or a part of a quantum

---
 reference/src/taimpl/src/internal/json.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/reference/src/taimpl/src/internal/json.c b/reference/src/taimpl/src/internal/json.c
index c23b8e5..2241aab 100644
--- a/reference/src/taimpl/src/internal/json.c
+++ b/reference/src/taimpl/src/internal/json.c
@@ -1195,6 +1195,11 @@ bool b64_decode(
             break;
         }
 
+        if (!url_decode && data_length != in_length) {
+            ERROR("Invalid in_length");
+            break;
+        }
+
         memcpy(data, in, in_length);
         if (url_decode) {
             for (size_t i = 0; i < in_length; i++) {
@@ -1224,8 +1229,13 @@ bool b64_decode(
         bio = BIO_push(b64, bio);
         b64 = NULL;
 
+        size_t padding = 0;
+        while (padding < 2 && padding < data_length && data[data_length - padding - 1] == '=')
+            padding++;
+
+        // A shorter result means that the decoder stopped at a character that is not in the alphabet.
         int written = BIO_read(bio, out, (int) *out_length);
-        if (written < 0) {
+        if (written < 0 || (size_t) written != *out_length - padding) {
             ERROR("BIO_read failed");
             break;
         }
-- 
2.43.0


From 25c00993e181d7327e58569bb644c2db84a2a81b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:51 +0000
Subject: [PATCH 27/89] fix: do not free the decoded parts of a Type-J
 container twice

---
 reference/src/taimpl/src/internal/typej.c | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/reference/src/taimpl/src/internal/typej.c b/reference/src/taimpl/src/internal/typej.c
index 08792c4..dab41c4 100644
--- a/reference/src/taimpl/src/internal/typej.c
+++ b/reference/src/taimpl/src/internal/typej.c
@@ -176,7 +176,6 @@ static typej_unpacked_t* unpack_typej(
         if (!b64_decode(unpacked->header, &unpacked->header_length, unpacked->header_b64,
                     unpacked->header_b64_length, true)) {
             ERROR("b64_decode failed");
-            memory_secure_free(unpacked->header);
             break;
         }
 
@@ -185,7 +184,6 @@ static typej_unpacked_t* unpack_typej(
         if (!b64_decode(unpacked->payload, &unpacked->payload_length, unpacked->payload_b64,
                     unpacked->payload_b64_length, true)) {
             ERROR("b64_decode failed");
-            memory_secure_free(unpacked->payload);
             break;
         }
 
@@ -193,7 +191,6 @@ static typej_unpacked_t* unpack_typej(
         unpacked->mac = memory_internal_alloc(unpacked->mac_length);
         if (!b64_decode(unpacked->mac, &unpacked->mac_length, unpacked->mac_b64, unpacked->mac_b64_length, true)) {
             ERROR("b64_decode failed");
-            memory_secure_free(unpacked->mac);
             break;
         }
 
@@ -542,7 +539,6 @@ static sa_status unwrap_key_v1(
         content_key = memory_internal_alloc(content_key_size);
         if (!b64_decode(content_key, &content_key_size, content_key_b64, content_key_b64_size, false)) {
             ERROR("Invalid contentKey");
-            memory_secure_free(content_key);
             status = SA_STATUS_INVALID_KEY_FORMAT;
             break;
         }
@@ -655,7 +651,6 @@ static sa_status unwrap_key_v2(
         content_key = memory_internal_alloc(content_key_size);
         if (!b64_decode(content_key, &content_key_size, content_key_b64, content_key_b64_size, false)) {
             ERROR("json_key_value_find failed");
-            memory_secure_free(content_key);
             status = SA_STATUS_INVALID_KEY_FORMAT;
             break;
         }
@@ -699,7 +694,6 @@ static sa_status unwrap_key_v2(
             iv = memory_internal_alloc(iv_size);
             if (!b64_decode(iv, &iv_size, iv_b64, iv_b64_size, false) || iv_size != SYM_128_KEY_SIZE) {
                 ERROR("Invalid contentKeyTransportIv");
-                memory_secure_free(iv);
                 status = SA_STATUS_INVALID_KEY_FORMAT;
                 break;
             }
-- 
2.43.0


From 2092aaec19e32f16c87433519ae899becf39665d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:51 +0000
Subject: [PATCH 28/89] fix: check the allocations made while unwrapping a
 Type-J container

---
 reference/src/taimpl/src/internal/typej.c | 42 +++++++++++++++++++++++
 1 file changed, 42 insertions(+)

diff --git a/reference/src/taimpl/src/internal/typej.c b/reference/src/taimpl/src/internal/typej.c
index dab41c4..1e0b3d8 100644
--- a/reference/src/taimpl/src/internal/typej.c
+++ b/reference/src/taimpl/src/internal/typej.c
@@ -135,6 +135,10 @@ static typej_unpacked_t* unpack_typej(
     typej_unpacked_t* unpacked = NULL;
     do {
         unpacked = typej_unpacked_create();
+        if (unpacked == NULL) {
+            ERROR("typej_unpacked_create failed");
+            break;
+        }
 
         unpacked->in = in;
         unpacked->in_length = in_length;
@@ -173,6 +177,11 @@ static typej_unpacked_t* unpack_typej(
         unpacked->mac_b64_length = mac_b64_end - unpacked->mac_b64;
         unpacked->header_length = b64_decoded_length(unpacked->header_b64_length);
         unpacked->header = memory_internal_alloc(unpacked->header_length);
+        if (unpacked->header == NULL) {
+            ERROR("memory_internal_alloc failed");
+            break;
+        }
+
         if (!b64_decode(unpacked->header, &unpacked->header_length, unpacked->header_b64,
                     unpacked->header_b64_length, true)) {
             ERROR("b64_decode failed");
@@ -181,6 +190,11 @@ static typej_unpacked_t* unpack_typej(
 
         unpacked->payload_length = b64_decoded_length(unpacked->payload_b64_length);
         unpacked->payload = memory_internal_alloc(unpacked->payload_length);
+        if (unpacked->payload == NULL) {
+            ERROR("memory_internal_alloc failed");
+            break;
+        }
+
         if (!b64_decode(unpacked->payload, &unpacked->payload_length, unpacked->payload_b64,
                     unpacked->payload_b64_length, true)) {
             ERROR("b64_decode failed");
@@ -189,6 +203,11 @@ static typej_unpacked_t* unpack_typej(
 
         unpacked->mac_length = b64_decoded_length(unpacked->mac_b64_length);
         unpacked->mac = memory_internal_alloc(unpacked->mac_length);
+        if (unpacked->mac == NULL) {
+            ERROR("memory_internal_alloc failed");
+            break;
+        }
+
         if (!b64_decode(unpacked->mac, &unpacked->mac_length, unpacked->mac_b64, unpacked->mac_b64_length, true)) {
             ERROR("b64_decode failed");
             break;
@@ -382,6 +401,11 @@ static sa_status fields_to_rights(
 
     size_t rights_count = b64_decoded_length(rights_field_size);
     uint8_t* rights_bytes = memory_internal_alloc(rights_count);
+    if (rights_bytes == NULL) {
+        ERROR("memory_internal_alloc failed");
+        return SA_STATUS_INTERNAL_ERROR;
+    }
+
     if (!b64_decode(rights_bytes, &rights_count, rights_field_string, rights_field_size, false)) {
         ERROR("Invalid contentKeyRights");
         memory_secure_free(rights_bytes);
@@ -537,6 +561,12 @@ static sa_status unwrap_key_v1(
 
         size_t content_key_size = b64_decoded_length(content_key_b64_size);
         content_key = memory_internal_alloc(content_key_size);
+        if (content_key == NULL) {
+            ERROR("memory_internal_alloc failed");
+            status = SA_STATUS_INTERNAL_ERROR;
+            break;
+        }
+
         if (!b64_decode(content_key, &content_key_size, content_key_b64, content_key_b64_size, false)) {
             ERROR("Invalid contentKey");
             status = SA_STATUS_INVALID_KEY_FORMAT;
@@ -649,6 +679,12 @@ static sa_status unwrap_key_v2(
 
         size_t content_key_size = b64_decoded_length(content_key_b64_size);
         content_key = memory_internal_alloc(content_key_size);
+        if (content_key == NULL) {
+            ERROR("memory_internal_alloc failed");
+            status = SA_STATUS_INTERNAL_ERROR;
+            break;
+        }
+
         if (!b64_decode(content_key, &content_key_size, content_key_b64, content_key_b64_size, false)) {
             ERROR("json_key_value_find failed");
             status = SA_STATUS_INVALID_KEY_FORMAT;
@@ -692,6 +728,12 @@ static sa_status unwrap_key_v2(
 
             size_t iv_size = b64_decoded_length(iv_b64_size);
             iv = memory_internal_alloc(iv_size);
+            if (iv == NULL) {
+                ERROR("memory_internal_alloc failed");
+                status = SA_STATUS_INTERNAL_ERROR;
+                break;
+            }
+
             if (!b64_decode(iv, &iv_size, iv_b64, iv_b64_size, false) || iv_size != SYM_128_KEY_SIZE) {
                 ERROR("Invalid contentKeyTransportIv");
                 status = SA_STATUS_INVALID_KEY_FORMAT;
-- 
2.43.0


From cf31b746b3f4a8208c1b6ecacd81cd1aea150518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:51 +0000
Subject: [PATCH 29/89] fix: refuse Type-J containers with fields of the wrong
 type or malformed TA identifiers

---
 reference/src/taimpl/src/internal/typej.c | 29 +++++++++++++++++++----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/reference/src/taimpl/src/internal/typej.c b/reference/src/taimpl/src/internal/typej.c
index 1e0b3d8..1a8e9e8 100644
--- a/reference/src/taimpl/src/internal/typej.c
+++ b/reference/src/taimpl/src/internal/typej.c
@@ -426,6 +426,11 @@ static sa_status fields_to_rights(
         return SA_STATUS_INVALID_KEY_FORMAT;
     }
 
+    if (json_value_get_type(usage_field->value) != JSON_TYPE_INT) {
+        ERROR("Invalid contentKeyUsage");
+        return SA_STATUS_INVALID_KEY_FORMAT;
+    }
+
     long long usage = json_value_as_integer(usage_field->value);
     status = key_usage_to_usage_flags(&rights->usage_flags, usage, SA_KEY_TYPE_SYMMETRIC, AES_SUBTYPE);
     if (status != SA_STATUS_OK) {
@@ -479,6 +484,11 @@ static sa_status fields_to_rights(
         return SA_STATUS_INVALID_KEY_FORMAT;
     }
 
+    if (json_value_get_type(cacheable_field->value) != JSON_TYPE_BOOL) {
+        ERROR("Invalid contentKeyCacheable");
+        return SA_STATUS_INVALID_KEY_FORMAT;
+    }
+
     if (json_value_as_bool(cacheable_field->value)) {
         SA_USAGE_BIT_SET(rights->usage_flags, SA_USAGE_FLAG_CACHEABLE);
     }
@@ -493,8 +503,13 @@ static sa_status fields_to_rights(
         // those version. If omitted in a version 3 key container, the all caller UUIDS are allowed.
         memcpy(&rights->allowed_tas[0], &ALL_MATCH, sizeof(sa_uuid));
     } else {
-        size_t entitled_ta_ids_length;
+        size_t entitled_ta_ids_length = 0;
         entitled_ta_ids = json_value_as_array(&entitled_ta_ids_length, entitled_ta_ids_field->value);
+        if (entitled_ta_ids == NULL) {
+            ERROR("json_value_as_array failed");
+            return SA_STATUS_INVALID_KEY_FORMAT;
+        }
+
         if (entitled_ta_ids_length > MAX_NUM_ALLOWED_TA_IDS) {
             memory_internal_free(entitled_ta_ids);
             ERROR("Invalid entitled_ta_ids_length");
@@ -502,15 +517,13 @@ static sa_status fields_to_rights(
         }
 
         for (size_t i = 0; i < entitled_ta_ids_length; i++) {
-            size_t ta_id_length;
+            size_t ta_id_length = 0;
             const char* ta_id = json_value_as_string(&ta_id_length, entitled_ta_ids[i]);
-            if (ta_id_length != UUID_LENGTH) {
+            if (ta_id == NULL || !convert_uuid(ta_id, ta_id_length, &rights->allowed_tas[i])) {
                 memory_internal_free(entitled_ta_ids);
                 ERROR("Invalid ta_id");
                 return SA_STATUS_INVALID_KEY_FORMAT;
             }
-
-            convert_uuid(ta_id, ta_id_length, &rights->allowed_tas[i]);
         }
 
         memory_internal_free(entitled_ta_ids);
@@ -699,6 +712,12 @@ static sa_status unwrap_key_v2(
             break;
         }
 
+        if (json_value_get_type(content_key_length_field->value) != JSON_TYPE_INT) {
+            ERROR("Invalid contentKeyLength");
+            status = SA_STATUS_INVALID_KEY_FORMAT;
+            break;
+        }
+
         size_t content_key_length = json_value_as_integer(content_key_length_field->value);
 
         if (cipher_algorithm == SA_CIPHER_ALGORITHM_AES_ECB ||
-- 
2.43.0


From 9a464d708b653c0fe27950e6681a6ed4c1283a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:38 +0000
Subject: [PATCH 30/89] fix: check the lengths of the nonce and key ladder
 inputs of a SOC container

---
 .../taimpl/src/internal/soc_key_container.c   | 60 ++++++++++++-------
 1 file changed, 37 insertions(+), 23 deletions(-)

diff --git a/reference/src/taimpl/src/internal/soc_key_container.c b/reference/src/taimpl/src/internal/soc_key_container.c
index 9608297..ea0ce13 100644
--- a/reference/src/taimpl/src/internal/soc_key_container.c
+++ b/reference/src/taimpl/src/internal/soc_key_container.c
@@ -304,6 +304,35 @@ static sa_status parse_header(
     return SA_STATUS_OK;
 }
 
+static bool decode_field(
+        void* out,
+        size_t out_length,
+        const json_key_value_t* field,
+        bool url_decode) {
+
+    size_t b64_length = 0;
+    const char* b64 = json_value_as_string(&b64_length, field->value);
+    if (b64 == NULL) {
+        ERROR("json_value_as_string failed");
+        return false;
+    }
+
+    uint8_t decoded[2 * AES_BLOCK_SIZE];
+    size_t decoded_length = b64_decoded_length(b64_length);
+    if (decoded_length > sizeof(decoded)) {
+        ERROR("Invalid length");
+        return false;
+    }
+
+    if (!b64_decode(decoded, &decoded_length, b64, b64_length, url_decode) || decoded_length != out_length) {
+        ERROR("b64_decode failed");
+        return false;
+    }
+
+    memcpy(out, decoded, out_length);
+    return true;
+}
+
 static sa_status parse_payload(
         json_key_value_t* fields,
         size_t fields_count,
@@ -393,11 +422,8 @@ static sa_status parse_payload(
         return SA_STATUS_INVALID_KEY_FORMAT;
     }
 
-    size_t b64_iv_length;
-    const char* iv = json_value_as_string(&b64_iv_length, iv_field->value);
-    size_t iv_length = b64_decoded_length(b64_iv_length);
-    if (!b64_decode(payload->iv, &iv_length, iv, b64_iv_length, false) && iv_length != GCM_IV_LENGTH) {
-        ERROR("b64_decode failed");
+    if (!decode_field(payload->iv, GCM_IV_LENGTH, iv_field, false)) {
+        ERROR("Invalid iv");
         return SA_STATUS_INVALID_KEY_FORMAT;
     }
 
@@ -453,12 +479,8 @@ static sa_status parse_payload(
         return SA_STATUS_INVALID_KEY_FORMAT;
     }
 
-    size_t b64_c1_length;
-    const char* c1 = json_value_as_string(&b64_c1_length, c1_field->value);
-    size_t c1_length = b64_decoded_length(b64_c1_length);
-    if (!b64_decode(payload->key_ladder_inputs.c1, &c1_length, c1, b64_c1_length, false) &&
-            c1_length != AES_BLOCK_SIZE) {
-        ERROR("b64_decode failed");
+    if (!decode_field(payload->key_ladder_inputs.c1, AES_BLOCK_SIZE, c1_field, false)) {
+        ERROR("Invalid c1");
         return SA_STATUS_INVALID_KEY_FORMAT;
     }
 
@@ -469,12 +491,8 @@ static sa_status parse_payload(
         return SA_STATUS_INVALID_KEY_FORMAT;
     }
 
-    size_t b64_c2_length;
-    const char* c2 = json_value_as_string(&b64_c2_length, c2_field->value);
-    size_t c2_length = b64_decoded_length(b64_c2_length);
-    if (!b64_decode(payload->key_ladder_inputs.c2, &c2_length, c2, b64_c2_length, true) &&
-            c2_length != AES_BLOCK_SIZE) {
-        ERROR("b64_decode failed");
+    if (!decode_field(payload->key_ladder_inputs.c2, AES_BLOCK_SIZE, c2_field, true)) {
+        ERROR("Invalid c2");
         return SA_STATUS_INVALID_KEY_FORMAT;
     }
 
@@ -485,12 +503,8 @@ static sa_status parse_payload(
         return SA_STATUS_INVALID_KEY_FORMAT;
     }
 
-    size_t b64_c3_length;
-    const char* c3 = json_value_as_string(&b64_c3_length, c3_field->value);
-    size_t c3_length = b64_decoded_length(b64_c3_length);
-    if (!b64_decode(payload->key_ladder_inputs.c3, &c3_length, c3, b64_c3_length, false) &&
-            c3_length != AES_BLOCK_SIZE) {
-        ERROR("b64_decode failed");
+    if (!decode_field(payload->key_ladder_inputs.c3, AES_BLOCK_SIZE, c3_field, false)) {
+        ERROR("Invalid c3");
         return SA_STATUS_INVALID_KEY_FORMAT;
     }
 
-- 
2.43.0


From 0669e85c02b879b940f14558f5b1b4c4e3c4c1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:38 +0000
Subject: [PATCH 31/89] fix: do not free the encrypted key of a SOC container
 twice

---
 reference/src/taimpl/src/internal/soc_key_container.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/reference/src/taimpl/src/internal/soc_key_container.c b/reference/src/taimpl/src/internal/soc_key_container.c
index ea0ce13..1fc126b 100644
--- a/reference/src/taimpl/src/internal/soc_key_container.c
+++ b/reference/src/taimpl/src/internal/soc_key_container.c
@@ -399,8 +399,13 @@ static sa_status parse_payload(
         return SA_STATUS_INVALID_KEY_FORMAT;
     }
 
-    size_t b64_encrypted_key_length;
+    size_t b64_encrypted_key_length = 0;
     const char* encrypted_key = json_value_as_string(&b64_encrypted_key_length, encrypted_key_field->value);
+    if (encrypted_key == NULL) {
+        ERROR("Invalid encryptedKey");
+        return SA_STATUS_INVALID_KEY_FORMAT;
+    }
+
     payload->encrypted_key_length = b64_decoded_length(b64_encrypted_key_length);
     payload->encrypted_key = memory_internal_alloc(payload->encrypted_key_length);
     if (payload->encrypted_key == NULL) {
@@ -411,7 +416,6 @@ static sa_status parse_payload(
     if (!b64_decode(payload->encrypted_key, &payload->encrypted_key_length, encrypted_key, b64_encrypted_key_length,
                 false)) {
         ERROR("b64_decode failed");
-        memory_internal_free(payload->encrypted_key);
         return SA_STATUS_INVALID_KEY_FORMAT;
     }
 
@@ -908,7 +912,7 @@ sa_status soc_kc_unwrap(
     soc_kc_header_t header;
     soc_kc_payload_t payload;
 
-    memory_memset_unoptimizable(&payload, 0, sizeof(soc_kc_unpacked_t));
+    memory_memset_unoptimizable(&payload, 0, sizeof(soc_kc_payload_t));
     sa_status status = SA_STATUS_INVALID_KEY_FORMAT;
     do {
         unpacked = unpack_soc_kc(in, in_length);
-- 
2.43.0


From 4751590fe073bfc92a0418e1ec4e58cf4f438295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:38 +0000
Subject: [PATCH 32/89] fix: bound the entitled TA identifiers of a SOC
 container and refuse malformed ones

---
 .../taimpl/src/internal/soc_key_container.c   | 22 +++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/reference/src/taimpl/src/internal/soc_key_container.c b/reference/src/taimpl/src/internal/soc_key_container.c
index 1fc126b..3fe998c 100644
--- a/reference/src/taimpl/src/internal/soc_key_container.c
+++ b/reference/src/taimpl/src/internal/soc_key_container.c
@@ -265,8 +265,11 @@ static sa_status fields_to_rights(
         memcpy(&rights->allowed_tas[0], &ALL_MATCH, sizeof(sa_uuid));
     } else {
         for (size_t i = 0; i < payload->entitled_ta_ids_length; i++) {
-            convert_uuid(payload->entitled_ta_ids[i].ta_id, sizeof(payload->entitled_ta_ids[i].ta_id),
-                    &rights->allowed_tas[i]);
+            if (!convert_uuid(payload->entitled_ta_ids[i].ta_id, sizeof(payload->entitled_ta_ids[i].ta_id),
+                        &rights->allowed_tas[i])) {
+                ERROR("Invalid ta_id");
+                return SA_STATUS_INVALID_KEY_FORMAT;
+            }
         }
     }
 
@@ -461,10 +464,21 @@ static sa_status parse_payload(
         payload->entitled_ta_ids_length = 0;
     } else {
         entitled_ta_ids = json_value_as_array(&payload->entitled_ta_ids_length, entitled_ta_ids_field->value);
+        if (entitled_ta_ids == NULL) {
+            ERROR("json_value_as_array failed");
+            return SA_STATUS_INVALID_KEY_FORMAT;
+        }
+
+        if (payload->entitled_ta_ids_length > MAX_NUM_ALLOWED_TA_IDS) {
+            memory_internal_free(entitled_ta_ids);
+            ERROR("Too many entitled_ta_ids");
+            return SA_STATUS_INVALID_KEY_FORMAT;
+        }
+
         for (size_t i = 0; i < payload->entitled_ta_ids_length; i++) {
-            size_t ta_id_length;
+            size_t ta_id_length = 0;
             const char* ta_id = json_value_as_string(&ta_id_length, entitled_ta_ids[i]);
-            if (ta_id_length != UUID_LENGTH) {
+            if (ta_id == NULL || ta_id_length != UUID_LENGTH) {
                 memory_internal_free(entitled_ta_ids);
                 ERROR("Invalid ta_id");
                 return SA_STATUS_INVALID_KEY_FORMAT;
-- 
2.43.0


From 34812871bbbbfd0c206d379ccb107e8125fc1dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:38 +0000
Subject: [PATCH 33/89] fix: compare the names in a SOC container whole

---
 .../taimpl/src/internal/soc_key_container.c   | 77 ++++++++++---------
 1 file changed, 42 insertions(+), 35 deletions(-)

diff --git a/reference/src/taimpl/src/internal/soc_key_container.c b/reference/src/taimpl/src/internal/soc_key_container.c
index 3fe998c..901fb6c 100644
--- a/reference/src/taimpl/src/internal/soc_key_container.c
+++ b/reference/src/taimpl/src/internal/soc_key_container.c
@@ -196,6 +196,15 @@ static soc_kc_unpacked_t* unpack_soc_kc(
     return unpacked;
 }
 
+static bool string_equals(
+        const char* string,
+        size_t string_length,
+        const char* expected) {
+
+    return string != NULL && string_length == strlen(expected) &&
+           memory_memcmp_constant(string, expected, string_length) == 0;
+}
+
 static sa_status fields_to_rights(
         sa_rights* rights,
         sa_key_type key_type,
@@ -366,12 +375,12 @@ static sa_status parse_payload(
         if (root_key_type_field == NULL) {
             payload->root_key_type = UNDEFINED;
         } else {
-            size_t root_key_type_length;
+            size_t root_key_type_length = 0;
             const char* root_key_type = json_value_as_string(&root_key_type_length,
                     root_key_type_field->value);
-            if (memory_memcmp_constant(root_key_type, UNIQUE_STR, root_key_type_length) == 0) {
+            if (string_equals(root_key_type, root_key_type_length, UNIQUE_STR)) {
                 payload->root_key_type = UNIQUE;
-            } else if (memory_memcmp_constant(root_key_type, COMMON_STR, root_key_type_length) == 0) {
+            } else if (string_equals(root_key_type, root_key_type_length, COMMON_STR)) {
                 payload->root_key_type = COMMON;
             } else {
                 ERROR("Invalid rootKeyType");
@@ -596,12 +605,9 @@ static size_t build_aad(
     }
 
     if (payload->key_usage == KEY_ONLY &&
-            (memory_memcmp_constant(payload->key_type_string, "HMAC-128",
-                     payload->key_type_string_length) == 0 ||
-                    memory_memcmp_constant(payload->key_type_string, "HMAC-160",
-                            payload->key_type_string_length) == 0 ||
-                    memory_memcmp_constant(payload->key_type_string, "HMAC-256",
-                            payload->key_type_string_length) == 0)) {
+            (string_equals(payload->key_type_string, payload->key_type_string_length, "HMAC-128") ||
+                    string_equals(payload->key_type_string, payload->key_type_string_length, "HMAC-160") ||
+                    string_equals(payload->key_type_string, payload->key_type_string_length, "HMAC-256"))) {
         ERROR("Invalid key_usage for HMAC key");
         return 0;
     }
@@ -673,97 +679,97 @@ static bool get_key_type_and_size(
         return false;
     }
 
-    if (memory_memcmp_constant(key_type_string, "AES-128", key_type_string_length) == 0) {
+    if (string_equals(key_type_string, key_type_string_length, "AES-128")) {
         *key_type = SA_KEY_TYPE_SYMMETRIC;
         *key_size = SYM_128_KEY_SIZE;
         *subtype = AES_SUBTYPE;
         *curve = UINT32_MAX;
-    } else if (memory_memcmp_constant(key_type_string, "HMAC-128", key_type_string_length) == 0) {
+    } else if (string_equals(key_type_string, key_type_string_length, "HMAC-128")) {
         *key_type = SA_KEY_TYPE_SYMMETRIC;
         *key_size = SYM_128_KEY_SIZE;
         *subtype = HMAC_SUBTYPE;
         *curve = UINT32_MAX;
-    } else if (memory_memcmp_constant(key_type_string, "AES-256", key_type_string_length) == 0) {
+    } else if (string_equals(key_type_string, key_type_string_length, "AES-256")) {
         *key_type = SA_KEY_TYPE_SYMMETRIC;
         *key_size = SYM_256_KEY_SIZE;
         *subtype = AES_SUBTYPE;
         *curve = UINT32_MAX;
-    } else if (memory_memcmp_constant(key_type_string, "CHACHA20-256", key_type_string_length) == 0) {
+    } else if (string_equals(key_type_string, key_type_string_length, "CHACHA20-256")) {
         *key_type = SA_KEY_TYPE_SYMMETRIC;
         *key_size = SYM_256_KEY_SIZE;
         *subtype = CHACHA20_SUBTYPE;
         *curve = UINT32_MAX;
-    } else if (memory_memcmp_constant(key_type_string, "HMAC-256", key_type_string_length) == 0) {
+    } else if (string_equals(key_type_string, key_type_string_length, "HMAC-256")) {
         *key_type = SA_KEY_TYPE_SYMMETRIC;
         *key_size = SYM_256_KEY_SIZE;
         *subtype = HMAC_SUBTYPE;
         *curve = UINT32_MAX;
-    } else if (memory_memcmp_constant(key_type_string, "HMAC-160", key_type_string_length) == 0) {
+    } else if (string_equals(key_type_string, key_type_string_length, "HMAC-160")) {
         *key_type = SA_KEY_TYPE_SYMMETRIC;
         *key_size = SYM_160_KEY_SIZE;
         *subtype = HMAC_SUBTYPE;
         *curve = UINT32_MAX;
-    } else if (memory_memcmp_constant(key_type_string, "RSA-1024", key_type_string_length) == 0) {
+    } else if (string_equals(key_type_string, key_type_string_length, "RSA-1024")) {
         *key_type = SA_KEY_TYPE_RSA;
         *key_size = RSA_1024_BYTE_LENGTH;
         *subtype = PRIVATE_SUBTYPE;
         *curve = UINT32_MAX;
-    } else if (memory_memcmp_constant(key_type_string, "RSA-2048", key_type_string_length) == 0) {
+    } else if (string_equals(key_type_string, key_type_string_length, "RSA-2048")) {
         *key_type = SA_KEY_TYPE_RSA;
         *key_size = RSA_2048_BYTE_LENGTH;
         *subtype = PRIVATE_SUBTYPE;
         *curve = UINT32_MAX;
-    } else if (memory_memcmp_constant(key_type_string, "RSA-3072", key_type_string_length) == 0) {
+    } else if (string_equals(key_type_string, key_type_string_length, "RSA-3072")) {
         *key_type = SA_KEY_TYPE_RSA;
         *key_size = RSA_3072_BYTE_LENGTH;
         *subtype = PRIVATE_SUBTYPE;
         *curve = UINT32_MAX;
-    } else if (memory_memcmp_constant(key_type_string, "RSA-4096", key_type_string_length) == 0) {
+    } else if (string_equals(key_type_string, key_type_string_length, "RSA-4096")) {
         *key_type = SA_KEY_TYPE_RSA;
         *key_size = RSA_4096_BYTE_LENGTH;
         *subtype = PRIVATE_SUBTYPE;
         *curve = UINT32_MAX;
-    } else if (memory_memcmp_constant(key_type_string, "ECC-P192", key_type_string_length) == 0) {
+    } else if (string_equals(key_type_string, key_type_string_length, "ECC-P192")) {
         *key_type = SA_KEY_TYPE_EC;
         *key_size = EC_P192_KEY_SIZE;
         *subtype = PRIVATE_SUBTYPE;
         *curve = SA_ELLIPTIC_CURVE_NIST_P192;
-    } else if (memory_memcmp_constant(key_type_string, "ECC-P224", key_type_string_length) == 0) {
+    } else if (string_equals(key_type_string, key_type_string_length, "ECC-P224")) {
         *key_type = SA_KEY_TYPE_EC;
         *key_size = EC_P224_KEY_SIZE;
         *subtype = PRIVATE_SUBTYPE;
         *curve = SA_ELLIPTIC_CURVE_NIST_P224;
-    } else if (memory_memcmp_constant(key_type_string, "ECC-P256", key_type_string_length) == 0) {
+    } else if (string_equals(key_type_string, key_type_string_length, "ECC-P256")) {
         *key_type = SA_KEY_TYPE_EC;
         *key_size = EC_P256_KEY_SIZE;
         *subtype = PRIVATE_SUBTYPE;
         *curve = SA_ELLIPTIC_CURVE_NIST_P256;
-    } else if (memory_memcmp_constant(key_type_string, "ECC-P384", key_type_string_length) == 0) {
+    } else if (string_equals(key_type_string, key_type_string_length, "ECC-P384")) {
         *key_type = SA_KEY_TYPE_EC;
         *key_size = EC_P384_KEY_SIZE;
         *subtype = PRIVATE_SUBTYPE;
         *curve = SA_ELLIPTIC_CURVE_NIST_P384;
-    } else if (memory_memcmp_constant(key_type_string, "ECC-P521", key_type_string_length) == 0) {
+    } else if (string_equals(key_type_string, key_type_string_length, "ECC-P521")) {
         *key_type = SA_KEY_TYPE_EC;
         *key_size = EC_P521_KEY_SIZE;
         *subtype = PRIVATE_SUBTYPE;
         *curve = SA_ELLIPTIC_CURVE_NIST_P521;
-    } else if (memory_memcmp_constant(key_type_string, "ECC-ED25519", key_type_string_length) == 0) {
+    } else if (string_equals(key_type_string, key_type_string_length, "ECC-ED25519")) {
         *key_type = SA_KEY_TYPE_EC;
         *key_size = EC_25519_KEY_SIZE;
         *subtype = PRIVATE_SUBTYPE;
         *curve = SA_ELLIPTIC_CURVE_ED25519;
-    } else if (memory_memcmp_constant(key_type_string, "ECC-ED448", key_type_string_length) == 0) {
+    } else if (string_equals(key_type_string, key_type_string_length, "ECC-ED448")) {
         *key_type = SA_KEY_TYPE_EC;
         *key_size = EC_ED448_KEY_SIZE;
         *subtype = PRIVATE_SUBTYPE;
         *curve = SA_ELLIPTIC_CURVE_ED448;
-    } else if (memory_memcmp_constant(key_type_string, "ECC-X25519", key_type_string_length) == 0) {
+    } else if (string_equals(key_type_string, key_type_string_length, "ECC-X25519")) {
         *key_type = SA_KEY_TYPE_EC;
         *key_size = EC_25519_KEY_SIZE;
         *subtype = PRIVATE_SUBTYPE;
         *curve = SA_ELLIPTIC_CURVE_X25519;
-    } else if (memory_memcmp_constant(key_type_string, "ECC-X448", key_type_string_length) == 0) {
+    } else if (string_equals(key_type_string, key_type_string_length, "ECC-X448")) {
         *key_type = SA_KEY_TYPE_EC;
         *key_size = EC_X448_KEY_SIZE;
         *subtype = PRIVATE_SUBTYPE;
@@ -802,13 +808,6 @@ static sa_status decrypt_key_and_verify_mac(
         return SA_STATUS_NULL_PARAMETER;
     }
 
-    uint8_t aad[MAX_AAD_SIZE];
-    size_t aad_length = build_aad(aad, header, payload);
-    if (aad_length == 0) {
-        ERROR("build_aad failed");
-        return SA_STATUS_INVALID_KEY_FORMAT;
-    }
-
     sa_key_type key_type;
     size_t key_size;
     key_subtype subtype;
@@ -819,6 +818,14 @@ static sa_status decrypt_key_and_verify_mac(
         return SA_STATUS_INVALID_KEY_FORMAT;
     }
 
+    // The key type has been recognized, so that its length is bounded.
+    uint8_t aad[MAX_AAD_SIZE];
+    size_t aad_length = build_aad(aad, header, payload);
+    if (aad_length == 0) {
+        ERROR("build_aad failed");
+        return SA_STATUS_INVALID_KEY_FORMAT;
+    }
+
     void* key = NULL;
     sa_status status;
     do {
-- 
2.43.0


From 2f6596b3f5da36452b3e75bea32fcb5a13b60c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:38 +0000
Subject: [PATCH 34/89] fix: refuse numbers of a SOC container that are out of
 range instead of truncating them

---
 .../taimpl/src/internal/soc_key_container.c   | 24 ++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/reference/src/taimpl/src/internal/soc_key_container.c b/reference/src/taimpl/src/internal/soc_key_container.c
index 901fb6c..a377987 100644
--- a/reference/src/taimpl/src/internal/soc_key_container.c
+++ b/reference/src/taimpl/src/internal/soc_key_container.c
@@ -367,7 +367,13 @@ static sa_status parse_payload(
         return SA_STATUS_INVALID_KEY_FORMAT;
     }
 
-    payload->container_version = json_value_as_integer(container_version_field->value);
+    int64_t container_version = json_value_as_integer(container_version_field->value);
+    if (container_version < SOC_CONTAINER_VERSION || container_version > UINT8_MAX) {
+        ERROR("Invalid containerVersion");
+        return SA_STATUS_INVALID_KEY_FORMAT;
+    }
+
+    payload->container_version = container_version;
 
     // read the root key type
     if (payload->container_version >= 5) {
@@ -450,7 +456,13 @@ static sa_status parse_payload(
         return SA_STATUS_INVALID_KEY_FORMAT;
     }
 
-    payload->key_usage = json_value_as_integer(key_usage_field->value);
+    int64_t key_usage = json_value_as_integer(key_usage_field->value);
+    if (key_usage <= 0 || key_usage > SOC_DATA_AND_KEY) {
+        ERROR("Invalid keyUsage");
+        return SA_STATUS_INVALID_KEY_FORMAT;
+    }
+
+    payload->key_usage = key_usage;
 
     if (payload->key_usage == KEY_ONLY) {
         // read decrypted key usage
@@ -460,7 +472,13 @@ static sa_status parse_payload(
             // For sake of compatibility,sometimes there is no field of decrypted_key_usage.
             payload->decrypted_key_usage = 0;
         } else {
-            payload->decrypted_key_usage = json_value_as_integer(decrypted_key_usage_field->value);
+            int64_t decrypted_key_usage = json_value_as_integer(decrypted_key_usage_field->value);
+            if (decrypted_key_usage <= 0 || decrypted_key_usage > SOC_DATA_AND_KEY) {
+                ERROR("Invalid decryptedKeyUsage");
+                return SA_STATUS_INVALID_KEY_FORMAT;
+            }
+
+            payload->decrypted_key_usage = decrypted_key_usage;
         }
     } else {
         payload->decrypted_key_usage = 0;
-- 
2.43.0


From 5b5c1085cd4d807dfff7844b52142b3097eeb4b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:38 +0000
Subject: [PATCH 35/89] fix: require the whole authentication tag of a SOC
 container

---
 reference/src/taimpl/src/internal/soc_key_container.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/reference/src/taimpl/src/internal/soc_key_container.c b/reference/src/taimpl/src/internal/soc_key_container.c
index a377987..c4c9897 100644
--- a/reference/src/taimpl/src/internal/soc_key_container.c
+++ b/reference/src/taimpl/src/internal/soc_key_container.c
@@ -844,6 +844,12 @@ static sa_status decrypt_key_and_verify_mac(
         return SA_STATUS_INVALID_KEY_FORMAT;
     }
 
+    // A shorter tag would be accepted with the probability that its length gives.
+    if (unpacked->mac_length != AES_BLOCK_SIZE) {
+        ERROR("Invalid tag length");
+        return SA_STATUS_INVALID_KEY_FORMAT;
+    }
+
     void* key = NULL;
     sa_status status;
     do {
-- 
2.43.0


From 6c619433d482a918b3d6847e6c01ef47738f96b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:38 +0000
Subject: [PATCH 36/89] fix: report an invalid EC key in a SOC container

---
 reference/src/taimpl/src/internal/soc_key_container.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/reference/src/taimpl/src/internal/soc_key_container.c b/reference/src/taimpl/src/internal/soc_key_container.c
index c4c9897..d6b56d0 100644
--- a/reference/src/taimpl/src/internal/soc_key_container.c
+++ b/reference/src/taimpl/src/internal/soc_key_container.c
@@ -111,6 +111,10 @@ static soc_kc_unpacked_t* unpack_soc_kc(
     soc_kc_unpacked_t* unpacked = NULL;
     do {
         unpacked = soc_kc_unpacked_create();
+        if (unpacked == NULL) {
+            ERROR("soc_kc_unpacked_create failed");
+            break;
+        }
 
         unpacked->in = in;
         unpacked->in_length = in_length;
@@ -895,6 +899,7 @@ static sa_status decrypt_key_and_verify_mac(
             size_t ec_key_size = ec_validate_private(curve, key, payload->encrypted_key_length);
             if (ec_key_size == 0) {
                 ERROR("Invalid key size");
+                status = SA_STATUS_INVALID_KEY_FORMAT;
                 break;
             }
 
-- 
2.43.0


From d771521aca21a9f12ed27680dfaf9763efb7fb24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:47 +0000
Subject: [PATCH 37/89] fix: check the size of SOC import parameters before
 copying them

---
 reference/src/taimpl/src/internal/ta.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/reference/src/taimpl/src/internal/ta.c b/reference/src/taimpl/src/internal/ta.c
index 1a47888..4e41cc7 100644
--- a/reference/src/taimpl/src/internal/ta.c
+++ b/reference/src/taimpl/src/internal/ta.c
@@ -358,6 +358,11 @@ static sa_status ta_invoke_key_import(
                     return SA_STATUS_NULL_PARAMETER;
                 }
 
+                if (params[2].mem_ref_size != sizeof(sa_import_parameters_soc)) {
+                    ERROR("params[2].mem_ref_size is invalid");
+                    return SA_STATUS_INVALID_PARAMETER;
+                }
+
                 memcpy(&parameters_soc, params[2].mem_ref, params[2].mem_ref_size);
                 parameters = &parameters_soc;
             }
@@ -405,6 +410,11 @@ static sa_status ta_invoke_key_provision(
             return SA_STATUS_NULL_PARAMETER;
         }
 
+         if (params[2].mem_ref_size != sizeof(sa_import_parameters_soc)) {
+             ERROR("params[2].mem_ref_size is invalid");
+             return SA_STATUS_INVALID_PARAMETER;
+         }
+
          memcpy(&parameters_soc, params[2].mem_ref, params[2].mem_ref_size);
          parameters = &parameters_soc;
      }
-- 
2.43.0


From a1957b031ef7b76b0c64221ff81114ae1a01d9b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:56 +0000
Subject: [PATCH 38/89] fix: refuse base64 with padding in other places than
 its end

---
 reference/src/taimpl/src/internal/json.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/reference/src/taimpl/src/internal/json.c b/reference/src/taimpl/src/internal/json.c
index 2241aab..3d98214 100644
--- a/reference/src/taimpl/src/internal/json.c
+++ b/reference/src/taimpl/src/internal/json.c
@@ -1233,6 +1233,12 @@ bool b64_decode(
         while (padding < 2 && padding < data_length && data[data_length - padding - 1] == '=')
             padding++;
 
+        // The decoder takes the padding character for a zero wherever it is.
+        if (memchr(data, '=', data_length - padding) != NULL) {
+            ERROR("Invalid padding");
+            break;
+        }
+
         // A shorter result means that the decoder stopped at a character that is not in the alphabet.
         int written = BIO_read(bio, out, (int) *out_length);
         if (written < 0 || (size_t) written != *out_length - padding) {
-- 
2.43.0


From fd77618d8afed474a4ba65beb401694bcf991bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:18 +0000
Subject: [PATCH 39/89] fix: check the sizes of the key derivation parameters
 of a command before copying them

---
 reference/src/taimpl/src/internal/ta.c | 30 ++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/reference/src/taimpl/src/internal/ta.c b/reference/src/taimpl/src/internal/ta.c
index 4e41cc7..6f1df4d 100644
--- a/reference/src/taimpl/src/internal/ta.c
+++ b/reference/src/taimpl/src/internal/ta.c
@@ -776,6 +776,11 @@ static sa_status ta_invoke_key_derive(
                 return SA_STATUS_NULL_PARAMETER;
             }
 
+            if (params[1].mem_ref_size != sizeof(sa_kdf_parameters_root_key_ladder_s)) {
+                ERROR("params[1].mem_ref_size is invalid");
+                return SA_STATUS_INVALID_PARAMETER;
+            }
+
             memcpy(&parameters_root_key_ladder_s, params[1].mem_ref, params[1].mem_ref_size);
             parameters_root_key_ladder.c1 = parameters_root_key_ladder_s.c1;
             parameters_root_key_ladder.c1_length = AES_BLOCK_SIZE;
@@ -794,6 +799,11 @@ static sa_status ta_invoke_key_derive(
                 return SA_STATUS_NULL_PARAMETER;
             }
 
+            if (params[1].mem_ref_size != sizeof(sa_kdf_parameters_hkdf_s)) {
+                ERROR("params[1].mem_ref_size is invalid");
+                return SA_STATUS_INVALID_PARAMETER;
+            }
+
             // params[2].mem_ref and params[3].mem_ref can be null.
             memcpy(&parameters_hkdf_s, params[1].mem_ref, params[1].mem_ref_size);
             parameters_hkdf.key_length = parameters_hkdf_s.key_length;
@@ -812,6 +822,11 @@ static sa_status ta_invoke_key_derive(
                 return SA_STATUS_NULL_PARAMETER;
             }
 
+            if (params[1].mem_ref_size != sizeof(sa_kdf_parameters_concat_s)) {
+                ERROR("params[1].mem_ref_size is invalid");
+                return SA_STATUS_INVALID_PARAMETER;
+            }
+
             // params[2].mem_ref can be null.
             memcpy(&parameters_concat_s, params[1].mem_ref, params[1].mem_ref_size);
             parameters_concat.key_length = parameters_concat_s.key_length;
@@ -828,6 +843,11 @@ static sa_status ta_invoke_key_derive(
                 return SA_STATUS_NULL_PARAMETER;
             }
 
+            if (params[1].mem_ref_size != sizeof(sa_kdf_parameters_ansi_x963_s)) {
+                ERROR("params[1].mem_ref_size is invalid");
+                return SA_STATUS_INVALID_PARAMETER;
+            }
+
             // params[2].mem_ref can be null.
             memcpy(&parameters_ansi_x963_s, params[1].mem_ref, params[1].mem_ref_size);
             parameters_ansi_x963.key_length = parameters_ansi_x963_s.key_length;
@@ -844,6 +864,11 @@ static sa_status ta_invoke_key_derive(
                 return SA_STATUS_NULL_PARAMETER;
             }
 
+            if (params[1].mem_ref_size != sizeof(sa_kdf_parameters_cmac_s)) {
+                ERROR("params[1].mem_ref_size is invalid");
+                return SA_STATUS_INVALID_PARAMETER;
+            }
+
             // params[2].mem_ref can be null.
             memcpy(&parameters_cmac_s, params[1].mem_ref, params[1].mem_ref_size);
             parameters_cmac.key_length = parameters_cmac_s.key_length;
@@ -860,6 +885,11 @@ static sa_status ta_invoke_key_derive(
                 return SA_STATUS_NULL_PARAMETER;
             }
 
+            if (params[1].mem_ref_size != sizeof(sa_kdf_parameters_netflix_s)) {
+                ERROR("params[1].mem_ref_size is invalid");
+                return SA_STATUS_INVALID_PARAMETER;
+            }
+
             memcpy(&parameters_netflix, params[1].mem_ref, params[1].mem_ref_size);
             algorithm_parameters = &parameters_netflix;
             break;
-- 
2.43.0


From 0b196948c325044422b9a2f627f44c9619c5a879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:18 +0000
Subject: [PATCH 40/89] fix: do not read the command parameter of a command
 before checking that it is memory

---
 reference/src/taimpl/src/internal/ta.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/reference/src/taimpl/src/internal/ta.c b/reference/src/taimpl/src/internal/ta.c
index 6f1df4d..fb72182 100644
--- a/reference/src/taimpl/src/internal/ta.c
+++ b/reference/src/taimpl/src/internal/ta.c
@@ -1972,6 +1972,12 @@ sa_status ta_invoke_command_handler(
             break;
         }
 
+        if (CHECK_NOT_TA_PARAM_IN(param_types[0]) && CHECK_NOT_TA_PARAM_INOUT(param_types[0])) {
+            ERROR("Command parameter is not readable memory");
+            status = SA_STATUS_INVALID_PARAMETER;
+            break;
+        }
+
         // Cache the command parameter to prevent Time-of-use Time-of-check errors.
         command_parameter = memory_secure_alloc(params[0].mem_ref_size);
         if (command_parameter == NULL) {
-- 
2.43.0


From 47ad87ab889c57df1e0affcb8d959c042e410949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:18 +0000
Subject: [PATCH 41/89] fix: check the kind and size of the buffer parameters
 of a command

---
 reference/src/taimpl/src/internal/ta.c | 39 ++++++++++++++++++++++++--
 1 file changed, 37 insertions(+), 2 deletions(-)

diff --git a/reference/src/taimpl/src/internal/ta.c b/reference/src/taimpl/src/internal/ta.c
index fb72182..ac0eb58 100644
--- a/reference/src/taimpl/src/internal/ta.c
+++ b/reference/src/taimpl/src/internal/ta.c
@@ -44,6 +44,24 @@ typedef struct {
     ta_client client;
 } ta_session_context;
 
+static bool is_buffer_param(
+        uint32_t buffer_type,
+        uint32_t param_type,
+        const ta_param* param,
+        bool out) {
+
+    if (param->mem_ref == NULL) {
+        ERROR("NULL mem_ref");
+        return false;
+    }
+
+    if (buffer_type == SA_BUFFER_TYPE_CLEAR)
+        return out ? !CHECK_NOT_TA_PARAM_OUT(param_type) : CHECK_TA_PARAM_IN(param_type);
+
+    // A protected buffer is passed as its handle.
+    return CHECK_TA_PARAM_IN(param_type) && param->mem_ref_size == sizeof(sa_svp_buffer);
+}
+
 static sa_status ta_invoke_get_version(
         sa_get_version_s* get_version,
         const uint32_t param_types[NUM_TA_PARAMS],
@@ -1263,7 +1281,8 @@ static sa_status ta_invoke_crypto_cipher_process(
 
     if (CHECK_NOT_TA_PARAM_INOUT(param_types[0]) ||
             params[0].mem_ref_size != sizeof(sa_crypto_cipher_process_s) ||
-            (CHECK_TA_PARAM_INOUT(param_types[1]) && CHECK_NOT_TA_PARAM_NULL(param_types[1], params[1])) ||
+            (CHECK_NOT_TA_PARAM_NULL(param_types[1], params[1]) &&
+                    !is_buffer_param(crypto_cipher_process->out_buffer_type, param_types[1], &params[1], true)) ||
             CHECK_NOT_TA_PARAM_IN(param_types[2]) ||
             (CHECK_NOT_TA_PARAM_INOUT(param_types[3]) &&
                     CHECK_NOT_TA_PARAM_NULL(param_types[3], params[3]))) {
@@ -1277,6 +1296,11 @@ static sa_status ta_invoke_crypto_cipher_process(
         return SA_STATUS_NULL_PARAMETER;
     }
 
+    if (!is_buffer_param(crypto_cipher_process->in_buffer_type, param_types[2], &params[2], false)) {
+        ERROR("Invalid params[2]");
+        return SA_STATUS_INVALID_PARAMETER;
+    }
+
     if (crypto_cipher_process->api_version != API_VERSION) {
         ERROR("Invalid api_version");
         return SA_STATUS_INVALID_PARAMETER;
@@ -1288,7 +1312,7 @@ static sa_status ta_invoke_crypto_cipher_process(
         out.context.clear.buffer = params[1].mem_ref;
         out.context.clear.length = params[1].mem_ref_size;
         out.context.clear.offset = crypto_cipher_process->out_offset;
-    } else {
+    } else if (params[1].mem_ref != NULL) {
         out.context.svp.buffer = *(sa_svp_buffer*) params[1].mem_ref;
         out.context.svp.offset = crypto_cipher_process->out_offset;
     }
@@ -1781,6 +1805,11 @@ static sa_status ta_invoke_svp_key_check(
         return SA_STATUS_INVALID_PARAMETER;
     }
 
+    if (!is_buffer_param(svp_key_check->in_buffer_type, param_types[1], &params[1], false)) {
+        ERROR("Invalid params[1]");
+        return SA_STATUS_INVALID_PARAMETER;
+    }
+
     sa_buffer in;
     in.buffer_type = svp_key_check->in_buffer_type;
     if (svp_key_check->in_buffer_type == SA_BUFFER_TYPE_CLEAR) {
@@ -1867,6 +1896,12 @@ static sa_status ta_invoke_process_common_encryption(
         return SA_STATUS_INVALID_PARAMETER;
     }
 
+    if (!is_buffer_param(process_common_encryption->out_buffer_type, param_types[2], &params[2], true) ||
+            !is_buffer_param(process_common_encryption->in_buffer_type, param_types[3], &params[3], false)) {
+        ERROR("Invalid param[2] or param[3]");
+        return SA_STATUS_INVALID_PARAMETER;
+    }
+
     sa_status status;
     sa_sample sample;
     do {
-- 
2.43.0


From fab63acb2e5ce8b86e193c054369663c084807dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:18 +0000
Subject: [PATCH 42/89] fix: do not let the number of subsamples of a command
 overflow

---
 reference/src/taimpl/src/internal/ta.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/reference/src/taimpl/src/internal/ta.c b/reference/src/taimpl/src/internal/ta.c
index ac0eb58..2af326a 100644
--- a/reference/src/taimpl/src/internal/ta.c
+++ b/reference/src/taimpl/src/internal/ta.c
@@ -1906,7 +1906,8 @@ static sa_status ta_invoke_process_common_encryption(
     sa_sample sample;
     do {
         sample.subsample_count = process_common_encryption->subsample_count;
-        if (params[1].mem_ref_size != sizeof(sa_subsample_length) * sample.subsample_count) {
+        if (params[1].mem_ref_size % sizeof(sa_subsample_length_s) != 0 ||
+                params[1].mem_ref_size / sizeof(sa_subsample_length_s) != sample.subsample_count) {
             ERROR("params[1].mem_ref_size is invalid");
             return SA_STATUS_INVALID_PARAMETER;
         }
-- 
2.43.0


From f216cd1a13e27accb029a9815e9be7795d7221f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:18 +0000
Subject: [PATCH 43/89] fix: refuse a key header command without memory for the
 header

---
 reference/src/taimpl/src/internal/ta.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/reference/src/taimpl/src/internal/ta.c b/reference/src/taimpl/src/internal/ta.c
index 2af326a..bd7839b 100644
--- a/reference/src/taimpl/src/internal/ta.c
+++ b/reference/src/taimpl/src/internal/ta.c
@@ -1009,7 +1009,8 @@ static sa_status ta_invoke_key_header(
         const sa_uuid* uuid) {
 
     if (CHECK_NOT_TA_PARAM_INOUT(param_types[0]) || params[0].mem_ref_size != sizeof(sa_key_header_s) ||
-            CHECK_NOT_TA_PARAM_OUT(param_types[1]) || params[1].mem_ref_size != sizeof(sa_header_s) ||
+            CHECK_NOT_TA_PARAM_OUT(param_types[1]) || params[1].mem_ref == NULL ||
+            params[1].mem_ref_size != sizeof(sa_header_s) ||
             CHECK_NOT_TA_PARAM_NULL(param_types[2], params[2]) ||
             CHECK_NOT_TA_PARAM_NULL(param_types[3], params[3])) {
         ERROR("Invalid param[0] or param type");
-- 
2.43.0


From ae3f7c055dc642a218b33fd6ee0fcd0aa24af62f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:18 +0000
Subject: [PATCH 44/89] fix: refuse protected buffer offsets of a size that is
 no whole number of them

---
 reference/src/taimpl/src/internal/ta.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/reference/src/taimpl/src/internal/ta.c b/reference/src/taimpl/src/internal/ta.c
index bd7839b..436b811 100644
--- a/reference/src/taimpl/src/internal/ta.c
+++ b/reference/src/taimpl/src/internal/ta.c
@@ -1693,6 +1693,11 @@ static sa_status ta_invoke_svp_buffer_write(
         return SA_STATUS_NULL_PARAMETER;
     }
 
+    if (params[2].mem_ref_size % sizeof(sa_svp_offset_s) != 0) {
+        ERROR("Invalid params[2].mem_ref_size");
+        return SA_STATUS_INVALID_PARAMETER;
+    }
+
     if (svp_buffer_write->api_version != API_VERSION) {
         ERROR("Invalid api_version");
         return SA_STATUS_INVALID_PARAMETER;
@@ -1747,6 +1752,11 @@ static sa_status ta_invoke_svp_buffer_copy(
         return SA_STATUS_NULL_PARAMETER;
     }
 
+    if (params[1].mem_ref_size % sizeof(sa_svp_offset_s) != 0) {
+        ERROR("Invalid params[1].mem_ref_size");
+        return SA_STATUS_INVALID_PARAMETER;
+    }
+
     if (svp_buffer_copy->api_version != API_VERSION) {
         ERROR("Invalid api_version");
         return SA_STATUS_INVALID_PARAMETER;
-- 
2.43.0


From 846081e16645e5749edff15d3b3c32fabbfa6306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:18 +0000
Subject: [PATCH 45/89] fix: check the type parameter of a provisioning command
 and refuse unknown types

---
 reference/src/taimpl/src/internal/ta.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/reference/src/taimpl/src/internal/ta.c b/reference/src/taimpl/src/internal/ta.c
index 436b811..5c233a6 100644
--- a/reference/src/taimpl/src/internal/ta.c
+++ b/reference/src/taimpl/src/internal/ta.c
@@ -405,7 +405,7 @@ static sa_status ta_invoke_key_provision(
     if (CHECK_NOT_TA_PARAM_INOUT(param_types[0]) || params[0].mem_ref_size != sizeof(sa_key_provision_ta_s) ||
         CHECK_NOT_TA_PARAM_IN(param_types[1]) ||
         (CHECK_NOT_TA_PARAM_IN(param_types[2]) && CHECK_NOT_TA_PARAM_NULL(param_types[2], params[2])) ||
-        (CHECK_NOT_TA_PARAM_IN(param_types[3]) && CHECK_NOT_TA_PARAM_NULL(param_types[3], params[3]))) {
+        CHECK_NOT_TA_PARAM_IN(param_types[3])) {
         ERROR("Invalid param[0] or param type");
         return SA_STATUS_INVALID_PARAMETER;
     }
@@ -415,6 +415,16 @@ static sa_status ta_invoke_key_provision(
         return SA_STATUS_NULL_PARAMETER;
     }
 
+    if (params[3].mem_ref == NULL) {
+        ERROR("NULL params[3].mem_ref");
+        return SA_STATUS_NULL_PARAMETER;
+    }
+
+    if (params[3].mem_ref_size != sizeof(sa_key_type_ta)) {
+        ERROR("params[3].mem_ref_size is invalid");
+        return SA_STATUS_INVALID_PARAMETER;
+    }
+
     if (key_provision_ta->api_version != API_VERSION) {
         ERROR("Invalid api_version");
         return SA_STATUS_INVALID_PARAMETER;
@@ -501,7 +511,7 @@ static sa_status ta_invoke_key_provision(
               break;
 	  default:
 	      ERROR("unknown key provisioning type");
-              break;
+	      return SA_STATUS_INVALID_PARAMETER;
      }
      INFO("ta_key_type: %d", ta_key_type);
      INFO("in_length: %d", in_length);
-- 
2.43.0


From 2736ff0e68915650759ed8a48e32485a604f4fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:50 +0000
Subject: [PATCH 46/89] fix: refuse a cipher init command with a fourth
 parameter, which it does not have

---
 reference/src/taimpl/src/internal/ta.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reference/src/taimpl/src/internal/ta.c b/reference/src/taimpl/src/internal/ta.c
index 5c233a6..eec7332 100644
--- a/reference/src/taimpl/src/internal/ta.c
+++ b/reference/src/taimpl/src/internal/ta.c
@@ -1130,7 +1130,7 @@ static sa_status ta_invoke_crypto_cipher_init(
             params[0].mem_ref_size != sizeof(sa_crypto_cipher_init_s) ||
             (CHECK_NOT_TA_PARAM_IN(param_types[1]) && CHECK_NOT_TA_PARAM_NULL(param_types[1], params[1])) ||
             (CHECK_NOT_TA_PARAM_IN(param_types[2]) && CHECK_NOT_TA_PARAM_NULL(param_types[2], params[2])) ||
-            (CHECK_NOT_TA_PARAM_IN(param_types[3]) && CHECK_NOT_TA_PARAM_NULL(param_types[3], params[3]))) {
+            CHECK_NOT_TA_PARAM_NULL(param_types[3], params[3])) {
         ERROR("Invalid param[0] or param type");
         return SA_STATUS_INVALID_PARAMETER;
     }
-- 
2.43.0


From f93ee473d2d2bb68375e318aa68e7cdba1079c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:50 +0000
Subject: [PATCH 47/89] fix: use the copy of the ElGamal parameters of an
 unwrap command that was checked

---
 reference/src/taimpl/src/internal/ta.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reference/src/taimpl/src/internal/ta.c b/reference/src/taimpl/src/internal/ta.c
index eec7332..ab739fe 100644
--- a/reference/src/taimpl/src/internal/ta.c
+++ b/reference/src/taimpl/src/internal/ta.c
@@ -698,7 +698,7 @@ static sa_status ta_invoke_key_unwrap(
             }
 
             memcpy(&parameters_ec_elgamal, params[2].mem_ref, params[2].mem_ref_size);
-            algorithm_parameters = params[2].mem_ref;
+            algorithm_parameters = &parameters_ec_elgamal;
             break;
 
         case SA_CIPHER_ALGORITHM_RSA_OAEP:
-- 
2.43.0


From 5a81f8776b85333aec17982ca18c6bb31a1fe5ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:50 +0000
Subject: [PATCH 48/89] fix: refuse to generate an EC key for a curve number
 that does not fit, instead of truncating it

---
 reference/src/taimpl/src/internal/ta.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/reference/src/taimpl/src/internal/ta.c b/reference/src/taimpl/src/internal/ta.c
index ab739fe..ade017c 100644
--- a/reference/src/taimpl/src/internal/ta.c
+++ b/reference/src/taimpl/src/internal/ta.c
@@ -201,6 +201,11 @@ static sa_status ta_invoke_key_generate(
             break;
 
         case SA_KEY_TYPE_EC:
+            if (key_generate->key_length > UINT32_MAX) {
+                ERROR("Invalid curve");
+                return SA_STATUS_INVALID_PARAMETER;
+            }
+
             parameters_ec.curve = key_generate->key_length;
             parameters = &parameters_ec;
             break;
-- 
2.43.0


From 938ea7e6bb0e6ef2668e9f4a8a1877bec63d83e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:07 +0000
Subject: [PATCH 49/89] fix: refuse buffers of an unknown type instead of
 taking their handle for an address

---
 reference/src/taimpl/src/internal/ta.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/reference/src/taimpl/src/internal/ta.c b/reference/src/taimpl/src/internal/ta.c
index ade017c..585dfcb 100644
--- a/reference/src/taimpl/src/internal/ta.c
+++ b/reference/src/taimpl/src/internal/ta.c
@@ -58,6 +58,11 @@ static bool is_buffer_param(
     if (buffer_type == SA_BUFFER_TYPE_CLEAR)
         return out ? !CHECK_NOT_TA_PARAM_OUT(param_type) : CHECK_TA_PARAM_IN(param_type);
 
+    if (buffer_type != SA_BUFFER_TYPE_SVP) {
+        ERROR("Invalid buffer_type");
+        return false;
+    }
+
     // A protected buffer is passed as its handle.
     return CHECK_TA_PARAM_IN(param_type) && param->mem_ref_size == sizeof(sa_svp_buffer);
 }
-- 
2.43.0


From 935801f86c127449879688d5f34d2b2fb234e221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:42 +0000
Subject: [PATCH 50/89] fix: report the length of the name also when it is
 written

---
 reference/src/taimpl/src/ta_sa_get_name.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/reference/src/taimpl/src/ta_sa_get_name.c b/reference/src/taimpl/src/ta_sa_get_name.c
index 1593b6f..4ad513c 100644
--- a/reference/src/taimpl/src/ta_sa_get_name.c
+++ b/reference/src/taimpl/src/ta_sa_get_name.c
@@ -52,6 +52,7 @@ sa_status ta_sa_get_name(
     }
 
     memcpy(name, implementation_name, required_length);
+    *name_length = required_length;
 
     return SA_STATUS_OK;
 }
-- 
2.43.0


From 3dcbc5e30f5623968bc79503e135669fd3ca0ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:16 +0000
Subject: [PATCH 51/89] fix: do not release the key of a provisioning command
 that could not be allocated

---
 reference/src/clientimpl/src/sa_key_provision.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reference/src/clientimpl/src/sa_key_provision.c b/reference/src/clientimpl/src/sa_key_provision.c
index 74f808e..ba3d10d 100644
--- a/reference/src/clientimpl/src/sa_key_provision.c
+++ b/reference/src/clientimpl/src/sa_key_provision.c
@@ -99,7 +99,7 @@ sa_status sa_key_provision_ta (
     } while (false);
 
     // ATTENTION: If you dont release the key, you will get resource leaked.
-    if (INVALID_HANDLE != key_provision_ta->key) {
+    if (NULL != key_provision_ta && INVALID_HANDLE != key_provision_ta->key) {
         sa_key_release(key_provision_ta->key);
     }
     RELEASE_COMMAND(key_provision_ta);
-- 
2.43.0


From 7b42de0b8ae3b6687fd53fdee09069acf6cde1c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:27 +0000
Subject: [PATCH 52/89] fix: make sa_key_header compile with shared memory and
 free its parameter

---
 reference/src/clientimpl/src/sa_key_header.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/reference/src/clientimpl/src/sa_key_header.c b/reference/src/clientimpl/src/sa_key_header.c
index 8b898e7..c1eb865 100644
--- a/reference/src/clientimpl/src/sa_key_header.c
+++ b/reference/src/clientimpl/src/sa_key_header.c
@@ -62,7 +62,7 @@ sa_status sa_key_header(
             break;
         }
 
-        COPY_OUT_PARAM(header_s, param1, sizeof(sa_header_s));
+        COPY_OUT_PARAM(&header_s, param1, sizeof(sa_header_s));
         memset(header, 0, sizeof(sa_header));
         memcpy(header->magic, header_s.magic, NUM_MAGIC);
         memcpy(&header->rights, &header_s.rights, sizeof(sa_rights));
@@ -79,5 +79,6 @@ sa_status sa_key_header(
     } while (false);
 
     RELEASE_COMMAND(key_header);
+    RELEASE_PARAM(param1);
     return status;
 }
-- 
2.43.0


From 45daa348ae29863f3c49dd159032d477528c1c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:19 +0000
Subject: [PATCH 53/89] fix: do not go on to the next sample when the
 parameters of one cannot be allocated

---
 reference/src/clientimpl/src/sa_process_common_encryption.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/reference/src/clientimpl/src/sa_process_common_encryption.c b/reference/src/clientimpl/src/sa_process_common_encryption.c
index 5b6800c..b6defd5 100644
--- a/reference/src/clientimpl/src/sa_process_common_encryption.c
+++ b/reference/src/clientimpl/src/sa_process_common_encryption.c
@@ -50,7 +50,8 @@ sa_status sa_process_common_encryption(
     sa_status status;
     do {
         CREATE_COMMAND(sa_process_common_encryption_s, process_common_encryption);
-        for (size_t i = 0; i < samples_length; i++) {
+        status = SA_STATUS_OK;
+        for (size_t i = 0; i < samples_length && status == SA_STATUS_OK; i++) {
             if (samples[i].iv == NULL) {
                 ERROR("NULL iv");
                 status = SA_STATUS_NULL_PARAMETER;
-- 
2.43.0


From 0d4f0289f45a245bd29d2a465bfefda95ff89462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:53 +0000
Subject: [PATCH 54/89] fix: leave the buffer positions of all samples of a
 refused common encryption call as they were

---
 .../src/ta_sa_process_common_encryption.c       | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/reference/src/taimpl/src/ta_sa_process_common_encryption.c b/reference/src/taimpl/src/ta_sa_process_common_encryption.c
index 5b275b7..c900598 100644
--- a/reference/src/taimpl/src/ta_sa_process_common_encryption.c
+++ b/reference/src/taimpl/src/ta_sa_process_common_encryption.c
@@ -176,6 +176,20 @@ static sa_status verify_sample(
     return status;
 }
 
+// Takes the positions of the buffers of a processed sample back to where they were.
+static void rewind_sample(sa_sample* sample) {
+    size_t length = cenc_get_required_length(sample->subsample_lengths, sample->subsample_count);
+    if (sample->in->buffer_type == SA_BUFFER_TYPE_SVP)
+        sample->in->context.svp.offset -= length;
+    else
+        sample->in->context.clear.offset -= length;
+
+    if (sample->out->buffer_type == SA_BUFFER_TYPE_SVP)
+        sample->out->context.svp.offset -= length;
+    else
+        sample->out->context.clear.offset -= length;
+}
+
 sa_status ta_sa_process_common_encryption(
         size_t samples_length,
         sa_sample* samples,
@@ -216,6 +230,9 @@ sa_status ta_sa_process_common_encryption(
             status = cenc_process_sample(&samples[i], client, cipher_store, caller_uuid);
             if (status != SA_STATUS_OK) {
                 ERROR("cenc_process_sample failed");
+                while (i-- > 0)
+                    rewind_sample(&samples[i]);
+                break;
             }
         }
     } while (false);
-- 
2.43.0


From a5f31fe674f02b3aff7bc0d1b25d0f1e5e95f140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:37 +0000
Subject: [PATCH 55/89] fix: do not read the session and the client store that
 another thread is creating

---
 reference/src/clientimpl/src/internal/client.c   | 8 ++++++--
 reference/src/taimpl/src/internal/client_store.c | 5 +++--
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/reference/src/clientimpl/src/internal/client.c b/reference/src/clientimpl/src/internal/client.c
index 1c6e8c7..df728b0 100644
--- a/reference/src/clientimpl/src/internal/client.c
+++ b/reference/src/clientimpl/src/internal/client.c
@@ -19,11 +19,12 @@
 #include "client.h"
 #include "log.h"
 #include "ta_client.h"
+#include <stdatomic.h>
 #include <stdbool.h>
 #include <stdlib.h>
 #include <threads.h>
 
-static void* session = NULL;
+static _Atomic(void*) session = NULL;
 static once_flag mutex_flag = ONCE_FLAG_INIT;
 static once_flag shutdown_flag = ONCE_FLAG_INIT;
 static mtx_t mutex;
@@ -68,12 +69,15 @@ void* client_session() {
             break;
         }
 
-        sa_status status = ta_open_session(&session);
+        void* new_session = NULL;
+        sa_status status = ta_open_session(&new_session);
         if (status != SA_STATUS_OK) {
             ERROR("ta_sa_init failed: %d", status);
             break;
         }
 
+        session = new_session;
+
         // Call after the open session so that client_shutdown handler runs after the TA handler in the reference
         // implementation.
         call_once(&shutdown_flag, client_create);
diff --git a/reference/src/taimpl/src/internal/client_store.c b/reference/src/taimpl/src/internal/client_store.c
index 39a749e..a54d527 100644
--- a/reference/src/taimpl/src/internal/client_store.c
+++ b/reference/src/taimpl/src/internal/client_store.c
@@ -19,6 +19,7 @@
 #include "client_store.h"
 #include "log.h"
 #include "porting/memory.h"
+#include <stdatomic.h>
 #include <stdlib.h>
 #include <threads.h>
 
@@ -30,7 +31,7 @@
 
 static once_flag flag = ONCE_FLAG_INIT;
 static mtx_t mutex;
-static bool global_shutdown = false;
+static atomic_bool global_shutdown = false;
 
 struct client_s {
     key_store_t* key_store;
@@ -180,7 +181,7 @@ static void client_store_global_create() {
 }
 
 client_store_t* client_store_global() {
-    static client_store_t* global = NULL;
+    static _Atomic(client_store_t*) global = NULL;
 
     if (global != NULL) {
         if (global_shutdown)
-- 
2.43.0


From c15feeeb143a6dd17a589626dc480fd97a4f18a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:37 +0000
Subject: [PATCH 56/89] fix: acquire two protected buffers in the order of
 their handles

---
 .../src/taimpl/include/internal/buffer.h      | 28 ++++++++++++++++
 reference/src/taimpl/src/internal/buffer.c    | 33 +++++++++++++++++++
 reference/src/taimpl/src/internal/cenc.c      | 11 ++-----
 .../taimpl/src/ta_sa_crypto_cipher_process.c  | 11 ++-----
 .../src/ta_sa_crypto_cipher_process_last.c    | 11 ++-----
 .../src/ta_sa_process_common_encryption.c     | 14 +++-----
 .../src/taimpl/src/ta_sa_svp_buffer_copy.c    |  7 ++--
 7 files changed, 79 insertions(+), 36 deletions(-)

diff --git a/reference/src/taimpl/include/internal/buffer.h b/reference/src/taimpl/include/internal/buffer.h
index f1239fd..78be3eb 100644
--- a/reference/src/taimpl/include/internal/buffer.h
+++ b/reference/src/taimpl/include/internal/buffer.h
@@ -52,6 +52,34 @@ sa_status convert_buffer(
         const client_t* client,
         const sa_uuid* caller_uuid);
 
+/**
+ * Converts the output and the input buffer of one operation. Two SVP buffers are acquired in the order of their handles, so that
+ * operations running at the same time cannot wait for each other.
+ *
+ * @param[out] out_bytes the array of output bytes.
+ * @param[out] out_svp the output svp object.
+ * @param[in] out the output buffer to convert.
+ * @param[in] out_length the number of bytes that will be written to the output buffer.
+ * @param[out] in_bytes the array of input bytes.
+ * @param[out] in_svp the input svp object.
+ * @param[in] in the input buffer to convert.
+ * @param[in] in_length the number of bytes that will be read from the input buffer.
+ * @param[in] client the client from which to retrieve the SVP store.
+ * @param[in] caller_uuid the UUID of the caller.
+ * @return the status of the validity check.
+ */
+sa_status convert_buffers(
+        uint8_t** out_bytes,
+        svp_t** out_svp,
+        const sa_buffer* out,
+        size_t out_length,
+        uint8_t** in_bytes,
+        svp_t** in_svp,
+        const sa_buffer* in,
+        size_t in_length,
+        const client_t* client,
+        const sa_uuid* caller_uuid);
+
 #ifdef __cplusplus
 }
 #endif
diff --git a/reference/src/taimpl/src/internal/buffer.c b/reference/src/taimpl/src/internal/buffer.c
index 159f755..0da6911 100644
--- a/reference/src/taimpl/src/internal/buffer.c
+++ b/reference/src/taimpl/src/internal/buffer.c
@@ -119,3 +119,36 @@ sa_status convert_buffer(
 
     return SA_STATUS_OK;
 }
+
+sa_status convert_buffers(
+        uint8_t** out_bytes,
+        svp_t** out_svp,
+        const sa_buffer* out,
+        size_t out_length,
+        uint8_t** in_bytes,
+        svp_t** in_svp,
+        const sa_buffer* in,
+        size_t in_length,
+        const client_t* client,
+        const sa_uuid* caller_uuid) {
+
+    if (out == NULL || in == NULL) {
+        ERROR("NULL buffer");
+        return SA_STATUS_NULL_PARAMETER;
+    }
+
+    bool in_first = out->buffer_type == SA_BUFFER_TYPE_SVP && in->buffer_type == SA_BUFFER_TYPE_SVP &&
+                    in->context.svp.buffer < out->context.svp.buffer;
+
+    sa_status status = SA_STATUS_OK;
+    if (in_first)
+        status = convert_buffer(in_bytes, in_svp, in, in_length, client, caller_uuid);
+
+    if (status == SA_STATUS_OK)
+        status = convert_buffer(out_bytes, out_svp, out, out_length, client, caller_uuid);
+
+    if (status == SA_STATUS_OK && !in_first)
+        status = convert_buffer(in_bytes, in_svp, in, in_length, client, caller_uuid);
+
+    return status;
+}
diff --git a/reference/src/taimpl/src/internal/cenc.c b/reference/src/taimpl/src/internal/cenc.c
index 051b551..d8427f1 100644
--- a/reference/src/taimpl/src/internal/cenc.c
+++ b/reference/src/taimpl/src/internal/cenc.c
@@ -145,16 +145,11 @@ sa_status cenc_process_sample(
         }
 
         uint8_t* out_bytes = NULL;
-        status = convert_buffer(&out_bytes, &out_svp, sample->out, required_length, client, caller_uuid);
-        if (status != SA_STATUS_OK) {
-            ERROR("convert_buffer failed");
-            break;
-        }
-
         uint8_t* in_bytes = NULL;
-        status = convert_buffer(&in_bytes, &in_svp, sample->in, required_length, client, caller_uuid);
+        status = convert_buffers(&out_bytes, &out_svp, sample->out, required_length, &in_bytes, &in_svp,
+                sample->in, required_length, client, caller_uuid);
         if (status != SA_STATUS_OK) {
-            ERROR("convert_buffer failed");
+            ERROR("convert_buffers failed");
             break;
         }
 
diff --git a/reference/src/taimpl/src/ta_sa_crypto_cipher_process.c b/reference/src/taimpl/src/ta_sa_crypto_cipher_process.c
index d539294..dde3e2d 100644
--- a/reference/src/taimpl/src/ta_sa_crypto_cipher_process.c
+++ b/reference/src/taimpl/src/ta_sa_crypto_cipher_process.c
@@ -476,16 +476,11 @@ sa_status ta_sa_crypto_cipher_process(
         }
 
         uint8_t* out_bytes = NULL;
-        status = convert_buffer(&out_bytes, &out_svp, out, required_length, client, caller_uuid);
-        if (status != SA_STATUS_OK) {
-            ERROR("convert_buffer failed");
-            break;
-        }
-
         uint8_t* in_bytes = NULL;
-        status = convert_buffer(&in_bytes, &in_svp, in, *bytes_to_process, client, caller_uuid);
+        status = convert_buffers(&out_bytes, &out_svp, out, required_length, &in_bytes, &in_svp, in, *bytes_to_process,
+                client, caller_uuid);
         if (status != SA_STATUS_OK) {
-            ERROR("convert_buffer failed");
+            ERROR("convert_buffers failed");
             break;
         }
 
diff --git a/reference/src/taimpl/src/ta_sa_crypto_cipher_process_last.c b/reference/src/taimpl/src/ta_sa_crypto_cipher_process_last.c
index 6ea9127..cec42b0 100644
--- a/reference/src/taimpl/src/ta_sa_crypto_cipher_process_last.c
+++ b/reference/src/taimpl/src/ta_sa_crypto_cipher_process_last.c
@@ -603,16 +603,11 @@ sa_status ta_sa_crypto_cipher_process_last(
         }
 
         uint8_t* out_bytes = NULL;
-        status = convert_buffer(&out_bytes, &out_svp, out, required_length, client, caller_uuid);
-        if (status != SA_STATUS_OK) {
-            ERROR("convert_buffer failed");
-            break;
-        }
-
         uint8_t* in_bytes = NULL;
-        status = convert_buffer(&in_bytes, &in_svp, in, *bytes_to_process, client, caller_uuid);
+        status = convert_buffers(&out_bytes, &out_svp, out, required_length, &in_bytes, &in_svp, in, *bytes_to_process,
+                client, caller_uuid);
         if (status != SA_STATUS_OK) {
-            ERROR("convert_buffer failed");
+            ERROR("convert_buffers failed");
             break;
         }
 
diff --git a/reference/src/taimpl/src/ta_sa_process_common_encryption.c b/reference/src/taimpl/src/ta_sa_process_common_encryption.c
index c900598..e85162d 100644
--- a/reference/src/taimpl/src/ta_sa_process_common_encryption.c
+++ b/reference/src/taimpl/src/ta_sa_process_common_encryption.c
@@ -132,7 +132,7 @@ static sa_status verify_sample(
             break;
         }
 
-        // Check out buffer length.
+        // Check buffer lengths.
         size_t required_length = cenc_get_required_length(sample->subsample_lengths, sample->subsample_count);
         if (required_length == CENC_OVERFLOW) {
             ERROR("cenc_get_required_length integer overflow");
@@ -141,17 +141,11 @@ static sa_status verify_sample(
         }
 
         uint8_t* out_bytes = NULL;
-        status = convert_buffer(&out_bytes, &out_svp, sample->out, required_length, client, caller_uuid);
-        if (status != SA_STATUS_OK) {
-            ERROR("convert_buffer failed");
-            break;
-        }
-
-        // Check in buffer length.
         uint8_t* in_bytes = NULL;
-        status = convert_buffer(&in_bytes, &in_svp, sample->in, required_length, client, caller_uuid);
+        status = convert_buffers(&out_bytes, &out_svp, sample->out, required_length, &in_bytes, &in_svp,
+                sample->in, required_length, client, caller_uuid);
         if (status != SA_STATUS_OK) {
-            ERROR("convert_buffer failed");
+            ERROR("convert_buffers failed");
             break;
         }
 
diff --git a/reference/src/taimpl/src/ta_sa_svp_buffer_copy.c b/reference/src/taimpl/src/ta_sa_svp_buffer_copy.c
index 9009171..f61a92e 100644
--- a/reference/src/taimpl/src/ta_sa_svp_buffer_copy.c
+++ b/reference/src/taimpl/src/ta_sa_svp_buffer_copy.c
@@ -52,13 +52,16 @@ sa_status ta_sa_svp_buffer_copy(
         }
 
         svp_store = client_get_svp_store(client);
-        status = svp_store_acquire_exclusive(&out_svp, svp_store, out, caller_uuid);
+        // The buffers are acquired in the order of their handles, so that operations running at the same time cannot wait for
+        // each other.
+        bool in_first = in < out;
+        status = svp_store_acquire_exclusive(in_first ? &in_svp : &out_svp, svp_store, in_first ? in : out, caller_uuid);
         if (status != SA_STATUS_OK) {
             ERROR("svp_store_acquire_exclusive failed");
             break;
         }
 
-        status = svp_store_acquire_exclusive(&in_svp, svp_store, in, caller_uuid);
+        status = svp_store_acquire_exclusive(in_first ? &out_svp : &in_svp, svp_store, in_first ? out : in, caller_uuid);
         if (status != SA_STATUS_OK) {
             ERROR("svp_store_acquire_exclusive failed");
             break;
-- 
2.43.0


From 5fb334ad465eeb98f484e63795fc937b7051fe6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:12 +0000
Subject: [PATCH 57/89] fix: release the key of a provisioning command on the
 secure side, as the client may not be able to

---
 reference/src/taimpl/src/internal/ta.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/reference/src/taimpl/src/internal/ta.c b/reference/src/taimpl/src/internal/ta.c
index 585dfcb..3c6f9c9 100644
--- a/reference/src/taimpl/src/internal/ta.c
+++ b/reference/src/taimpl/src/internal/ta.c
@@ -553,6 +553,16 @@ static sa_status ta_invoke_key_provision(
 	        in_wrapping_key,in_wrapping_key_length,parameters, context->client, uuid);
     }
     INFO("key_provision_ta->key: %d, 0x%x", key_provision_ta->key, &key_provision_ta->key);
+
+    // The client does not use the key. It is released here, because the client may not be able to release it.
+    if (status == SA_STATUS_OK) {
+        status = ta_sa_key_release(key_provision_ta->key, context->client, uuid);
+        if (status != SA_STATUS_OK) {
+            ERROR("ta_sa_key_release failed");
+        }
+    }
+
+    key_provision_ta->key = INVALID_HANDLE;
     return status;
 }
 
-- 
2.43.0


From 3dad7524d9aabc0be97413670a072d75953ae3ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:53 +0000
Subject: [PATCH 58/89] fix: process data longer than INT_MAX in pieces instead
 of cutting its length

---
 reference/src/taimpl/src/internal/symmetric.c | 79 +++++++++++++++----
 1 file changed, 63 insertions(+), 16 deletions(-)

diff --git a/reference/src/taimpl/src/internal/symmetric.c b/reference/src/taimpl/src/internal/symmetric.c
index 2d50a4d..6c7236d 100644
--- a/reference/src/taimpl/src/internal/symmetric.c
+++ b/reference/src/taimpl/src/internal/symmetric.c
@@ -33,6 +33,53 @@ struct symmetric_context_s {
     EVP_CIPHER_CTX* evp_cipher;
 };
 
+// The length of an OpenSSL update is an int.
+#define MAX_UPDATE_LENGTH ((size_t) 1 << 30)
+
+static int encrypt_update(
+        EVP_CIPHER_CTX* evp_cipher,
+        uint8_t* out,
+        size_t* out_length,
+        const uint8_t* in,
+        size_t in_length) {
+
+    *out_length = 0;
+    do {
+        size_t piece_length = in_length < MAX_UPDATE_LENGTH ? in_length : MAX_UPDATE_LENGTH;
+        int length = 0;
+        if (EVP_EncryptUpdate(evp_cipher, out == NULL ? NULL : out + *out_length, &length, in, (int) piece_length) != 1)
+            return 0;
+
+        *out_length += length;
+        in += piece_length;
+        in_length -= piece_length;
+    } while (in_length > 0);
+
+    return 1;
+}
+
+static int decrypt_update(
+        EVP_CIPHER_CTX* evp_cipher,
+        uint8_t* out,
+        size_t* out_length,
+        const uint8_t* in,
+        size_t in_length) {
+
+    *out_length = 0;
+    do {
+        size_t piece_length = in_length < MAX_UPDATE_LENGTH ? in_length : MAX_UPDATE_LENGTH;
+        int length = 0;
+        if (EVP_DecryptUpdate(evp_cipher, out == NULL ? NULL : out + *out_length, &length, in, (int) piece_length) != 1)
+            return 0;
+
+        *out_length += length;
+        in += piece_length;
+        in_length -= piece_length;
+    } while (in_length > 0);
+
+    return 1;
+}
+
 sa_status symmetric_generate_key(
         stored_key_t** stored_key_generated,
         const sa_rights* rights,
@@ -454,8 +501,8 @@ symmetric_context_t* symmetric_create_aes_gcm_encrypt_context(
 
         // set aad
         if (aad != NULL) {
-            int out_length = 0;
-            if (EVP_EncryptUpdate(context->evp_cipher, NULL, &out_length, aad, (int) aad_length) != 1) {
+            size_t out_length = 0;
+            if (encrypt_update(context->evp_cipher, NULL, &out_length, aad, aad_length) != 1) {
                 ERROR("EVP_EncryptUpdate failed");
                 break;
             }
@@ -661,8 +708,8 @@ symmetric_context_t* symmetric_create_chacha20_poly1305_encrypt_context(
 
         // set aad
         if (aad != NULL) {
-            int out_length = 0;
-            if (EVP_EncryptUpdate(context->evp_cipher, NULL, &out_length, aad, (int) aad_length) != 1) {
+            size_t out_length = 0;
+            if (encrypt_update(context->evp_cipher, NULL, &out_length, aad, aad_length) != 1) {
                 ERROR("EVP_EncryptUpdate failed");
                 break;
             }
@@ -1010,8 +1057,8 @@ symmetric_context_t* symmetric_create_aes_gcm_decrypt_context(
 
         // set aad
         if (aad != NULL) {
-            int out_length = 0;
-            if (EVP_DecryptUpdate(context->evp_cipher, NULL, &out_length, aad, (int) aad_length) != 1) {
+            size_t out_length = 0;
+            if (decrypt_update(context->evp_cipher, NULL, &out_length, aad, aad_length) != 1) {
                 ERROR("EVP_DecryptUpdate failed");
                 break;
             }
@@ -1217,8 +1264,8 @@ symmetric_context_t* symmetric_create_chacha20_poly1305_decrypt_context(
 
         // set aad
         if (aad != NULL) {
-            int out_length = 0;
-            if (EVP_DecryptUpdate(context->evp_cipher, NULL, &out_length, aad, (int) aad_length) != 1) {
+            size_t out_length = 0;
+            if (decrypt_update(context->evp_cipher, NULL, &out_length, aad, aad_length) != 1) {
                 ERROR("EVP_DecryptUpdate failed");
                 break;
             }
@@ -1273,8 +1320,8 @@ sa_status symmetric_context_encrypt(
         }
     }
 
-    int length = (int) *out_length;
-    if (EVP_EncryptUpdate(context->evp_cipher, out, &length, in, (int) in_length) != 1) {
+    size_t length = 0;
+    if (encrypt_update(context->evp_cipher, out, &length, in, in_length) != 1) {
         ERROR("EVP_EncryptUpdate failed");
         return SA_STATUS_INTERNAL_ERROR;
     }
@@ -1328,8 +1375,8 @@ sa_status symmetric_context_encrypt_last(
         return SA_STATUS_NULL_PARAMETER;
     }
 
-    int update_length = (int) in_length;
-    if (EVP_EncryptUpdate(context->evp_cipher, out, &update_length, in, (int) in_length) != 1) {
+    size_t update_length = 0;
+    if (encrypt_update(context->evp_cipher, out, &update_length, in, in_length) != 1) {
         ERROR("EVP_EncryptUpdate failed");
         return SA_STATUS_INTERNAL_ERROR;
     }
@@ -1381,8 +1428,8 @@ sa_status symmetric_context_decrypt(
         }
     }
 
-    int length = (int) *out_length;
-    if (EVP_DecryptUpdate(context->evp_cipher, out, &length, in, (int) in_length) != 1) {
+    size_t length = 0;
+    if (decrypt_update(context->evp_cipher, out, &length, in, in_length) != 1) {
         ERROR("EVP_DecryptUpdate failed");
         return SA_STATUS_INTERNAL_ERROR;
     }
@@ -1434,8 +1481,8 @@ sa_status symmetric_context_decrypt_last(
         return SA_STATUS_NULL_PARAMETER;
     }
 
-    int update_length = (int) in_length;
-    if (EVP_DecryptUpdate(context->evp_cipher, out, &update_length, in, (int) in_length) != 1) {
+    size_t update_length = 0;
+    if (decrypt_update(context->evp_cipher, out, &update_length, in, in_length) != 1) {
         ERROR("EVP_DecryptUpdate failed");
         return SA_STATUS_INTERNAL_ERROR;
     }
-- 
2.43.0


From 6dfbc52f03d989d0fec27430420459827d2d8696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:53 +0000
Subject: [PATCH 59/89] fix: fill random buffers longer than INT_MAX

---
 reference/src/taimpl/src/porting/rand.c | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/reference/src/taimpl/src/porting/rand.c b/reference/src/taimpl/src/porting/rand.c
index 7951669..2b5a133 100644
--- a/reference/src/taimpl/src/porting/rand.c
+++ b/reference/src/taimpl/src/porting/rand.c
@@ -26,10 +26,19 @@ bool rand_bytes(void* out, size_t out_length) {
         return false;
     }
 
-    if (!RAND_bytes(out, (int) out_length)) {
-        ERROR("RAND_bytes failed");
-        return false;
-    }
+    // The length for OpenSSL is an int.
+    const size_t max_length = (size_t) 1 << 30;
+    uint8_t* bytes = out;
+    do {
+        size_t length = out_length < max_length ? out_length : max_length;
+        if (RAND_bytes(bytes, (int) length) != 1) {
+            ERROR("RAND_bytes failed");
+            return false;
+        }
+
+        bytes += length;
+        out_length -= length;
+    } while (out_length > 0);
 
     return true;
 }
-- 
2.43.0


From 8ec1725c14112980d21ef84f462b609f7e4cc9e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:53 +0000
Subject: [PATCH 60/89] fix: report an error instead of device id 0 when the
 keystore cannot be read

---
 reference/src/taimpl/src/porting/otp.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/reference/src/taimpl/src/porting/otp.c b/reference/src/taimpl/src/porting/otp.c
index 6e35931..d97f392 100644
--- a/reference/src/taimpl/src/porting/otp.c
+++ b/reference/src/taimpl/src/porting/otp.c
@@ -676,12 +676,15 @@ sa_status otp_device_id(uint64_t* id) {
         return SA_STATUS_NULL_PARAMETER;
     }
 
-    // If not initialized yet, attempt to set the device id and ignore the result.
+    // The device id is known once the root key is loaded.
     uint8_t root_key[SYM_256_KEY_SIZE];
     size_t root_key_length = SYM_256_KEY_SIZE;
-    if (device_id == 0)
-        get_root_key(root_key, &root_key_length);
+    if (!get_root_key(root_key, &root_key_length)) {
+        ERROR("get_root_key failed");
+        return SA_STATUS_INTERNAL_ERROR;
+    }
 
+    memory_memset_unoptimizable(root_key, 0, SYM_256_KEY_SIZE);
     *id = device_id;
     return SA_STATUS_OK;
 }
-- 
2.43.0


From 6637798046ac96529921821b529a010690a08b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:53 +0000
Subject: [PATCH 61/89] fix: free the command of a failed sa_get_device_id

---
 reference/src/clientimpl/src/sa_get_device_id.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reference/src/clientimpl/src/sa_get_device_id.c b/reference/src/clientimpl/src/sa_get_device_id.c
index 2c97a79..4b0d8df 100644
--- a/reference/src/clientimpl/src/sa_get_device_id.c
+++ b/reference/src/clientimpl/src/sa_get_device_id.c
@@ -52,7 +52,7 @@ sa_status sa_get_device_id(uint64_t* id) {
         status = ta_invoke_command(session, SA_GET_DEVICE_ID, param_types, params);
         if (status != SA_STATUS_OK) {
             ERROR("ta_invoke_command failed: %d", status);
-            return status;
+            break;
         }
 
         *id = get_device_id->id;
-- 
2.43.0


From 522311a194c62c74babdd49bc5a1c5461f65330c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:53 +0000
Subject: [PATCH 62/89] fix: refuse wrapped keys, additional data and labels
 longer than INT_MAX instead of cutting their length

---
 reference/src/taimpl/src/internal/rsa.c     |  6 ++++++
 reference/src/taimpl/src/ta_sa_key_unwrap.c | 16 ++++++++++++++++
 2 files changed, 22 insertions(+)

diff --git a/reference/src/taimpl/src/internal/rsa.c b/reference/src/taimpl/src/internal/rsa.c
index c161209..3be9402 100644
--- a/reference/src/taimpl/src/internal/rsa.c
+++ b/reference/src/taimpl/src/internal/rsa.c
@@ -22,6 +22,7 @@
 #include "pkcs8.h"
 #include "porting/memory.h"
 #include "stored_key_internal.h"
+#include <limits.h>
 #include <memory.h>
 #include <openssl/pem.h>
 
@@ -297,6 +298,11 @@ sa_status rsa_decrypt_oaep(
             break;
         }
 
+        if (label_length > INT_MAX) {
+            ERROR("Invalid label_length");
+            break;
+        }
+
         if (label != NULL && label_length > 0) {
             uint8_t* new_label = memory_secure_alloc(label_length);
             if (new_label == NULL) {
diff --git a/reference/src/taimpl/src/ta_sa_key_unwrap.c b/reference/src/taimpl/src/ta_sa_key_unwrap.c
index 47edab4..427a4b9 100644
--- a/reference/src/taimpl/src/ta_sa_key_unwrap.c
+++ b/reference/src/taimpl/src/ta_sa_key_unwrap.c
@@ -25,6 +25,7 @@
 #include "rights.h"
 #include "ta_sa.h"
 #include "unwrap.h"
+#include <limits.h>
 
 static sa_status ta_sa_key_unwrap_aes_ecb(
         sa_key* key,
@@ -387,6 +388,11 @@ static sa_status ta_sa_key_unwrap_aes_gcm(
         return SA_STATUS_NULL_PARAMETER;
     }
 
+    if (algorithm_parameters->aad_length > INT_MAX) {
+        ERROR("Invalid aad_length");
+        return SA_STATUS_INVALID_PARAMETER;
+    }
+
     if (algorithm_parameters->tag == NULL) {
         ERROR("NULL tag");
         return SA_STATUS_NULL_PARAMETER;
@@ -620,6 +626,11 @@ static sa_status ta_sa_key_unwrap_chacha20_poly1305(
         return SA_STATUS_NULL_PARAMETER;
     }
 
+    if (algorithm_parameters->aad_length > INT_MAX) {
+        ERROR("Invalid aad_length");
+        return SA_STATUS_INVALID_PARAMETER;
+    }
+
     if (algorithm_parameters->tag == NULL) {
         ERROR("NULL tag");
         return SA_STATUS_NULL_PARAMETER;
@@ -916,6 +927,11 @@ sa_status ta_sa_key_unwrap(
         return SA_STATUS_NULL_PARAMETER;
     }
 
+    if (in_length > INT_MAX) {
+        ERROR("Invalid in_length");
+        return SA_STATUS_INVALID_PARAMETER;
+    }
+
     sa_status status;
     client_store_t* client_store = client_store_global();
     client_t* client = NULL;
-- 
2.43.0


From 947eaffff8a6e54da46ea7ae7bfa66a2a6f5d158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:03 +0000
Subject: [PATCH 63/89] fix: join short updates in provider ciphers, report a
 failing block and drop the rest of the data on init

---
 reference/src/client/src/sa_provider_cipher.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/reference/src/client/src/sa_provider_cipher.c b/reference/src/client/src/sa_provider_cipher.c
index 746bf0a..5d8ede5 100644
--- a/reference/src/client/src/sa_provider_cipher.c
+++ b/reference/src/client/src/sa_provider_cipher.c
@@ -153,6 +153,7 @@ static int cipher_init(
     sa_provider_cipher_context* cipher_context = cctx;
     do {
         cipher_context->mode = mode;
+        cipher_context->remaining_block_length = 0;
         if (cipher_context->cipher_context != INVALID_HANDLE) {
             sa_crypto_cipher_release(cipher_context->cipher_context);
             cipher_context->cipher_context = INVALID_HANDLE;
@@ -357,7 +358,7 @@ static int cipher_cipher(
                 // If inl is not a multiple of block size, store the leftover data in remaining_block. Then, the
                 // next time this function is called, start with the remaining data and add data from in to it. Then
                 // process the remainder of in.
-                while (total_length >= cipher_context->block_size) {
+                while (total_length >= cipher_context->block_size && status == SA_STATUS_OK) {
                     if (cipher_context->remaining_block_length > 0) {
                         // Start with remaining_block and add in to it.
                         memcpy(cipher_context->remaining_block + cipher_context->remaining_block_length, in + position,
@@ -386,11 +387,11 @@ static int cipher_cipher(
                     }
                 }
 
-                // Store any leftover data in remaining_block for processing on the next call to update.
-                if (position < inl) {
-                    cipher_context->remaining_block_length = inl - position;
-                    memcpy(cipher_context->remaining_block, in + position,
-                            cipher_context->remaining_block_length);
+                // Append any leftover data to remaining_block for processing on the next call to update.
+                if (status == SA_STATUS_OK && position < inl) {
+                    memcpy(cipher_context->remaining_block + cipher_context->remaining_block_length, in + position,
+                            inl - position);
+                    cipher_context->remaining_block_length += inl - position;
                 }
             } else if (cipher_context->cipher_algorithm != SA_CIPHER_ALGORITHM_AES_CBC &&
                        cipher_context->cipher_algorithm != SA_CIPHER_ALGORITHM_AES_ECB) {
-- 
2.43.0


From 67158804227c73e656778c2da63084c6be97dd35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:41 +0000
Subject: [PATCH 64/89] fix: leave keys of the caller alone when a provider
 cipher gets another key, and free imported keys of a wrong size

---
 reference/src/client/src/sa_provider_cipher.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/reference/src/client/src/sa_provider_cipher.c b/reference/src/client/src/sa_provider_cipher.c
index 5d8ede5..2a26d94 100644
--- a/reference/src/client/src/sa_provider_cipher.c
+++ b/reference/src/client/src/sa_provider_cipher.c
@@ -169,9 +169,11 @@ static int cipher_init(
         }
 
         if (key != NULL) {
-            if (cipher_context->key != INVALID_HANDLE)
+            if (cipher_context->delete_key && cipher_context->key != INVALID_HANDLE)
                 sa_key_release(cipher_context->key);
 
+            cipher_context->key = INVALID_HANDLE;
+            cipher_context->delete_key = false;
             sa_rights rights;
             sa_rights_set_allow_all(&rights);
             sa_import_parameters_symmetric parameters_symmetric = {&rights};
@@ -181,6 +183,7 @@ static int cipher_init(
                 break;
             }
 
+            cipher_context->delete_key = true;
             sa_header header;
             if (sa_key_header(&header, cipher_context->key) != SA_STATUS_OK) {
                 ERROR("sa_key_header failed");
@@ -191,8 +194,6 @@ static int cipher_init(
                 ERROR("Key size mismtach for algorithm");
                 break;
             }
-
-            cipher_context->delete_key = true;
         }
 
         if (cipher_set_ctx_params(cctx, params) != 1) {
@@ -650,10 +651,13 @@ static int cipher_set_ctx_params(void* cctx,
             return 0;
         }
 
-        if (cipher_context->key != INVALID_HANDLE)
-            sa_key_release(cipher_context->key);
+        if (cipher_context->key != key) {
+            if (cipher_context->delete_key && cipher_context->key != INVALID_HANDLE)
+                sa_key_release(cipher_context->key);
 
-        cipher_context->key = key;
+            cipher_context->key = key;
+            cipher_context->delete_key = false;
+        }
     }
 
     param = OSSL_PARAM_locate_const(params, OSSL_PARAM_SA_KEY_DELETE);
-- 
2.43.0


From d7ca688d7fc43f8815387d33a315b1ad6f61314f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:41 +0000
Subject: [PATCH 65/89] fix: compute or check the tag of a provider cipher also
 when final gets no buffer; an update without data is not final

---
 reference/src/client/src/sa_provider_cipher.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/reference/src/client/src/sa_provider_cipher.c b/reference/src/client/src/sa_provider_cipher.c
index 2a26d94..b27251f 100644
--- a/reference/src/client/src/sa_provider_cipher.c
+++ b/reference/src/client/src/sa_provider_cipher.c
@@ -235,6 +235,17 @@ static int cipher_update(
         size_t outsize,
         const unsigned char* in,
         size_t inl) {
+    if (in == NULL) {
+        // An update without data is not the final call.
+        if (outl == NULL || inl != 0) {
+            ERROR("NULL in or outl");
+            return 0;
+        }
+
+        *outl = 0;
+        return 1;
+    }
+
     return cipher_cipher(cctx, out, outl, outsize, in, inl);
 }
 
@@ -243,6 +254,11 @@ static int cipher_final(
         unsigned char* out,
         size_t* outl,
         size_t outsize) {
+    // The tag has to be computed or checked even if the caller gave no buffer because no output is expected.
+    unsigned char block[AES_BLOCK_SIZE];
+    if (out == NULL)
+        return cipher_cipher(cctx, block, outl, 0, NULL, 0);
+
     return cipher_cipher(cctx, out, outl, outsize, NULL, 0);
 }
 
-- 
2.43.0


From 5919c467cafc5bd7c4c01720c10ca88835a2f2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:41 +0000
Subject: [PATCH 66/89] fix: honour the tag length in provider ciphers and
 refuse key and IV lengths they do not have

---
 reference/src/client/src/sa_provider_cipher.c | 35 ++++++++++++++++---
 1 file changed, 31 insertions(+), 4 deletions(-)

diff --git a/reference/src/client/src/sa_provider_cipher.c b/reference/src/client/src/sa_provider_cipher.c
index b27251f..a7dcc5c 100644
--- a/reference/src/client/src/sa_provider_cipher.c
+++ b/reference/src/client/src/sa_provider_cipher.c
@@ -47,6 +47,7 @@ typedef struct {
     bool padded;
     bool aead;
     uint8_t tag[AES_BLOCK_SIZE];
+    size_t tag_length;
     bool delete_key;
     uint8_t remaining_block[AES_BLOCK_SIZE];
     size_t remaining_block_length;
@@ -111,6 +112,7 @@ static void* cipher_newctx(
     cipher_context->block_size = block_size;
     cipher_context->iv_length = iv_length;
     cipher_context->aead = aead;
+    cipher_context->tag_length = MAX_GCM_TAG_LENGTH;
     cipher_context->key = INVALID_HANDLE;
     cipher_context->cipher_context = INVALID_HANDLE;
     cipher_context->padded =
@@ -160,7 +162,7 @@ static int cipher_init(
         }
 
         if (iv != NULL) {
-            if (ivlen > AES_BLOCK_SIZE) {
+            if (ivlen != cipher_context->iv_length) {
                 ERROR("Invalid IV length");
                 break;
             }
@@ -423,7 +425,9 @@ static int cipher_cipher(
                 sa_cipher_end_parameters_aes_gcm end_parameters;
                 if (cipher_context->aead) {
                     end_parameters.tag = cipher_context->tag;
-                    end_parameters.tag_length = MAX_GCM_TAG_LENGTH;
+                    end_parameters.tag_length = cipher_context->mode == SA_CIPHER_MODE_DECRYPT ?
+                                                        cipher_context->tag_length :
+                                                        MAX_GCM_TAG_LENGTH;
                     parameters = &end_parameters;
                 }
 
@@ -571,7 +575,9 @@ static int cipher_get_ctx_params(
     }
 
     param = OSSL_PARAM_locate(params, OSSL_CIPHER_PARAM_AEAD_TAG);
-    if (param != NULL && !OSSL_PARAM_set_octet_string(param, cipher_context->tag, AES_BLOCK_SIZE)) {
+    if (param != NULL && !OSSL_PARAM_set_octet_string(param, cipher_context->tag,
+                                 param->data != NULL && param->data_size < AES_BLOCK_SIZE ? param->data_size :
+                                                                                            AES_BLOCK_SIZE)) {
         ERROR("OSSL_PARAM_set_octet_string failed");
         return 0;
     }
@@ -642,10 +648,31 @@ static int cipher_set_ctx_params(void* cctx,
     if (param != NULL) {
         size_t length;
         void* p_tag = cipher_context->tag;
-        if (!OSSL_PARAM_get_octet_string(param, &p_tag, AES_BLOCK_SIZE, &length)) {
+        if (!OSSL_PARAM_get_octet_string(param, &p_tag, AES_BLOCK_SIZE, &length) || length == 0) {
             ERROR("OSSL_PARAM_get_octet_string failed");
             return 0;
         }
+
+        cipher_context->tag_length = length;
+    }
+
+    // The key and IV lengths are fixed.
+    param = OSSL_PARAM_locate_const(params, OSSL_CIPHER_PARAM_KEYLEN);
+    if (param != NULL) {
+        size_t length;
+        if (!OSSL_PARAM_get_size_t(param, &length) || length != cipher_context->key_size) {
+            ERROR("Invalid key length");
+            return 0;
+        }
+    }
+
+    param = OSSL_PARAM_locate_const(params, OSSL_CIPHER_PARAM_IVLEN);
+    if (param != NULL) {
+        size_t length;
+        if (!OSSL_PARAM_get_size_t(param, &length) || length != cipher_context->iv_length) {
+            ERROR("Invalid IV length");
+            return 0;
+        }
     }
 
     param = OSSL_PARAM_locate_const(params, OSSL_PARAM_SA_KEY);
-- 
2.43.0


From 65c65cd833b7e9449e858a98039109f2da5da4ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:16 +0000
Subject: [PATCH 67/89] fix: take additional data of provider ciphers in
 several parts and refuse it after data

---
 reference/src/client/src/sa_provider_cipher.c | 46 ++++++++++++++-----
 1 file changed, 34 insertions(+), 12 deletions(-)

diff --git a/reference/src/client/src/sa_provider_cipher.c b/reference/src/client/src/sa_provider_cipher.c
index a7dcc5c..73228e1 100644
--- a/reference/src/client/src/sa_provider_cipher.c
+++ b/reference/src/client/src/sa_provider_cipher.c
@@ -51,6 +51,8 @@ typedef struct {
     bool delete_key;
     uint8_t remaining_block[AES_BLOCK_SIZE];
     size_t remaining_block_length;
+    uint8_t* aad;
+    size_t aad_length;
 } sa_provider_cipher_context;
 
 ossl_unused static OSSL_FUNC_cipher_newctx_fn cipher_aes_ecb_128_newctx;
@@ -134,6 +136,8 @@ static void cipher_freectx(void* cctx) {
 
     cipher_context->key = INVALID_HANDLE;
     cipher_context->cipher_context = INVALID_HANDLE;
+    OPENSSL_free(cipher_context->aad);
+    cipher_context->aad = NULL;
     OPENSSL_free(cipher_context);
 }
 
@@ -156,6 +160,9 @@ static int cipher_init(
     do {
         cipher_context->mode = mode;
         cipher_context->remaining_block_length = 0;
+        OPENSSL_free(cipher_context->aad);
+        cipher_context->aad = NULL;
+        cipher_context->aad_length = 0;
         if (cipher_context->cipher_context != INVALID_HANDLE) {
             sa_crypto_cipher_release(cipher_context->cipher_context);
             cipher_context->cipher_context = INVALID_HANDLE;
@@ -290,16 +297,31 @@ static int cipher_cipher(
             break;
         }
 
-        if (cipher_context->cipher_context == INVALID_HANDLE) {
-            void* aad = NULL;
-            size_t aad_length;
-            if (out == NULL) {
-                aad = (void*) in;
-                aad_length = inl;
-            } else {
-                aad_length = 0;
+        if (out == NULL) {
+            // Collect the additional authenticated data. It is needed as a whole once the first data arrives.
+            if (!cipher_context->aead || cipher_context->cipher_context != INVALID_HANDLE || in == NULL) {
+                ERROR("Unexpected additional authenticated data");
+                break;
             }
 
+            if (inl > 0) {
+                uint8_t* aad = OPENSSL_realloc(cipher_context->aad, cipher_context->aad_length + inl);
+                if (aad == NULL) {
+                    ERROR("OPENSSL_realloc failed");
+                    break;
+                }
+
+                memcpy(aad + cipher_context->aad_length, in, inl);
+                cipher_context->aad = aad;
+                cipher_context->aad_length += inl;
+            }
+
+            *outl = 0;
+            result = 1;
+            break;
+        }
+
+        if (cipher_context->cipher_context == INVALID_HANDLE) {
             sa_cipher_parameters_aes_cbc parameters_aes_cbc;
             sa_cipher_parameters_aes_ctr parameters_aes_ctr;
             sa_cipher_parameters_chacha20 parameters_chacha20;
@@ -336,16 +358,16 @@ static int cipher_cipher(
                 case SA_CIPHER_ALGORITHM_AES_GCM:
                     parameters_aes_gcm.iv = cipher_context->iv;
                     parameters_aes_gcm.iv_length = cipher_context->iv_length;
-                    parameters_aes_gcm.aad = aad;
-                    parameters_aes_gcm.aad_length = aad_length;
+                    parameters_aes_gcm.aad = cipher_context->aad;
+                    parameters_aes_gcm.aad_length = cipher_context->aad_length;
                     parameters = &parameters_aes_gcm;
                     break;
 
                 case SA_CIPHER_ALGORITHM_CHACHA20_POLY1305:
                     parameters_chacha20_poly1305.nonce = cipher_context->iv;
                     parameters_chacha20_poly1305.nonce_length = cipher_context->iv_length;
-                    parameters_chacha20_poly1305.aad = aad;
-                    parameters_chacha20_poly1305.aad_length = aad_length;
+                    parameters_chacha20_poly1305.aad = cipher_context->aad;
+                    parameters_chacha20_poly1305.aad_length = cipher_context->aad_length;
                     parameters = &parameters_chacha20_poly1305;
                     break;
 
-- 
2.43.0


From a2df125d76f0aac5f70b7850c73e584ffd6ca69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:16 +0000
Subject: [PATCH 68/89] fix: keep the size of a copied provider digest and list
 its gettable and settable parameters the right way round

---
 reference/src/client/src/sa_provider_digest.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/reference/src/client/src/sa_provider_digest.c b/reference/src/client/src/sa_provider_digest.c
index 044ac8c..b9d1073 100644
--- a/reference/src/client/src/sa_provider_digest.c
+++ b/reference/src/client/src/sa_provider_digest.c
@@ -144,7 +144,7 @@ static void* digest_dupctx(void* dctx) {
         }
 
         new_digest_context->provider_context = digest_context->provider_context;
-        new_digest_context->digest_size = new_digest_context->digest_size;
+        new_digest_context->digest_size = digest_context->digest_size;
         return new_digest_context;
     } while (false);
 
@@ -303,7 +303,7 @@ static const OSSL_PARAM* digest_gettable_ctx_params(
     }
 
     sa_provider_digest_context* digest_context = dctx;
-    return EVP_MD_CTX_settable_params(digest_context->evp_md_ctx);
+    return EVP_MD_CTX_gettable_params(digest_context->evp_md_ctx);
 }
 
 static const OSSL_PARAM* digest_settable_ctx_params(
@@ -316,7 +316,7 @@ static const OSSL_PARAM* digest_settable_ctx_params(
     }
 
     sa_provider_digest_context* digest_context = dctx;
-    return EVP_MD_CTX_gettable_params(digest_context->evp_md_ctx);
+    return EVP_MD_CTX_settable_params(digest_context->evp_md_ctx);
 }
 
 #define SA_PROVIDER_DIGEST_FUNCTIONS(algorithm, name, length) \
-- 
2.43.0


From a1baebfdc0e9e72c41c0287140bb49c049e2fcd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:16 +0000
Subject: [PATCH 69/89] fix: leave keys of the caller alone when a provider MAC
 gets another key, free replaced digests, refuse HMAC without digest

---
 reference/src/client/src/sa_provider_mac.c | 26 +++++++++++++++-------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/reference/src/client/src/sa_provider_mac.c b/reference/src/client/src/sa_provider_mac.c
index ff7570d..f164112 100644
--- a/reference/src/client/src/sa_provider_mac.c
+++ b/reference/src/client/src/sa_provider_mac.c
@@ -115,9 +115,11 @@ static int mac_init(
         }
 
         if (key != NULL) {
-            if (mac_context->key != INVALID_HANDLE)
+            if (mac_context->delete_key && mac_context->key != INVALID_HANDLE)
                 sa_key_release(mac_context->key);
 
+            mac_context->key = INVALID_HANDLE;
+            mac_context->delete_key = false;
             sa_rights rights;
             sa_rights_set_allow_all(&rights);
             sa_import_parameters_symmetric parameters_symmetric = {&rights};
@@ -127,13 +129,12 @@ static int mac_init(
                 break;
             }
 
+            mac_context->delete_key = true;
             sa_header header;
             if (sa_key_header(&header, mac_context->key) != SA_STATUS_OK) {
                 ERROR("sa_key_header failed");
                 break;
             }
-
-            mac_context->delete_key = true;
         }
 
         if (mac_set_ctx_params(mctx, params) != 1) {
@@ -149,6 +150,10 @@ static int mac_init(
         sa_mac_parameters_hmac parameters_hmac;
         void* parameters = NULL;
         if (mac_context->mac_algorithm == SA_MAC_ALGORITHM_HMAC) {
+            if (mac_context->evp_md == NULL) {
+                ERROR("NULL evp_md");
+                break;
+            }
 
             parameters_hmac.digest_algorithm = digest_algorithm_from_name(EVP_MD_get0_name(mac_context->evp_md));
             parameters = &parameters_hmac;
@@ -294,6 +299,7 @@ static int mac_set_ctx_params(
             properties[0] = 0;
         }
 
+        EVP_MD_free(mac_context->evp_md);
         mac_context->evp_md = EVP_MD_fetch(mac_context->provider_context->lib_ctx, name, properties);
         if (mac_context->evp_md == NULL) {
             ERROR("EVP_MD_fetch failed");
@@ -309,15 +315,19 @@ static int mac_set_ctx_params(
             return 0;
         }
 
-        if (mac_context->key != INVALID_HANDLE)
-            sa_key_release(mac_context->key);
-
-        mac_context->key = key;
         sa_header header;
-        if (sa_key_header(&header, mac_context->key) != SA_STATUS_OK) {
+        if (sa_key_header(&header, key) != SA_STATUS_OK) {
             ERROR("sa_key_header failed");
             return 0;
         }
+
+        if (mac_context->key != key) {
+            if (mac_context->delete_key && mac_context->key != INVALID_HANDLE)
+                sa_key_release(mac_context->key);
+
+            mac_context->key = key;
+            mac_context->delete_key = false;
+        }
     }
 
     param = OSSL_PARAM_locate_const(params, OSSL_PARAM_SA_KEY_DELETE);
-- 
2.43.0


From 7aa4c93e26e51abb79982817c35a9e611c423d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:16 +0000
Subject: [PATCH 70/89] fix: leave keys of the caller alone when a provider KDF
 gets another key, accept derivation without further parameters

---
 reference/src/client/src/sa_provider_kdf.c | 26 +++++++++++++---------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/reference/src/client/src/sa_provider_kdf.c b/reference/src/client/src/sa_provider_kdf.c
index aaa2c93..16d03fe 100644
--- a/reference/src/client/src/sa_provider_kdf.c
+++ b/reference/src/client/src/sa_provider_kdf.c
@@ -375,10 +375,8 @@ int kdf_set_ctx_params(
         return 0;
     }
 
-    if (params == NULL) {
-        ERROR("NULL params");
-        return 0;
-    }
+    if (params == NULL)
+        return 1;
 
     sa_provider_kdf_context* kdf_context = kctx;
     const OSSL_PARAM* param = OSSL_PARAM_locate_const(params, OSSL_KDF_PARAM_KEY);
@@ -386,7 +384,7 @@ int kdf_set_ctx_params(
         size_t length;
         unsigned long key;
         void* p_key = &key;
-        if (OSSL_PARAM_get_octet_string(param, &p_key, sizeof(sa_key), &length) != 1) {
+        if (OSSL_PARAM_get_octet_string(param, &p_key, sizeof(sa_key), &length) != 1 || length != sizeof(sa_key)) {
             ERROR("OSSL_PARAM_get_octet_string failed");
             return 0;
         }
@@ -397,10 +395,13 @@ int kdf_set_ctx_params(
             return 0;
         }
 
-        if (kdf_context->key != INVALID_HANDLE)
-            sa_key_release(kdf_context->key);
+        if (kdf_context->key != key) {
+            if (kdf_context->delete_key && kdf_context->key != INVALID_HANDLE)
+                sa_key_release(kdf_context->key);
 
-        kdf_context->key = key;
+            kdf_context->key = key;
+            kdf_context->delete_key = false;
+        }
     }
 
     param = OSSL_PARAM_locate_const(params, OSSL_PARAM_SA_KEY);
@@ -417,10 +418,13 @@ int kdf_set_ctx_params(
             return 0;
         }
 
-        if (kdf_context->key != INVALID_HANDLE)
-            sa_key_release(kdf_context->key);
+        if (kdf_context->key != key) {
+            if (kdf_context->delete_key && kdf_context->key != INVALID_HANDLE)
+                sa_key_release(kdf_context->key);
 
-        kdf_context->key = key;
+            kdf_context->key = key;
+            kdf_context->delete_key = false;
+        }
     }
 
     param = OSSL_PARAM_locate_const(params, OSSL_PARAM_SA_KEY_DELETE);
-- 
2.43.0


From e8006656612b1ef221e1652d5f6771bf600b3f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:16 +0000
Subject: [PATCH 71/89] fix: reset forgets the lengths and digest of a provider
 KDF

---
 reference/src/client/src/sa_provider_kdf.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/reference/src/client/src/sa_provider_kdf.c b/reference/src/client/src/sa_provider_kdf.c
index 16d03fe..dd15648 100644
--- a/reference/src/client/src/sa_provider_kdf.c
+++ b/reference/src/client/src/sa_provider_kdf.c
@@ -199,8 +199,11 @@ void kdf_reset(void* kctx) {
     kdf_context->delete_key = false;
     OPENSSL_free(kdf_context->salt);
     kdf_context->salt = NULL;
+    kdf_context->salt_length = 0;
     OPENSSL_free(kdf_context->info);
     kdf_context->info = NULL;
+    kdf_context->info_length = 0;
+    kdf_context->digest_algorithm = UINT32_MAX;
     kdf_context->use_separator = 0;
     kdf_context->use_l = 0;
 }
@@ -273,7 +276,7 @@ int kdf_derive(
 
                 size_t length = kdf_context->salt_length + (kdf_context->use_separator == 1 ? 1 : 0) +
                                 kdf_context->info_length + (kdf_context->use_l == 1 ? 4 : 0);
-                other_data = OPENSSL_malloc(length);
+                other_data = OPENSSL_malloc(length > 0 ? length : 1);
                 if (other_data == NULL) {
                     ERROR("OPENSSL_malloc failed");
                     continue; // NOLINT
-- 
2.43.0


From af18f2fa412247f5a9ff069dbdd9456b10fee189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:16 +0000
Subject: [PATCH 72/89] fix: copy algorithm and key of a provider KDF

---
 reference/src/client/src/sa_provider_kdf.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/reference/src/client/src/sa_provider_kdf.c b/reference/src/client/src/sa_provider_kdf.c
index dd15648..ef08ffe 100644
--- a/reference/src/client/src/sa_provider_kdf.c
+++ b/reference/src/client/src/sa_provider_kdf.c
@@ -120,6 +120,8 @@ void* kdf_dupctx(void* kctx) {
     }
 
     new_kdf_context->provider_context = kdf_context->provider_context;
+    new_kdf_context->kdf_algorithm = kdf_context->kdf_algorithm;
+    new_kdf_context->key = INVALID_HANDLE;
     new_kdf_context->digest_algorithm = kdf_context->digest_algorithm;
     new_kdf_context->use_separator = kdf_context->use_separator;
     new_kdf_context->use_l = kdf_context->use_l;
@@ -147,12 +149,13 @@ void* kdf_dupctx(void* kctx) {
         memcpy(new_kdf_context->info, kdf_context->info, kdf_context->info_length);
     }
 
-    if (new_kdf_context->delete_key) {
+    new_kdf_context->key = kdf_context->key;
+    if (kdf_context->delete_key) {
         // We are managing the lifetime of the key, so copy the key by exporting and reimporting it.
+        new_kdf_context->key = INVALID_HANDLE;
         size_t exported_key_length = 0;
-        if (sa_key_export(NULL, &exported_key_length, NULL, 0, new_kdf_context->key) != SA_STATUS_OK) {
+        if (sa_key_export(NULL, &exported_key_length, NULL, 0, kdf_context->key) != SA_STATUS_OK) {
             ERROR("sa_key_export failed");
-            OPENSSL_free(new_kdf_context);
             kdf_freectx(new_kdf_context);
             return NULL;
         }
@@ -160,7 +163,6 @@ void* kdf_dupctx(void* kctx) {
         uint8_t* exported_key = OPENSSL_malloc(exported_key_length);
         if (exported_key == NULL) {
             ERROR("OPENSSL_malloc failed");
-            OPENSSL_free(new_kdf_context);
             kdf_freectx(new_kdf_context);
             return NULL;
         }
@@ -180,6 +182,8 @@ void* kdf_dupctx(void* kctx) {
             kdf_freectx(new_kdf_context);
             return NULL;
         }
+
+        new_kdf_context->delete_key = true;
     }
 
     return new_kdf_context;
-- 
2.43.0


From 4be9639dcb4c715b1246c5f9655cf8fa85d0ce00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:16 +0000
Subject: [PATCH 73/89] fix: provider key exchanges free replaced keys and
 refuse to derive without both keys

---
 reference/src/client/src/sa_provider_keyexch.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/reference/src/client/src/sa_provider_keyexch.c b/reference/src/client/src/sa_provider_keyexch.c
index 8e9a962..3fba0bd 100644
--- a/reference/src/client/src/sa_provider_keyexch.c
+++ b/reference/src/client/src/sa_provider_keyexch.c
@@ -95,8 +95,12 @@ void* keyexch_dupctx(void* ctx) {
     }
 
     new_keyexch_context->provider_context = keyexch_context->provider_context;
-    new_keyexch_context->key_data = sa_provider_key_data_dup(keyexch_context->key_data);
-    new_keyexch_context->peer_key_data = sa_provider_key_data_dup(keyexch_context->peer_key_data);
+    if (keyexch_context->key_data != NULL)
+        new_keyexch_context->key_data = sa_provider_key_data_dup(keyexch_context->key_data);
+
+    if (keyexch_context->peer_key_data != NULL)
+        new_keyexch_context->peer_key_data = sa_provider_key_data_dup(keyexch_context->peer_key_data);
+
     return new_keyexch_context;
 }
 
@@ -116,6 +120,7 @@ int keyexch_init(
     }
 
     sa_provider_keyexch_context* keyexch_context = ctx;
+    sa_provider_key_data_free(keyexch_context->key_data);
     keyexch_context->key_data = sa_provider_key_data_dup(provkey);
     return keyexch_set_ctx_params(keyexch_context, params);
 }
@@ -147,6 +152,11 @@ int keyexch_derive(
     }
 
     sa_provider_keyexch_context* keyexch_context = ctx;
+    if (keyexch_context->key_data == NULL || keyexch_context->peer_key_data == NULL) {
+        ERROR("NULL key_data or peer_key_data");
+        return 0;
+    }
+
     int result = 0;
     sa_key_exchange_algorithm key_exchange_algorithm;
     uint8_t* other_public = NULL;
@@ -219,6 +229,7 @@ int keyexch_set_peer(
     }
 
     sa_provider_keyexch_context* keyexch_context = ctx;
+    sa_provider_key_data_free(keyexch_context->peer_key_data);
     keyexch_context->peer_key_data = sa_provider_key_data_dup(provkey);
     return 1;
 }
-- 
2.43.0


From 6a387b960748d2579ca99020cca7ebf25c2ac7fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:16 +0000
Subject: [PATCH 74/89] fix: use the MGF1 digest and the default digest of
 provider RSA OAEP; refuse unsupported paddings on decryption

---
 .../src/client/src/sa_provider_asym_cipher.c  | 24 +++++++------------
 1 file changed, 8 insertions(+), 16 deletions(-)

diff --git a/reference/src/client/src/sa_provider_asym_cipher.c b/reference/src/client/src/sa_provider_asym_cipher.c
index f7af18d..b6aad14 100644
--- a/reference/src/client/src/sa_provider_asym_cipher.c
+++ b/reference/src/client/src/sa_provider_asym_cipher.c
@@ -34,7 +34,6 @@
 #include <openssl/ec.h>
 #include <openssl/rsa.h>
 
-#define DEFAULT_OAEP_DIGEST "SHA1"
 #define UNSUPPORTED_OPERATION (-2)
 
 typedef struct {
@@ -208,13 +207,8 @@ static int asym_cipher_encrypt(
         }
 
         if (asym_cipher_context->padding_mode == RSA_PKCS1_OAEP_PADDING) {
-            EVP_MD* oaep_md;
-            if (asym_cipher_context->oaep_md != NULL)
-                oaep_md = asym_cipher_context->oaep_md;
-            else
-                oaep_md = EVP_MD_fetch(asym_cipher_context->provider_context->lib_ctx, DEFAULT_OAEP_DIGEST, NULL);
-
-            EVP_MD* oaep_mgf1_md = asym_cipher_context->oaep_mgf1_md != NULL ? oaep_md : asym_cipher_context->oaep_md;
+            const EVP_MD* oaep_md = asym_cipher_context->oaep_md != NULL ? asym_cipher_context->oaep_md : EVP_sha1();
+            const EVP_MD* oaep_mgf1_md = asym_cipher_context->oaep_mgf1_md != NULL ? asym_cipher_context->oaep_mgf1_md : oaep_md;
             if (EVP_PKEY_CTX_set_rsa_oaep_md(encrypt_pkey_ctx, oaep_md) != 1) {
                 ERROR("EVP_PKEY_CTX_set_rsa_oaep_md failed");
                 break;
@@ -294,20 +288,18 @@ static int asym_cipher_decrypt(void* ctx,
     void* parameters = NULL;
     if (asym_cipher_context->padding_mode == RSA_PKCS1_OAEP_PADDING) {
         cipher_algorithm = SA_CIPHER_ALGORITHM_RSA_OAEP;
-        EVP_MD* oaep_md;
-        if (asym_cipher_context->oaep_md != NULL)
-            oaep_md = asym_cipher_context->oaep_md;
-        else
-            oaep_md = EVP_MD_fetch(asym_cipher_context->provider_context->lib_ctx, DEFAULT_OAEP_DIGEST, NULL);
-
-        EVP_MD* oaep_mgf1_md = asym_cipher_context->oaep_mgf1_md != NULL ? oaep_md : asym_cipher_context->oaep_md;
+        const EVP_MD* oaep_md = asym_cipher_context->oaep_md != NULL ? asym_cipher_context->oaep_md : EVP_sha1();
+        const EVP_MD* oaep_mgf1_md = asym_cipher_context->oaep_mgf1_md != NULL ? asym_cipher_context->oaep_mgf1_md : oaep_md;
         parameters_rsa_oaep.digest_algorithm = digest_algorithm_from_md(oaep_md);
         parameters_rsa_oaep.mgf1_digest_algorithm = digest_algorithm_from_md(oaep_mgf1_md);
         parameters_rsa_oaep.label = asym_cipher_context->oaep_label;
         parameters_rsa_oaep.label_length = asym_cipher_context->oaep_label_length;
         parameters = &parameters_rsa_oaep;
-    } else {
+    } else if (asym_cipher_context->padding_mode == RSA_PKCS1_PADDING) {
         cipher_algorithm = SA_CIPHER_ALGORITHM_RSA_PKCS1V15;
+    } else {
+        ERROR("Unsupported padding mode");
+        return 0;
     }
 
     sa_crypto_cipher_context cipher_context;
-- 
2.43.0


From 7078418a9963d893b861c2d5cc4718b280ba7ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:16 +0000
Subject: [PATCH 75/89] fix: copy the label of a provider RSA context and free
 its replaced key

---
 .../src/client/src/sa_provider_asym_cipher.c  | 32 ++++++++++++-------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/reference/src/client/src/sa_provider_asym_cipher.c b/reference/src/client/src/sa_provider_asym_cipher.c
index b6aad14..bf78302 100644
--- a/reference/src/client/src/sa_provider_asym_cipher.c
+++ b/reference/src/client/src/sa_provider_asym_cipher.c
@@ -119,20 +119,29 @@ static void* asym_cipher_dupctx(void* ctx) {
 
     new_asym_cipher_context->provider_context = asym_cipher_context->provider_context;
     new_asym_cipher_context->cipher_algorithm = asym_cipher_context->cipher_algorithm;
-    new_asym_cipher_context->key_data = sa_provider_key_data_dup(asym_cipher_context->key_data);
+    if (asym_cipher_context->key_data != NULL)
+        new_asym_cipher_context->key_data = sa_provider_key_data_dup(asym_cipher_context->key_data);
+
     new_asym_cipher_context->padding_mode = asym_cipher_context->padding_mode;
     new_asym_cipher_context->oaep_md = asym_cipher_context->oaep_md;
-    EVP_MD_up_ref(new_asym_cipher_context->oaep_md);
+    if (new_asym_cipher_context->oaep_md != NULL)
+        EVP_MD_up_ref(new_asym_cipher_context->oaep_md);
+
     new_asym_cipher_context->oaep_mgf1_md = asym_cipher_context->oaep_mgf1_md;
-    EVP_MD_up_ref(new_asym_cipher_context->oaep_mgf1_md);
-    new_asym_cipher_context->oaep_label_length = asym_cipher_context->oaep_label_length;
-    new_asym_cipher_context->oaep_label = OPENSSL_malloc(new_asym_cipher_context->oaep_label_length);
-    if (new_asym_cipher_context->oaep_label == NULL) {
-        ERROR("OPENSSL_malloc failed");
-        EVP_MD_free(new_asym_cipher_context->oaep_md);
-        EVP_MD_free(new_asym_cipher_context->oaep_mgf1_md);
-        OPENSSL_free(new_asym_cipher_context);
-        return NULL;
+    if (new_asym_cipher_context->oaep_mgf1_md != NULL)
+        EVP_MD_up_ref(new_asym_cipher_context->oaep_mgf1_md);
+
+    if (asym_cipher_context->oaep_label != NULL && asym_cipher_context->oaep_label_length > 0) {
+        new_asym_cipher_context->oaep_label_length = asym_cipher_context->oaep_label_length;
+        new_asym_cipher_context->oaep_label = OPENSSL_malloc(new_asym_cipher_context->oaep_label_length);
+        if (new_asym_cipher_context->oaep_label == NULL) {
+            ERROR("OPENSSL_malloc failed");
+            asym_cipher_freectx(new_asym_cipher_context);
+            return NULL;
+        }
+
+        memcpy(new_asym_cipher_context->oaep_label, asym_cipher_context->oaep_label,
+                asym_cipher_context->oaep_label_length);
     }
 
     return new_asym_cipher_context;
@@ -154,6 +163,7 @@ static int asym_cipher_encrypt_init(
     }
 
     sa_provider_asym_cipher_context* asym_cipher_context = ctx;
+    sa_provider_key_data_free(asym_cipher_context->key_data);
     asym_cipher_context->key_data = sa_provider_key_data_dup(provkey);
     return asym_cipher_set_ctx_params(ctx, params);
 }
-- 
2.43.0


From d74f7e4925de6b4249179a9debafdba9a72d6db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:16 +0000
Subject: [PATCH 76/89] fix: report the padding mode of a provider RSA context
 and refuse unknown ones

---
 reference/src/client/src/sa_provider_asym_cipher.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/reference/src/client/src/sa_provider_asym_cipher.c b/reference/src/client/src/sa_provider_asym_cipher.c
index bf78302..2133e4f 100644
--- a/reference/src/client/src/sa_provider_asym_cipher.c
+++ b/reference/src/client/src/sa_provider_asym_cipher.c
@@ -363,7 +363,7 @@ static int asym_cipher_get_ctx_params(
     if (param != NULL) {
         switch (param->data_type) {
             case OSSL_PARAM_INTEGER:
-                if (OSSL_PARAM_set_int(param, asym_cipher_context->padding_mode)) {
+                if (OSSL_PARAM_set_int(param, asym_cipher_context->padding_mode) != 1) {
                     ERROR("OSSL_PARAM_set_int failed");
                     return 0;
                 }
@@ -506,6 +506,12 @@ static int asym_cipher_set_ctx_params(
                 return 0;
         }
 
+        if (padding_mode != RSA_PKCS1_PADDING && padding_mode != RSA_NO_PADDING &&
+                padding_mode != RSA_PKCS1_OAEP_PADDING) {
+            ERROR("Unsupported padding mode");
+            return 0;
+        }
+
         asym_cipher_context->padding_mode = padding_mode;
     }
 
-- 
2.43.0


From 36d42fb08ff263dd460320f4043b1f6180feb823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:16 +0000
Subject: [PATCH 77/89] fix: MGF1 of provider PSS signatures follows the digest
 by default

---
 reference/src/client/src/sa_provider_signature.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reference/src/client/src/sa_provider_signature.c b/reference/src/client/src/sa_provider_signature.c
index 9ee41b6..64ec6c3 100644
--- a/reference/src/client/src/sa_provider_signature.c
+++ b/reference/src/client/src/sa_provider_signature.c
@@ -257,7 +257,7 @@ static int signature_sign(
                     parameters_rsa_pss.digest_algorithm = SA_DIGEST_ALGORITHM_SHA256;
 
                 if (parameters_rsa_pss.mgf1_digest_algorithm == UINT32_MAX)
-                    parameters_rsa_pss.mgf1_digest_algorithm = SA_DIGEST_ALGORITHM_SHA256;
+                    parameters_rsa_pss.mgf1_digest_algorithm = parameters_rsa_pss.digest_algorithm;
 
                 parameters_rsa_pss.precomputed_digest = true;
                 int salt_length;
-- 
2.43.0


From e60127f99f73a8319be56433b132761902652e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:16 +0000
Subject: [PATCH 78/89] fix: provider signatures never write more than the
 given size

---
 .../src/client/src/sa_provider_signature.c    | 23 ++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/reference/src/client/src/sa_provider_signature.c b/reference/src/client/src/sa_provider_signature.c
index 64ec6c3..93b549b 100644
--- a/reference/src/client/src/sa_provider_signature.c
+++ b/reference/src/client/src/sa_provider_signature.c
@@ -211,7 +211,7 @@ static int signature_sign(
         void* ctx,
         unsigned char* sig,
         size_t* siglen,
-        ossl_unused size_t sigsize,
+        size_t sigsize,
         const unsigned char* tbs,
         size_t tbslen) {
 
@@ -324,17 +324,34 @@ static int signature_sign(
         // Take the SecApi 3 signature and encode it like OpenSSL would so that it looks like it came from
         // OpenSSL
         if (sig != NULL) {
-            if (!ec_encode_signature(sig, siglen, local_signature, local_signature_length)) {
+            uint8_t encoded_signature[MAX_SIGNATURE_LENGTH];
+            size_t encoded_signature_length = MAX_SIGNATURE_LENGTH;
+            if (!ec_encode_signature(encoded_signature, &encoded_signature_length, local_signature,
+                        local_signature_length)) {
                 ERROR("ec_encode_signature failed");
                 return 0;
             }
+
+            if (encoded_signature_length > sigsize) {
+                ERROR("sig too short");
+                return 0;
+            }
+
+            memcpy(sig, encoded_signature, encoded_signature_length);
+            *siglen = encoded_signature_length;
         } else {
             // Add the most number of bytes that can be added by ASN.1 encoding (9). It could be as few as 6.
             *siglen = local_signature_length + 9;
         }
     } else {
-        if (sig != NULL)
+        if (sig != NULL) {
+            if (local_signature_length > sigsize) {
+                ERROR("sig too short");
+                return 0;
+            }
+
             memcpy(sig, local_signature, local_signature_length);
+        }
 
         *siglen = local_signature_length;
     }
-- 
2.43.0


From 11cb93195e43e875fa15f8373321a2285b56d426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:16 +0000
Subject: [PATCH 79/89] fix: provider signatures report failing initialisation
 and free replaced keys

---
 reference/src/client/src/sa_provider_signature.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/reference/src/client/src/sa_provider_signature.c b/reference/src/client/src/sa_provider_signature.c
index 93b549b..11ee1ae 100644
--- a/reference/src/client/src/sa_provider_signature.c
+++ b/reference/src/client/src/sa_provider_signature.c
@@ -203,6 +203,7 @@ static int signature_sign_init(
     }
 
     sa_provider_signature_context* signature_context = ctx;
+    sa_provider_key_data_free(signature_context->key_data);
     signature_context->key_data = sa_provider_key_data_dup(provkey);
     return signature_set_ctx_params(ctx, params);
 }
@@ -517,10 +518,11 @@ static int signature_digest_sign_init(
         EVP_MD_CTX_free(signature_context->evp_md_ctx);
         signature_context->evp_md = NULL;
         signature_context->evp_md_ctx = NULL;
+        sa_provider_key_data_free(signature_context->key_data);
         signature_context->key_data = NULL;
     }
 
-    return 1;
+    return result;
 }
 
 static int signature_digest_sign_update(
-- 
2.43.0


From dd31e6e84818e45f2819dfedca41ff6c32251743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:16 +0000
Subject: [PATCH 80/89] fix: copy provider signature contexts without digest
 and return NULL if copying fails

---
 .../src/client/src/sa_provider_signature.c    | 54 ++++++++++---------
 1 file changed, 30 insertions(+), 24 deletions(-)

diff --git a/reference/src/client/src/sa_provider_signature.c b/reference/src/client/src/sa_provider_signature.c
index 11ee1ae..8c1b476 100644
--- a/reference/src/client/src/sa_provider_signature.c
+++ b/reference/src/client/src/sa_provider_signature.c
@@ -146,30 +146,38 @@ static void* signature_dupctx(void* ctx) {
         }
 
         new_signature_context->provider_context = signature_context->provider_context;
-        new_signature_context->key_data = sa_provider_key_data_dup(signature_context->key_data);
-        new_signature_context->evp_md_ctx = EVP_MD_CTX_new();
-        if (new_signature_context->evp_md_ctx == NULL) {
-            ERROR("EVP_MD_CTX_new failed");
-            break;
-        }
+        if (signature_context->key_data != NULL)
+            new_signature_context->key_data = sa_provider_key_data_dup(signature_context->key_data);
 
-        if (EVP_MD_CTX_copy(new_signature_context->evp_md_ctx, signature_context->evp_md_ctx) != 1) {
-            ERROR("EVP_MD_CTX_copy failed");
-            break;
+        if (signature_context->evp_md_ctx != NULL) {
+            new_signature_context->evp_md_ctx = EVP_MD_CTX_new();
+            if (new_signature_context->evp_md_ctx == NULL) {
+                ERROR("EVP_MD_CTX_new failed");
+                break;
+            }
+
+            if (EVP_MD_CTX_copy(new_signature_context->evp_md_ctx, signature_context->evp_md_ctx) != 1) {
+                ERROR("EVP_MD_CTX_copy failed");
+                break;
+            }
         }
 
-        new_signature_context->evp_md = signature_context->evp_md;
-        if (new_signature_context->evp_md != NULL &&
-                EVP_MD_up_ref(new_signature_context->evp_md) != 1) {
-            ERROR("EVP_MD_up_ref failed");
-            break;
+        if (signature_context->evp_md != NULL) {
+            if (EVP_MD_up_ref(signature_context->evp_md) != 1) {
+                ERROR("EVP_MD_up_ref failed");
+                break;
+            }
+
+            new_signature_context->evp_md = signature_context->evp_md;
         }
 
-        new_signature_context->mgf1_md = signature_context->mgf1_md;
-        if (new_signature_context->mgf1_md != NULL &&
-                EVP_MD_up_ref(new_signature_context->mgf1_md) != 1) {
-            ERROR("EVP_MD_up_ref failed");
-            break;
+        if (signature_context->mgf1_md != NULL) {
+            if (EVP_MD_up_ref(signature_context->mgf1_md) != 1) {
+                ERROR("EVP_MD_up_ref failed");
+                break;
+            }
+
+            new_signature_context->mgf1_md = signature_context->mgf1_md;
         }
 
         new_signature_context->padding_mode = signature_context->padding_mode;
@@ -177,11 +185,9 @@ static void* signature_dupctx(void* ctx) {
         result = 1;
     } while (false);
 
-    if (result == 0 && new_signature_context != NULL) {
-        EVP_MD_CTX_free(new_signature_context->evp_md_ctx);
-        EVP_MD_free(new_signature_context->evp_md);
-        EVP_MD_free(new_signature_context->mgf1_md);
-        OPENSSL_free(new_signature_context);
+    if (result == 0) {
+        signature_freectx(new_signature_context);
+        new_signature_context = NULL;
     }
 
     return new_signature_context;
-- 
2.43.0


From 0dad97d75006b2d5702f3d206f055399ef11efea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:16 +0000
Subject: [PATCH 81/89] fix: compare both keys when the provider matches keys

---
 reference/src/client/src/sa_provider_keymgt.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/reference/src/client/src/sa_provider_keymgt.c b/reference/src/client/src/sa_provider_keymgt.c
index 2ceb34d..a1f0148 100644
--- a/reference/src/client/src/sa_provider_keymgt.c
+++ b/reference/src/client/src/sa_provider_keymgt.c
@@ -279,7 +279,7 @@ static int keymgmt_has(
 static int keymgmt_match(
         const void* keydata1,
         const void* keydata2,
-        ossl_unused int selection) {
+        int selection) {
 
     if (keydata1 == NULL) {
         ERROR("NULL keydata1");
@@ -292,8 +292,15 @@ static int keymgmt_match(
     }
 
     const sa_provider_key_data* key_data1 = keydata1;
-    const sa_provider_key_data* key_data2 = keydata1;
-    return key_data1->private_key == key_data2->private_key;
+    const sa_provider_key_data* key_data2 = keydata2;
+    if (key_data1->public_key == NULL || key_data2->public_key == NULL)
+        return key_data1->private_key == key_data2->private_key;
+
+    // The public key decides, the handles of two copies of a key differ.
+    if ((selection & OSSL_KEYMGMT_SELECT_KEYPAIR) != 0)
+        return EVP_PKEY_eq(key_data1->public_key, key_data2->public_key) == 1;
+
+    return EVP_PKEY_parameters_eq(key_data1->public_key, key_data2->public_key) == 1;
 }
 
 static int keymgmt_import(
-- 
2.43.0


From 9f37e8ddcbe59cd2b64960da98c7486af6d7d1e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:41 +0000
Subject: [PATCH 82/89] fix: refuse DH parameters that do not fit when they are
 imported into the provider, free them once

---
 reference/src/client/src/sa_provider_keymgt.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/reference/src/client/src/sa_provider_keymgt.c b/reference/src/client/src/sa_provider_keymgt.c
index a1f0148..0756255 100644
--- a/reference/src/client/src/sa_provider_keymgt.c
+++ b/reference/src/client/src/sa_provider_keymgt.c
@@ -441,7 +441,11 @@ static int keymgmt_import(
 
                     if (OSSL_PARAM_get_BN(g_param, &g) != 1) {
                         ERROR("OSSL_PARAM_get_BN failed");
-                        BN_free(p);
+                        break;
+                    }
+
+                    if (BN_num_bytes(p) > DH_MAX_MOD_SIZE || BN_num_bytes(g) > DH_MAX_MOD_SIZE) {
+                        ERROR("Invalid DH parameters");
                         break;
                     }
 
-- 
2.43.0


From 9e2767faff1829f68f937316772aded3987d163d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:41 +0000
Subject: [PATCH 83/89] fix: report refused key generation parameters of the
 provider

---
 reference/src/client/src/sa_provider_keymgt.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/reference/src/client/src/sa_provider_keymgt.c b/reference/src/client/src/sa_provider_keymgt.c
index 0756255..b0f3b3f 100644
--- a/reference/src/client/src/sa_provider_keymgt.c
+++ b/reference/src/client/src/sa_provider_keymgt.c
@@ -841,7 +841,12 @@ static void* keymgmt_gen_init(
             return NULL;
     }
 
-    keymgmt_gen_set_params(key_gen_context, params);
+    if (keymgmt_gen_set_params(key_gen_context, params) != 1) {
+        ERROR("keymgmt_gen_set_params failed");
+        OPENSSL_free(key_gen_context);
+        return NULL;
+    }
+
     return key_gen_context;
 }
 
-- 
2.43.0


From 252d9c56c52ab0d3943aae0e59e5f63b53701aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:42 +0000
Subject: [PATCH 84/89] fix: algorithm identifier of provider RSA signatures
 with SHA1

---
 reference/src/client/src/sa_provider_signature.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reference/src/client/src/sa_provider_signature.c b/reference/src/client/src/sa_provider_signature.c
index 8c1b476..0a200e2 100644
--- a/reference/src/client/src/sa_provider_signature.c
+++ b/reference/src/client/src/sa_provider_signature.c
@@ -72,7 +72,7 @@ ossl_unused static OSSL_FUNC_signature_gettable_ctx_md_params_fn signature_getta
 ossl_unused static OSSL_FUNC_signature_set_ctx_md_params_fn signature_set_ctx_md_params;
 ossl_unused static OSSL_FUNC_signature_settable_ctx_md_params_fn signature_settable_ctx_md_params;
 
-static uint8_t rsa_sha1_oid[] = {0x30, 0x0d, 0x06, 0x09, 0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 0x01, 0x01, 0x0b, 0x05,
+static uint8_t rsa_sha1_oid[] = {0x30, 0x0d, 0x06, 0x09, 0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 0x01, 0x01, 0x05, 0x05,
         0x00};
 static uint8_t rsa_sha256_oid[] = {0x30, 0x0d, 0x06, 0x09, 0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 0x01, 0x01, 0x0b, 0x05,
         0x00};
-- 
2.43.0


From 748b98d24f3f4512c7ca20a9b1af343a319ec878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:56 +0000
Subject: [PATCH 85/89] fix: provider KBKDF starts with the first block

---
 reference/src/client/src/sa_provider_kdf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reference/src/client/src/sa_provider_kdf.c b/reference/src/client/src/sa_provider_kdf.c
index ef08ffe..348df22 100644
--- a/reference/src/client/src/sa_provider_kdf.c
+++ b/reference/src/client/src/sa_provider_kdf.c
@@ -309,7 +309,7 @@ int kdf_derive(
                 }
 
                 parameters_cmac.key_length = keylen;
-                parameters_cmac.counter = (keylen / SYM_128_KEY_SIZE) + (keylen % SYM_128_KEY_SIZE == 0 ? 0 : 1);
+                parameters_cmac.counter = 1;
                 parameters_cmac.parent = kdf_context->key;
                 parameters_cmac.other_data_length = position;
                 parameters_cmac.other_data = other_data;
-- 
2.43.0


From 9b5a2e9c74aca57d5feb7e1ba25a0596b81a8039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:56 +0000
Subject: [PATCH 86/89] fix: signature parameters of the provider can be asked
 before a digest is set

---
 .../src/client/src/sa_provider_signature.c    | 23 ++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/reference/src/client/src/sa_provider_signature.c b/reference/src/client/src/sa_provider_signature.c
index 0a200e2..a77e542 100644
--- a/reference/src/client/src/sa_provider_signature.c
+++ b/reference/src/client/src/sa_provider_signature.c
@@ -769,10 +769,16 @@ static int signature_get_ctx_params(
     sa_provider_signature_context* signature_context = ctx;
     OSSL_PARAM* param = OSSL_PARAM_locate(params, OSSL_SIGNATURE_PARAM_ALGORITHM_ID);
     if (param != NULL) {
+        if (signature_context->key_data == NULL) {
+            ERROR("NULL key_data");
+            return 0;
+        }
+
+        const int md_type = signature_context->evp_md != NULL ? EVP_MD_get_type(signature_context->evp_md) : NID_undef;
         uint8_t* algorithm_id = NULL;
         size_t algorithm_id_length = 0;
         if (signature_context->key_data->type == EVP_PKEY_RSA) {
-            switch (EVP_MD_get_type(signature_context->evp_md)) {
+            switch (md_type) {
                 case NID_sha1:
                     algorithm_id = rsa_sha1_oid;
                     algorithm_id_length = sizeof(rsa_sha1_oid);
@@ -797,7 +803,7 @@ static int signature_get_ctx_params(
                     break;
             }
         } else if (signature_context->key_data->type == EVP_PKEY_EC) {
-            switch (EVP_MD_get_type(signature_context->evp_md)) {
+            switch (md_type) {
                 case NID_sha1:
                     algorithm_id = ecdsa_sha1_oid;
                     algorithm_id_length = sizeof(ecdsa_sha1_oid);
@@ -829,6 +835,11 @@ static int signature_get_ctx_params(
             algorithm_id_length = sizeof(eddsa_ed448_oid);
         }
 
+        if (algorithm_id == NULL) {
+            ERROR("No algorithm identifier");
+            return 0;
+        }
+
         if (!OSSL_PARAM_set_octet_string(param, algorithm_id, algorithm_id_length)) {
             ERROR("OSSL_PARAM_set_octet_string failed");
             return 0;
@@ -879,6 +890,11 @@ static int signature_get_ctx_params(
 
     param = OSSL_PARAM_locate(params, OSSL_SIGNATURE_PARAM_DIGEST_SIZE);
     if (param != NULL) {
+        if (signature_context->evp_md == NULL) {
+            ERROR("NULL evp_md");
+            return 0;
+        }
+
         size_t digest_size = EVP_MD_get_size(signature_context->evp_md);
         if (OSSL_PARAM_set_size_t(param, digest_size) != 1) {
             ERROR("OSSL_PARAM_set_size_t failed");
@@ -888,7 +904,8 @@ static int signature_get_ctx_params(
 
     param = OSSL_PARAM_locate(params, OSSL_SIGNATURE_PARAM_MGF1_DIGEST);
     if (param != NULL) {
-        const char* md_name = EVP_MD_get0_name(signature_context->mgf1_md);
+        const char* md_name = EVP_MD_get0_name(
+                signature_context->mgf1_md != NULL ? signature_context->mgf1_md : signature_context->evp_md);
         if (md_name == NULL) {
             ERROR("NULL md_name");
             return 0;
-- 
2.43.0


From 19fde3cfbfbfe7d3f8021d0e581ecabfeb2b37bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:06 +0000
Subject: [PATCH 87/89] fix: names of digests and curves in the provider

---
 reference/src/client/src/sa_provider_kdf.c    |  4 +
 reference/src/client/src/sa_provider_keymgt.c | 74 ++++++++-----------
 reference/src/util/src/digest_util.c          | 34 ++++++---
 3 files changed, 56 insertions(+), 56 deletions(-)

diff --git a/reference/src/client/src/sa_provider_kdf.c b/reference/src/client/src/sa_provider_kdf.c
index 348df22..4123afd 100644
--- a/reference/src/client/src/sa_provider_kdf.c
+++ b/reference/src/client/src/sa_provider_kdf.c
@@ -455,6 +455,10 @@ int kdf_set_ctx_params(
         }
 
         kdf_context->digest_algorithm = digest_algorithm_from_name(name);
+        if (kdf_context->digest_algorithm == (sa_digest_algorithm) UINT32_MAX) {
+            ERROR("Unknown digest");
+            return 0;
+        }
     }
 
     param = OSSL_PARAM_locate_const(params, OSSL_KDF_PARAM_SALT);
diff --git a/reference/src/client/src/sa_provider_keymgt.c b/reference/src/client/src/sa_provider_keymgt.c
index b0f3b3f..f876464 100644
--- a/reference/src/client/src/sa_provider_keymgt.c
+++ b/reference/src/client/src/sa_provider_keymgt.c
@@ -129,50 +129,6 @@ ossl_unused static OSSL_FUNC_keymgmt_gen_settable_params_fn keymgmt_ed448_gen_se
 ossl_unused static OSSL_FUNC_keymgmt_gen_fn keymgmt_gen;
 ossl_unused static OSSL_FUNC_keymgmt_gen_cleanup_fn keymgmt_gen_cleanup;
 
-static sa_elliptic_curve ec_get_curve_from_type(EVP_PKEY* evp_pkey) {
-    int type = EVP_PKEY_get_id(evp_pkey);
-    char group_name[MAX_NAME_SIZE];
-    size_t group_name_length = 0;
-
-    switch (type) {
-        case EVP_PKEY_X25519:
-            return SA_ELLIPTIC_CURVE_X25519;
-
-        case EVP_PKEY_X448:
-            return SA_ELLIPTIC_CURVE_X448;
-
-        case EVP_PKEY_ED25519:
-            return SA_ELLIPTIC_CURVE_ED25519;
-
-        case EVP_PKEY_ED448:
-            return SA_ELLIPTIC_CURVE_ED448;
-
-        case EVP_PKEY_EC:
-            if (EVP_PKEY_get_group_name(evp_pkey, group_name, MAX_NAME_SIZE, &group_name_length) != 1)
-                return UINT32_MAX;
-
-            if (strcmp(group_name, "P-192") == 0)
-                return SA_ELLIPTIC_CURVE_NIST_P192;
-
-            if (strcmp(group_name, "P-224") == 0)
-                return SA_ELLIPTIC_CURVE_NIST_P224;
-
-            if (strcmp(group_name, "P-256") == 0)
-                return SA_ELLIPTIC_CURVE_NIST_P256;
-
-            if (strcmp(group_name, "P-384") == 0)
-                return SA_ELLIPTIC_CURVE_NIST_P384;
-
-            if (strcmp(group_name, "P-521") == 0)
-                return SA_ELLIPTIC_CURVE_NIST_P521;
-
-            return UINT32_MAX;
-
-        default:
-            return UINT32_MAX;
-    }
-}
-
 static sa_elliptic_curve ec_get_curve_from_name(const char* name) {
     if (strcmp("prime192v1", name) == 0 || strcmp("P-192", name) == 0)
         return SA_ELLIPTIC_CURVE_NIST_P192;
@@ -204,6 +160,36 @@ static sa_elliptic_curve ec_get_curve_from_name(const char* name) {
     return UINT32_MAX;
 }
 
+static sa_elliptic_curve ec_get_curve_from_type(EVP_PKEY* evp_pkey) {
+    int type = EVP_PKEY_get_id(evp_pkey);
+    char group_name[MAX_NAME_SIZE];
+    size_t group_name_length = 0;
+
+    switch (type) {
+        case EVP_PKEY_X25519:
+            return SA_ELLIPTIC_CURVE_X25519;
+
+        case EVP_PKEY_X448:
+            return SA_ELLIPTIC_CURVE_X448;
+
+        case EVP_PKEY_ED25519:
+            return SA_ELLIPTIC_CURVE_ED25519;
+
+        case EVP_PKEY_ED448:
+            return SA_ELLIPTIC_CURVE_ED448;
+
+        case EVP_PKEY_EC:
+            if (EVP_PKEY_get_group_name(evp_pkey, group_name, MAX_NAME_SIZE, &group_name_length) != 1)
+                return UINT32_MAX;
+
+            // Depending on where the key comes from the group has its NIST name or another one.
+            return ec_get_curve_from_name(group_name);
+
+        default:
+            return UINT32_MAX;
+    }
+}
+
 static void* keymgmt_new(
         int type,
         const char* name,
diff --git a/reference/src/util/src/digest_util.c b/reference/src/util/src/digest_util.c
index 2c86086..c5236b7 100644
--- a/reference/src/util/src/digest_util.c
+++ b/reference/src/util/src/digest_util.c
@@ -20,7 +20,7 @@
 #include "common.h"
 #include "log.h"
 #include <openssl/evp.h>
-#include <string.h>
+#include <strings.h>
 
 sa_digest_algorithm digest_algorithm_from_md(const EVP_MD* evp_md) {
     if (evp_md != NULL) {
@@ -105,17 +105,27 @@ size_t digest_length(sa_digest_algorithm digest_algorithm) {
 }
 
 sa_digest_algorithm digest_algorithm_from_name(const char* name) {
-    if (strncmp(name, "SHA1", 4) == 0 || strncmp(name, "SHA-1", 5) == 0)
-        return SA_DIGEST_ALGORITHM_SHA1;
-
-    if (strncmp(name, "SHA256", 6) == 0 || strncmp(name, "SHA2-256", 7) == 0 || strncmp(name, "SHA-256", 7) == 0)
-        return SA_DIGEST_ALGORITHM_SHA256;
-
-    if (strncmp(name, "SHA384", 6) == 0 || strncmp(name, "SHA2-384", 7) == 0 || strncmp(name, "SHA-384", 7) == 0)
-        return SA_DIGEST_ALGORITHM_SHA384;
-
-    if (strncmp(name, "SHA512", 6) == 0 || strncmp(name, "SHA2-512", 7) == 0 || strncmp(name, "SHA-512", 7) == 0)
-        return SA_DIGEST_ALGORITHM_SHA512;
+    static const struct {
+        const char* name;
+        sa_digest_algorithm digest_algorithm;
+    } names[] = {
+            {"SHA1", SA_DIGEST_ALGORITHM_SHA1},
+            {"SHA-1", SA_DIGEST_ALGORITHM_SHA1},
+            {"SSL3-SHA1", SA_DIGEST_ALGORITHM_SHA1},
+            {"SHA256", SA_DIGEST_ALGORITHM_SHA256},
+            {"SHA2-256", SA_DIGEST_ALGORITHM_SHA256},
+            {"SHA-256", SA_DIGEST_ALGORITHM_SHA256},
+            {"SHA384", SA_DIGEST_ALGORITHM_SHA384},
+            {"SHA2-384", SA_DIGEST_ALGORITHM_SHA384},
+            {"SHA-384", SA_DIGEST_ALGORITHM_SHA384},
+            {"SHA512", SA_DIGEST_ALGORITHM_SHA512},
+            {"SHA2-512", SA_DIGEST_ALGORITHM_SHA512},
+            {"SHA-512", SA_DIGEST_ALGORITHM_SHA512}};
+
+    // Names of algorithms are not case-sensitive in OpenSSL.
+    for (size_t i = 0; name != NULL && i < sizeof(names) / sizeof(names[0]); i++)
+        if (strcasecmp(name, names[i].name) == 0)
+            return names[i].digest_algorithm;
 
     return UINT32_MAX;
 }
-- 
2.43.0


From 46e1cd2cfc800d5165e73ac61c9b6a5c9f1179bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:40 +0000
Subject: [PATCH 88/89] fix: provider RSA encryption never writes more than the
 given size

---
 reference/src/client/src/sa_provider_asym_cipher.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/reference/src/client/src/sa_provider_asym_cipher.c b/reference/src/client/src/sa_provider_asym_cipher.c
index 2133e4f..7e6c54a 100644
--- a/reference/src/client/src/sa_provider_asym_cipher.c
+++ b/reference/src/client/src/sa_provider_asym_cipher.c
@@ -172,7 +172,7 @@ static int asym_cipher_encrypt(
         void* ctx,
         unsigned char* out,
         size_t* outlen,
-        ossl_unused size_t outsize,
+        size_t outsize,
         const unsigned char* in,
         size_t inlen) {
 
@@ -197,6 +197,11 @@ static int asym_cipher_encrypt(
         return 0;
     }
 
+    if (out != NULL && outsize < (size_t) EVP_PKEY_get_size(asym_cipher_context->key_data->public_key)) {
+        ERROR("out too short");
+        return 0;
+    }
+
     int result = 0;
     EVP_PKEY_CTX* encrypt_pkey_ctx = NULL;
     do {
-- 
2.43.0


From ee9ef265bb9cd82720ee7dc49008adcae7eeb82e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:33 +0000
Subject: [PATCH 89/89] fix: a provider KDF without digest accepts any digest
 name

---
 reference/src/client/src/sa_provider_kdf.c | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/reference/src/client/src/sa_provider_kdf.c b/reference/src/client/src/sa_provider_kdf.c
index 4123afd..348df22 100644
--- a/reference/src/client/src/sa_provider_kdf.c
+++ b/reference/src/client/src/sa_provider_kdf.c
@@ -455,10 +455,6 @@ int kdf_set_ctx_params(
         }
 
         kdf_context->digest_algorithm = digest_algorithm_from_name(name);
-        if (kdf_context->digest_algorithm == (sa_digest_algorithm) UINT32_MAX) {
-            ERROR("Unknown digest");
-            return 0;
-        }
     }
 
     param = OSSL_PARAM_locate_const(params, OSSL_KDF_PARAM_SALT);
-- 
2.43.0

