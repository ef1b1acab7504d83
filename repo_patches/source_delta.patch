From 0c9de1c4db37e6f542c802c7aaa005b19b30c421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:41 +0000
Subject: [PATCH 01/42] fix: plugin::open() deadlocked when the object already
 had a plug-in open

---
 src/plugin.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/plugin.cpp b/src/plugin.cpp
index ab18041..9798357 100644
--- a/src/plugin.cpp
+++ b/src/plugin.cpp
@@ -90,9 +90,11 @@ void plugin::open(const std::string& plugin_name)
         boost::mutex::scoped_lock plugin_lock(cfg.m_plugin_mutex);
         map_type::iterator itr = cfg.m_plugin_map.find(plugin_name);
         if (itr != cfg.m_plugin_map.end()) {
+            data_type *plugin_data = itr->second;
+            ++ plugin_data->m_references;
+            plugin_lock.unlock();   // release_data() acquires the mutex
             release_data();  // make sure we're not already pointing to something
-            m_plugin_data = itr->second;
-            ++ m_plugin_data->m_references;
+            m_plugin_data = plugin_data;
             return;
         }
     }
-- 
2.43.0


From 499057992bbd759303aaf8d6c7796c7150f1e3c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:41 +0000
Subject: [PATCH 02/42] fix: plugin_instance_ptr::reset() left a dangling
 instance pointer behind

---
 include/pion/plugin.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/pion/plugin.hpp b/include/pion/plugin.hpp
index 8efd424..c1a0b50 100644
--- a/include/pion/plugin.hpp
+++ b/include/pion/plugin.hpp
@@ -367,6 +367,7 @@ public:
     inline void reset(void) { 
         if (m_instance_ptr) {
             m_plugin_ptr.destroy(m_instance_ptr);
+            m_instance_ptr = NULL;
         }
     }
     
-- 
2.43.0


From 2d5b6bcf00a930c27e604549c2a080447404409c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:41 +0000
Subject: [PATCH 03/42] fix: assigning a plugin to itself released the plug-in

---
 src/plugin.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/plugin.cpp b/src/plugin.cpp
index 9798357..f4fde33 100644
--- a/src/plugin.cpp
+++ b/src/plugin.cpp
@@ -169,6 +169,8 @@ void plugin::release_data(void)
 
 void plugin::grab_data(const plugin& p)
 {
+    if (&p == this)
+        return;     // self-assignment must not drop the plug-in
     release_data();  // make sure we're not already pointing to something
     config_type& cfg = get_plugin_config();
     boost::mutex::scoped_lock plugin_lock(cfg.m_plugin_mutex);
-- 
2.43.0


From 116ef0111f75c6e187efc584dd657820502afe4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:41 +0000
Subject: [PATCH 04/42] fix: plugin_manager::load() read the plug-in map
 without its lock and leaked the loser of a race

---
 include/pion/plugin_manager.hpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/pion/plugin_manager.hpp b/include/pion/plugin_manager.hpp
index 80ee545..6220f56 100644
--- a/include/pion/plugin_manager.hpp
+++ b/include/pion/plugin_manager.hpp
@@ -240,8 +240,11 @@ inline PluginType *plugin_manager<PluginType>::load(const std::string& plugin_id
                                                      const std::string& plugin_type)
 {
     // search for the plug-in file using the configured paths
-    if (m_plugin_map.find(plugin_id) != m_plugin_map.end())
-        BOOST_THROW_EXCEPTION( error::duplicate_plugin() << error::errinfo_plugin_name(plugin_id) );
+    {
+        boost::mutex::scoped_lock plugins_lock(m_plugin_mutex);
+        if (m_plugin_map.find(plugin_id) != m_plugin_map.end())
+            BOOST_THROW_EXCEPTION( error::duplicate_plugin() << error::errinfo_plugin_name(plugin_id) );
+    }
     
     // open up the plug-in's shared object library
     plugin_ptr<PluginType> plugin_ptr;
@@ -252,8 +255,13 @@ inline PluginType *plugin_manager<PluginType>::load(const std::string& plugin_id
     
     // add the new plug-in object to our map
     boost::mutex::scoped_lock plugins_lock(m_plugin_mutex);
-    m_plugin_map.insert(std::make_pair(plugin_id,
-                                       std::make_pair(plugin_object_ptr, plugin_ptr)));
+    if (! m_plugin_map.insert(std::make_pair(plugin_id,
+                                       std::make_pair(plugin_object_ptr, plugin_ptr))).second)
+    {
+        // another thread has added the same identifier in the meantime
+        plugin_ptr.destroy(plugin_object_ptr);
+        BOOST_THROW_EXCEPTION( error::duplicate_plugin() << error::errinfo_plugin_name(plugin_id) );
+    }
 
     return plugin_object_ptr;
 }
-- 
2.43.0


From 356eecdf83172a516ed733adf95409bc68131418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:41 +0000
Subject: [PATCH 05/42] fix: http::server read its redirects without the lock
 that add_redirect() takes

---
 src/http_server.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/http_server.cpp b/src/http_server.cpp
index ccfac53..f0bfba0 100644
--- a/src/http_server.cpp
+++ b/src/http_server.cpp
@@ -67,10 +67,12 @@ void server::handle_request(const http::request_ptr& http_request_ptr,
     std::string resource_requested(strip_trailing_slash(http_request_ptr->get_resource()));
 
     // apply any redirection
+    boost::mutex::scoped_lock redirect_lock(m_resource_mutex);
     redirect_map_t::const_iterator it = m_redirects.find(resource_requested);
     unsigned int num_redirects = 0;
     while (it != m_redirects.end()) {
         if (++num_redirects > MAX_REDIRECTS) {
+            redirect_lock.unlock();
             PION_LOG_ERROR(m_logger, "Maximum number of redirects (server::MAX_REDIRECTS) exceeded for requested resource: " << http_request_ptr->get_original_resource());
             m_server_error_handler(http_request_ptr, tcp_conn, "Maximum number of redirects (server::MAX_REDIRECTS) exceeded for requested resource");
             return;
@@ -79,6 +81,7 @@ void server::handle_request(const http::request_ptr& http_request_ptr,
         http_request_ptr->change_resource(resource_requested);
         it = m_redirects.find(resource_requested);
     }
+    redirect_lock.unlock();
 
     // if authentication activated, check current request
     if (m_auth_ptr) {
-- 
2.43.0


From 8dbd40be6e14bf0643a645e4a05076e527a46e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:41 +0000
Subject: [PATCH 06/42] fix: the authentication caches read their clean-up time
 outside the cache lock

---
 src/http_basic_auth.cpp  | 3 ++-
 src/http_cookie_auth.cpp | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/http_basic_auth.cpp b/src/http_basic_auth.cpp
index cb26648..dca595c 100644
--- a/src/http_basic_auth.cpp
+++ b/src/http_basic_auth.cpp
@@ -39,9 +39,9 @@ bool basic_auth::handle_request(const http::request_ptr& http_request_ptr, const
     }
     
     boost::posix_time::ptime time_now(boost::posix_time::second_clock::universal_time());
+    boost::mutex::scoped_lock cleanup_lock(m_cache_mutex);
     if (time_now > m_cache_cleanup_time + boost::posix_time::seconds(CACHE_EXPIRATION)) {
         // expire cache
-        boost::mutex::scoped_lock cache_lock(m_cache_mutex);
         user_cache_type::iterator i;
         user_cache_type::iterator next=m_user_cache.begin();
         while (next!=m_user_cache.end()) {
@@ -54,6 +54,7 @@ bool basic_auth::handle_request(const http::request_ptr& http_request_ptr, const
         }
         m_cache_cleanup_time = time_now;
     }
+    cleanup_lock.unlock();
     
     // if we are here, we need to check if access authorized...
     std::string authorization = http_request_ptr->get_header(http::types::HEADER_AUTHORIZATION);
diff --git a/src/http_cookie_auth.cpp b/src/http_cookie_auth.cpp
index 06f3b38..c5cfe7c 100644
--- a/src/http_cookie_auth.cpp
+++ b/src/http_cookie_auth.cpp
@@ -260,9 +260,9 @@ void cookie_auth::handle_ok(const http::request_ptr& http_request_ptr,
 
 void cookie_auth::expire_cache(const boost::posix_time::ptime &time_now)
 {
+    boost::mutex::scoped_lock cache_lock(m_cache_mutex);
     if (time_now > m_cache_cleanup_time + boost::posix_time::seconds(CACHE_EXPIRATION)) {
         // expire cache
-        boost::mutex::scoped_lock cache_lock(m_cache_mutex);
         user_cache_type::iterator i;
         user_cache_type::iterator next=m_user_cache.begin();
         while (next!=m_user_cache.end()) {
-- 
2.43.0


From 8f9055f1f4c8dd5f8c88d7318daa062f9adf6ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:53 +0000
Subject: [PATCH 07/42] fix: a kept-alive connection was handled while holding
 the server lock

---
 src/tcp_server.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tcp_server.cpp b/src/tcp_server.cpp
index 483b629..5508403 100644
--- a/src/tcp_server.cpp
+++ b/src/tcp_server.cpp
@@ -250,6 +250,8 @@ void server::finish_connection(const tcp::connection_ptr& tcp_conn)
     if (m_is_listening && tcp_conn->get_keep_alive()) {
         
         // keep the connection alive
+        // (unlock first: the handler may finish the connection or use the server)
+        server_lock.unlock();
         handle_connection(tcp_conn);
 
     } else {
-- 
2.43.0


From bf7a476ce9fa8e8cff9d3703f1e18056f589ffd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:24 +0000
Subject: [PATCH 08/42] fix: a request line ending in a space without a version
 was rejected

---
 src/http_parser.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/http_parser.cpp b/src/http_parser.cpp
index 9a796b5..33ff032 100644
--- a/src/http_parser.cpp
+++ b/src/http_parser.cpp
@@ -364,8 +364,9 @@ boost::tribool parser::parse_headers(http::message& http_msg,
             } else if (*m_read_ptr != 'H') {
                 set_error(ec, ERROR_VERSION_CHAR);
                 return false;
+            } else {
+                m_headers_parse_state = PARSE_HTTP_VERSION_T_1;
             }
-            m_headers_parse_state = PARSE_HTTP_VERSION_T_1;
             break;
 
         case PARSE_HTTP_VERSION_T_1:
-- 
2.43.0


From 6b170660814a00b1c22bac967f6c5f67b534a6f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:48 +0000
Subject: [PATCH 09/42] fix: chunked content beyond the maximum was never
 recognised as complete

---
 src/http_parser.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/http_parser.cpp b/src/http_parser.cpp
index 33ff032..001a0e6 100644
--- a/src/http_parser.cpp
+++ b/src/http_parser.cpp
@@ -1446,8 +1446,9 @@ boost::tribool parser::parse_chunks(http::message::chunk_cache_t& chunks,
                     m_payload_handler(m_read_ptr, len);
                     m_bytes_read_in_current_chunk += len;
                     if (len > 1) m_read_ptr += (len - 1);
-                } else if (chunks.size() < m_max_content_length) {
-                    chunks.push_back(*m_read_ptr);
+                } else {
+                    if (chunks.size() < m_max_content_length)
+                        chunks.push_back(*m_read_ptr);
                     m_bytes_read_in_current_chunk++;
                 }
             }
-- 
2.43.0


From 8342576cf0a17e8b0b041d2cae83bc3a1a1245b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:48 +0000
Subject: [PATCH 10/42] fix: footers after chunked content were left unread
 when a payload handler is set

---
 src/http_parser.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/http_parser.cpp b/src/http_parser.cpp
index 001a0e6..0eea723 100644
--- a/src/http_parser.cpp
+++ b/src/http_parser.cpp
@@ -89,8 +89,9 @@ boost::tribool parser::parse(http::message& http_msg,
                 rc = parse_chunks(http_msg.get_chunk_cache(), ec);
                 total_bytes_parsed += m_bytes_last_read;
                 // check if we have finished parsing all chunks
-                if (rc == true && !m_payload_handler) {
-                    http_msg.concatenate_chunks();
+                if (rc == true) {
+                    if (!m_payload_handler)
+                        http_msg.concatenate_chunks();
                     
                     // Handle footers if present
                     rc = ((m_message_parse_state == PARSE_FOOTERS) ?
-- 
2.43.0


From 8154fdce3453234c90346e6b1cc607ba4f5d490e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:48 +0000
Subject: [PATCH 11/42] fix: the text of a chunk size could grow without limit

---
 src/http_parser.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/http_parser.cpp b/src/http_parser.cpp
index 0eea723..0ddb1f4 100644
--- a/src/http_parser.cpp
+++ b/src/http_parser.cpp
@@ -1385,6 +1385,11 @@ boost::tribool parser::parse_chunks(http::message::chunk_cache_t& chunks,
 
         case PARSE_CHUNK_SIZE:
             if (is_hex_digit(*m_read_ptr)) {
+                // no more digits than a size can have
+                if (m_chunk_size_str.size() >= sizeof(m_size_of_current_chunk) * 2) {
+                    set_error(ec, ERROR_CHUNK_CHAR);
+                    return false;
+                }
                 m_chunk_size_str.push_back(*m_read_ptr);
             } else if (*m_read_ptr == '\x0D') {
                 m_chunked_content_parse_state = PARSE_EXPECTING_LF_AFTER_CHUNK_SIZE;
-- 
2.43.0


From 30b442ba4e8e9620c5ea3ac48b0e32182b2a05c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:25 +0000
Subject: [PATCH 12/42] fix: missing content was not counted for payload
 handlers and not filled in at the content limit

---
 src/http_parser.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/http_parser.cpp b/src/http_parser.cpp
index 0ddb1f4..0af4943 100644
--- a/src/http_parser.cpp
+++ b/src/http_parser.cpp
@@ -197,14 +197,13 @@ boost::tribool parser::parse_missing_data(http::message& http_msg,
                 if (m_payload_handler) {
                     for (std::size_t n = 0; n < len; ++n)
                         m_payload_handler(&MISSING_DATA_CHAR, 1);
-                } else if ( (m_bytes_content_read+len) <= m_max_content_length) {
-                    // use dummy content for missing data
-                    for (std::size_t n = 0; n < len; ++n)
-                        http_msg.get_content()[m_bytes_content_read++] = MISSING_DATA_CHAR;
                 } else {
-                    m_bytes_content_read += len;
+                    // use dummy content for missing data (as much as is stored)
+                    for (std::size_t n = m_bytes_content_read; n < m_bytes_content_read + len && n < m_max_content_length; ++n)
+                        http_msg.get_content()[n] = MISSING_DATA_CHAR;
                 }
 
+                m_bytes_content_read += len;
                 m_bytes_content_remaining -= len;
                 m_bytes_total_read += len;
                 m_bytes_last_read = len;
-- 
2.43.0


From 527b41483851e1a104b652843a98b64c4f19d8a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:48 +0000
Subject: [PATCH 13/42] fix: a content length of SIZE_MAX overflowed the
 content buffer allocation

---
 include/pion/http/message.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/pion/http/message.hpp b/include/pion/http/message.hpp
index 0df5977..2fa8b86 100644
--- a/include/pion/http/message.hpp
+++ b/include/pion/http/message.hpp
@@ -11,6 +11,7 @@
 #define __PION_HTTP_MESSAGE_HEADER__
 
 #include <iosfwd>
+#include <new>
 #include <vector>
 #include <cstring>
 #include <boost/cstdint.hpp>
@@ -541,15 +542,17 @@ protected:
         
         /// changes the size of the content buffer
         inline void resize(std::size_t len) {
-            m_len = len;
             if (len == 0) {
                 m_buf.reset();
                 m_ptr = &m_empty;
             } else {
+                if (len == static_cast<std::size_t>(-1))
+                    throw std::bad_alloc();     // no room for the null-terminator
                 m_buf.reset(new char[len+1]);
                 m_buf[len] = '\0';
                 m_ptr = m_buf.get();
             }
+            m_len = len;
         }
         
         /// clears the content buffer
-- 
2.43.0


From 582af4f08fc22526cfe6356bb5dbeee4e21f8aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:48 +0000
Subject: [PATCH 14/42] fix: assigning a message to itself lost its content

---
 include/pion/http/message.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/pion/http/message.hpp b/include/pion/http/message.hpp
index 2fa8b86..766baba 100644
--- a/include/pion/http/message.hpp
+++ b/include/pion/http/message.hpp
@@ -519,6 +519,9 @@ protected:
 
         /// assignment operator
         content_buffer_t& operator=(const content_buffer_t& buf) {
+            if (this == &buf) {
+                return *this;
+            }
             if (buf.size()) {
                 resize(buf.size());
                 memcpy(get(), buf.get(), buf.size());
-- 
2.43.0


From 443e87a78913e5ac0293173761bd730cf7bfc2b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:57 +0000
Subject: [PATCH 15/42] fix: an empty multipart form field made the parser
 throw

---
 src/http_parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/http_parser.cpp b/src/http_parser.cpp
index 0af4943..6e29369 100644
--- a/src/http_parser.cpp
+++ b/src/http_parser.cpp
@@ -1209,7 +1209,7 @@ bool parser::parse_multipart_form_data(ihash_multimap& dict,
                 if (next_ptr) {
                     // don't include CRLF before next boundary
                     const char *temp_ptr = next_ptr - 2;
-                    if (temp_ptr[0] == '\r' && temp_ptr[1] == '\n')
+                    if (next_ptr - ptr >= 2 && temp_ptr[0] == '\r' && temp_ptr[1] == '\n')
                         field_end_ptr = temp_ptr;
                     else field_end_ptr = next_ptr;
                 }
-- 
2.43.0


From 1f30bb05f14dcb89b63227c5231983abf3bfa7a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:57 +0000
Subject: [PATCH 16/42] fix: an oversized URI was reported as an oversized
 method

---
 include/pion/http/parser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pion/http/parser.hpp b/include/pion/http/parser.hpp
index 0286242..ff220df 100644
--- a/include/pion/http/parser.hpp
+++ b/include/pion/http/parser.hpp
@@ -85,7 +85,7 @@ public:
             case ERROR_URI_CHAR:
                 return "invalid URI character";
             case ERROR_URI_SIZE:
-                return "method exceeds maximum size";
+                return "URI exceeds maximum size";
             case ERROR_QUERY_CHAR:
                 return "invalid query string character";
             case ERROR_QUERY_SIZE:
-- 
2.43.0


From b876130186dc83ac51fa3fdeecdc3e7c17871397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:07:51 +0000
Subject: [PATCH 17/42] fix: SPDY headers were read past the end of the
 decompressed block

---
 include/pion/spdy/decompressor.hpp |  6 ++++++
 src/spdy_decompressor.cpp          |  4 +++-
 src/spdy_parser.cpp                | 24 ++++++++++++++++++++++++
 3 files changed, 33 insertions(+), 1 deletion(-)

diff --git a/include/pion/spdy/decompressor.hpp b/include/pion/spdy/decompressor.hpp
index eb88a6d..88d58b8 100644
--- a/include/pion/spdy/decompressor.hpp
+++ b/include/pion/spdy/decompressor.hpp
@@ -52,6 +52,9 @@ public:
                      const spdy_control_frame_info& frame,
                      boost::uint32_t header_block_length);
 
+    /// returns the number of bytes produced by the last successful decompress()
+    inline boost::uint32_t get_uncompressed_length(void) const { return m_uncompressed_length; }
+
     
 protected:
 
@@ -77,6 +80,9 @@ private:
     /// dictionary identifier
     boost::uint32_t                     m_dictionary_id;
     
+    /// number of bytes produced by the last successful decompress()
+    boost::uint32_t                     m_uncompressed_length;
+    
     /// Used for decompressing spdy headers
     boost::uint8_t                      m_uncompressed_header[MAX_UNCOMPRESSED_DATA_BUF_SIZE];
 
diff --git a/src/spdy_decompressor.cpp b/src/spdy_decompressor.cpp
index d1b4152..eb21775 100644
--- a/src/spdy_decompressor.cpp
+++ b/src/spdy_decompressor.cpp
@@ -40,7 +40,8 @@ const char decompressor::SPDY_ZLIB_DICTIONARY[] =
 // decompressor member functions
 
 decompressor::decompressor()
-    : m_request_zstream(NULL), m_response_zstream(NULL)
+    : m_request_zstream(NULL), m_response_zstream(NULL),
+    m_dictionary_id(0), m_uncompressed_length(0)
 {
     m_request_zstream = (z_streamp)malloc(sizeof(z_stream));
     BOOST_ASSERT(m_request_zstream);
@@ -125,6 +126,7 @@ char* decompressor::decompress(const char *compressed_data_ptr,
         // No need to call SetError()
         return NULL;
     }
+    m_uncompressed_length = uncomp_length;
     return reinterpret_cast<char*>(m_uncompressed_header);
 }
 
diff --git a/src/spdy_parser.cpp b/src/spdy_parser.cpp
index 172c83c..b6ab1d6 100644
--- a/src/spdy_parser.cpp
+++ b/src/spdy_parser.cpp
@@ -416,6 +416,15 @@ void parser::parse_header_payload(boost::system::error_code &ec,
     // The number of name/value pairs is 16 bit SPDYv2
     // and it is 32 bit in SPDYv3
     
+    // nothing beyond the end of the decompressed block may be read
+    const char * const uncompressed_end_ptr = m_uncompressed_ptr
+        + decompressor->get_uncompressed_length();
+    
+    if (uncompressed_end_ptr - m_uncompressed_ptr < 2) {
+        set_error(ec, ERROR_MISSING_HEADER_DATA);
+        return;
+    }
+    
     // TBD : Add support for SPDYv3
     boost::uint16_t num_name_val_pairs = algorithm::to_uint16(m_uncompressed_ptr);
     
@@ -426,6 +435,10 @@ void parser::parse_header_payload(boost::system::error_code &ec,
     
     for(boost::uint16_t count = 0; count < num_name_val_pairs; ++count){
         
+        if (uncompressed_end_ptr - m_uncompressed_ptr < 2) {
+            set_error(ec, ERROR_MISSING_HEADER_DATA);
+            return;
+        }
         
         // Get the length of the name
         boost::uint16_t length_name = algorithm::to_uint16(m_uncompressed_ptr);
@@ -433,6 +446,12 @@ void parser::parse_header_payload(boost::system::error_code &ec,
         
         m_uncompressed_ptr += 2;
         
+        // the name is followed by the length of the value
+        if (uncompressed_end_ptr - m_uncompressed_ptr < length_name + 2) {
+            set_error(ec, ERROR_MISSING_HEADER_DATA);
+            return;
+        }
+        
         {
             for(boost::uint16_t count = 0; count < length_name; ++count){
                 name.push_back(*(m_uncompressed_ptr+count));
@@ -446,6 +465,11 @@ void parser::parse_header_payload(boost::system::error_code &ec,
         
         m_uncompressed_ptr += 2;
         
+        if (uncompressed_end_ptr - m_uncompressed_ptr < length_value) {
+            set_error(ec, ERROR_MISSING_HEADER_DATA);
+            return;
+        }
+        
         {
             for(boost::uint16_t count = 0; count < length_value; ++count){
                 value.push_back(*(m_uncompressed_ptr+count));
-- 
2.43.0


From 49e321e83036980ec603d495ecfb84a69d22ad75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:07:54 +0000
Subject: [PATCH 18/42] fix: the length of a SPDY header block could wrap
 around

---
 src/spdy_parser.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/spdy_parser.cpp b/src/spdy_parser.cpp
index b6ab1d6..814905d 100644
--- a/src/spdy_parser.cpp
+++ b/src/spdy_parser.cpp
@@ -354,6 +354,13 @@ void parser::parse_header_payload(boost::system::error_code &ec,
     boost::uint32_t stream_id = 0;
     boost::uint32_t header_block_length = frame.length;
     
+    // the header block follows 10 (SYN_STREAM) or 6 bytes of other fields
+    if (frame.length < (frame.type == SPDY_SYN_STREAM ? 10U : 6U)) {
+        PION_LOG_ERROR(m_logger, "SPDY Frame is too short for a header block");
+        set_error(ec, ERROR_INVALID_SPDY_FRAME);
+        return;
+    }
+    
     // Get the 31 bit stream id
     
     boost::uint32_t four_bytes = algorithm::to_uint32(m_read_ptr);
-- 
2.43.0


From 59777029168c1d51fd63e19bdfa263eb9af6a8b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:09 +0000
Subject: [PATCH 19/42] fix: SPDY control frames were parsed past the end of
 the packet

---
 src/spdy_parser.cpp | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/src/spdy_parser.cpp b/src/spdy_parser.cpp
index 814905d..c549231 100644
--- a/src/spdy_parser.cpp
+++ b/src/spdy_parser.cpp
@@ -176,6 +176,9 @@ boost::tribool parser::parse_spdy_frame(boost::system::error_code& ec,
     
     control_bit = (boost::uint8_t)frame.control_bit;
     
+    // The payload of a control frame is only parsed if all of it is in the packet
+    const bool has_payload = (length_packet >= frame.length);
+    
     // There is a possibility that there are more than one SPDY frames in one TCP frame
     if(length_packet > frame.length){
         m_current_data_chunk_ptr = m_read_ptr + frame.length;
@@ -209,11 +212,17 @@ boost::tribool parser::parse_spdy_frame(boost::system::error_code& ec,
         case SPDY_SYN_STREAM:
         case SPDY_SYN_REPLY:
         case SPDY_HEADERS:
+            if (! has_payload) {
+                PION_LOG_ERROR(m_logger, "SPDY header block is incomplete");
+                set_error(ec, ERROR_MISSING_HEADER_DATA);
+                break;
+            }
             parse_header_payload(ec, decompressor, frame, http_info, current_stream_count);
             break;
             
         case SPDY_RST_STREAM:
-            parse_spdy_rst_stream(ec, frame);
+            if (has_payload)
+                parse_spdy_rst_stream(ec, frame);
             http_info.http_type = SPDY_CONTROL;
             break;
             
@@ -223,12 +232,14 @@ boost::tribool parser::parse_spdy_frame(boost::system::error_code& ec,
             break;
             
         case SPDY_PING:
-            parse_spdy_ping_frame(ec, frame);
+            if (has_payload)
+                parse_spdy_ping_frame(ec, frame);
             http_info.http_type = SPDY_CONTROL;
             break;
             
         case SPDY_GOAWAY:
-            parse_spdy_goaway_frame(ec, frame);
+            if (has_payload)
+                parse_spdy_goaway_frame(ec, frame);
             http_info.http_type = SPDY_CONTROL;
             break;
             
@@ -337,7 +348,7 @@ bool parser::populate_frame(boost::system::error_code& ec,
     
     http_info.data_size = frame.length;
     
-    if(control_bit){
+    if(control_bit && length_packet >= 4){
         four_bytes = algorithm::to_uint32(m_read_ptr);
         stream_id = four_bytes & 0x7FFFFFFF;
     }
@@ -557,8 +568,8 @@ void parser::parse_spdy_goaway_frame(boost::system::error_code &ec,
                                      const spdy_control_frame_info& frame)
 {
     // First complete the check for size
-    // The length should be 4 always
-    if(frame.length != 4){
+    // The length should be 4 (SPDYv2) or 8 (SPDYv3, with a status code)
+    if(frame.length != 4 && frame.length != 8){
         return;
     }
     
@@ -567,8 +578,11 @@ void parser::parse_spdy_goaway_frame(boost::system::error_code &ec,
     // Ignore the 31 bit stream id
     m_read_ptr += 4;
     
-    // Get the status code
+    // Get the status code (SPDYv3 and later)
     
+    if(frame.length < 8){
+        return;
+    }
     status_code = algorithm::to_uint32(m_read_ptr);
     
     // Chek if there was an error
-- 
2.43.0


From 55bf961b87f792a9e0ebbacf01f6be5cdb1ee0ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:10 +0000
Subject: [PATCH 20/42] fix: two SPDY error codes had no message of their own

---
 include/pion/spdy/parser.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/pion/spdy/parser.hpp b/include/pion/spdy/parser.hpp
index ce38e67..5e7ab83 100644
--- a/include/pion/spdy/parser.hpp
+++ b/include/pion/spdy/parser.hpp
@@ -65,6 +65,10 @@ public:
                     return "invalid spdy version";
                 case ERROR_DECOMPRESSION:
                     return "error in decompression";
+                case ERROR_PROTOCOL_ERROR:
+                    return "protocol error";
+                case ERROR_INTERNAL_SPDY_ERROR:
+                    return "internal error";
                 case ERROR_MISSING_HEADER_DATA:
                     return "missing header data";
                     
-- 
2.43.0


From 2a33ef670febb0c0e8ac37b4106ea0c0b419bea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:33 +0000
Subject: [PATCH 21/42] fix: base64_decode() indexed its table with negative
 values for bytes above 0x7F

---
 src/algorithm.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/algorithm.cpp b/src/algorithm.cpp
index 00ea0b6..15c5904 100644
--- a/src/algorithm.cpp
+++ b/src/algorithm.cpp
@@ -60,12 +60,12 @@ bool algorithm::base64_decode(const std::string &input, std::string &output)
         char base64code2 = 0;   // initialized to 0 to suppress warnings
         char base64code3;
 
-        base64code0 = decoding_data[static_cast<int>(input_ptr[i])];
+        base64code0 = decoding_data[static_cast<unsigned char>(input_ptr[i])];
         if(base64code0==nop)            // non base64 character
             return false;
         if(!(++i<input_length)) // we need at least two input bytes for first byte output
             return false;
-        base64code1 = decoding_data[static_cast<int>(input_ptr[i])];
+        base64code1 = decoding_data[static_cast<unsigned char>(input_ptr[i])];
         if(base64code1==nop)            // non base64 character
             return false;
 
@@ -77,7 +77,7 @@ bool algorithm::base64_decode(const std::string &input, std::string &output)
                 BOOST_ASSERT( (base64code1 & 0x0f)==0);
                 return true;
             }
-            base64code2 = decoding_data[static_cast<int>(input_ptr[i])];
+            base64code2 = decoding_data[static_cast<unsigned char>(input_ptr[i])];
             if(base64code2==nop)            // non base64 character
                 return false;
 
@@ -90,7 +90,7 @@ bool algorithm::base64_decode(const std::string &input, std::string &output)
                 BOOST_ASSERT( (base64code2 & 0x03)==0);
                 return true;
             }
-            base64code3 = decoding_data[static_cast<int>(input_ptr[i])];
+            base64code3 = decoding_data[static_cast<unsigned char>(input_ptr[i])];
             if(base64code3==nop)            // non base64 character
                 return false;
 
-- 
2.43.0


From 22d7e3213af8cd16d2f37b16aaa9d4c634152525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:47 +0000
Subject: [PATCH 22/42] fix: url_decode() decoded percent signs that are not
 followed by two hexadecimal digits

---
 src/algorithm.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/algorithm.cpp b/src/algorithm.cpp
index 15c5904..72431a3 100644
--- a/src/algorithm.cpp
+++ b/src/algorithm.cpp
@@ -7,6 +7,7 @@
 // See http://www.boost.org/LICENSE_1_0.txt
 //
 
+#include <cctype>
 #include <cmath>
 #include <cstdlib>
 #include <cstdio>
@@ -170,9 +171,12 @@ std::string algorithm::url_decode(const std::string& str)
                 decode_buf[1] = str[++pos];
                 decode_buf[2] = '\0';
 
-                char decoded_char = static_cast<char>( strtol(decode_buf, 0, 16) );
+                // strtol also accepts a sign, white space or a single digit
+                char decoded_char = '\0';
+                if (isxdigit(static_cast<unsigned char>(decode_buf[0])) && isxdigit(static_cast<unsigned char>(decode_buf[1])))
+                    decoded_char = static_cast<char>( strtol(decode_buf, 0, 16) );
 
-                // decoded_char will be '\0' if strtol can't parse decode_buf as hex
+                // decoded_char will be '\0' if decode_buf is not hex
                 // (or if decode_buf == "00", which is also not valid).
                 // In this case, recover from error by not decoding.
                 if (decoded_char == '\0') {
-- 
2.43.0


From 5d1d55dbf7292dee99992ca6338b3518e35efb9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:41 +0000
Subject: [PATCH 23/42] fix: plugin_manager::find() gave up at the first
 identifier that is not a prefix

The search stopped when the preceding identifier was not shorter than the one
that failed to match, so with /a, /a/b1 and /a/c9 registered /a/d was not found.
---
 include/pion/plugin_manager.hpp | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/include/pion/plugin_manager.hpp b/include/pion/plugin_manager.hpp
index 6220f56..4924c54 100644
--- a/include/pion/plugin_manager.hpp
+++ b/include/pion/plugin_manager.hpp
@@ -316,19 +316,10 @@ inline PluginType *plugin_manager<PluginType>::find(const std::string& resource)
     while (i != m_plugin_map.begin()) {
         --i;
         
-        // keep checking while the first part of the strings match
-        if (resource.compare(0, i->first.size(), i->first) != 0) {
-            // the first part no longer matches
-            if (i != m_plugin_map.begin()) {
-                // continue to next plug-in in list if its size is < this one
-                typename pion::plugin_manager<PluginType>::map_type::iterator j=i;
-                --j;
-                if (j->first.size() < i->first.size())
-                    continue;
-            }
-            // otherwise we've reached the end; stop looking for a match
-            break;
-        }
+        // skip identifiers that the resource does not start with; a shorter
+        // one that does may still come before them
+        if (resource.compare(0, i->first.size(), i->first) != 0)
+            continue;
         
         // only if the resource matches the plug-in's identifier
         // or if resource is followed first with a '/' character
-- 
2.43.0


From 531c53c52e914865c3942209bf745adf1562bbec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:26 +0000
Subject: [PATCH 24/42] fix: scheduler shutdown from a pool thread must not
 join the calling thread

---
 include/pion/scheduler.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/pion/scheduler.hpp b/include/pion/scheduler.hpp
index bc2369b..eab7859 100644
--- a/include/pion/scheduler.hpp
+++ b/include/pion/scheduler.hpp
@@ -216,13 +216,13 @@ protected:
             PION_LOG_DEBUG(m_logger, "Waiting for threads to shutdown");
             
             // wait until all threads in the pool have stopped
-            boost::thread current_thread;
+            const boost::thread::id current_thread_id(boost::this_thread::get_id());
             for (ThreadPool::iterator i = m_thread_pool.begin();
                  i != m_thread_pool.end(); ++i)
             {
                 // make sure we do not call join() for the current thread,
                 // since this may yield "undefined behavior"
-                if (**i != current_thread) (*i)->join();
+                if ((*i)->get_id() != current_thread_id) (*i)->join();
             }
         }
     }
-- 
2.43.0


From ec5a06059d76e9d3174a7d56d1ee77bd71b122ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:04 +0000
Subject: [PATCH 25/42] fix: admin_rights must restore user ids above 32767

---
 include/pion/admin_rights.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pion/admin_rights.hpp b/include/pion/admin_rights.hpp
index 52a7260..53cd8a2 100644
--- a/include/pion/admin_rights.hpp
+++ b/include/pion/admin_rights.hpp
@@ -72,7 +72,7 @@ private:
     boost::unique_lock<boost::mutex>    m_lock;
 
     /// saved user identifier before upgrading to administrator
-    boost::int16_t                      m_user_id;
+    boost::int32_t                      m_user_id;
 
     /// true if the class currently holds administrative rights
     bool                                m_has_rights;
-- 
2.43.0


From 17aa63bc50a243f2b2ed20001f3f7222ae5f58dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:04 +0000
Subject: [PATCH 26/42] fix: an empty field in a system file must not shift the
 id column

---
 src/admin_rights.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/admin_rights.cpp b/src/admin_rights.cpp
index 5d28618..109604e 100644
--- a/src/admin_rights.cpp
+++ b/src/admin_rights.cpp
@@ -132,7 +132,7 @@ long admin_rights::find_system_id(const std::string& name,
 
     // find id in system file
     typedef boost::tokenizer<boost::char_separator<char> > Tok;
-    boost::char_separator<char> sep(":");
+    boost::char_separator<char> sep(":", "", boost::keep_empty_tokens);
     std::string line;
     boost::int32_t system_id = -1;
 
-- 
2.43.0


From ec4a56bc37afb6c7f9601455e0ac97f151c5dd19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:51 +0000
Subject: [PATCH 27/42] fix: request::change_resource must invalidate the
 cached first line

---
 include/pion/http/request.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/pion/http/request.hpp b/include/pion/http/request.hpp
index 65b67cd..df0e106 100644
--- a/include/pion/http/request.hpp
+++ b/include/pion/http/request.hpp
@@ -96,7 +96,10 @@ public:
     }
 
     /// changes the resource or uri-stem to be delivered (called as the result of a redirect)
-    inline void change_resource(const std::string& str) { m_resource = str; }
+    inline void change_resource(const std::string& str) {
+        m_resource = str;
+        clear_first_line();
+    }
 
     /// sets the uri-query or query string requested
     inline void set_query_string(const std::string& str) {
-- 
2.43.0


From c6de5f7257311d76bf806d0fbc37f09a4a8a69a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:18 +0000
Subject: [PATCH 28/42] fix: get_date_string must not pass a null tm to
 strftime

---
 src/http_types.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/http_types.cpp b/src/http_types.cpp
index 6fb8cfd..46f3a97 100644
--- a/src/http_types.cpp
+++ b/src/http_types.cpp
@@ -104,7 +104,8 @@ std::string types::get_date_string(const time_t t)
     char time_buf[TIME_BUF_SIZE+1];
 
     boost::mutex::scoped_lock time_lock(time_mutex);
-    if (strftime(time_buf, TIME_BUF_SIZE, TIME_FORMAT, gmtime(&t)) == 0)
+    const struct tm *time_ptr = gmtime(&t);     // NULL if the year cannot be represented
+    if (time_ptr == NULL || strftime(time_buf, TIME_BUF_SIZE, TIME_FORMAT, time_ptr) == 0)
         time_buf[0] = '\0'; // failed; resulting buffer is indeterminate
     time_lock.unlock();
 
-- 
2.43.0


From 165bf332d1efe1929c2be2f162eed472f8988752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:13 +0000
Subject: [PATCH 29/42] fix: do not send content that the message does not hold

message::send() and write() trusted the content length; for a message whose
headers announce a length but whose content was never read (a response to a
HEAD request, a headers-only read) they sent whatever lies behind the empty
content buffer.
---
 src/http_message.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/http_message.cpp b/src/http_message.cpp
index eabf212..8437183 100644
--- a/src/http_message.cpp
+++ b/src/http_message.cpp
@@ -38,7 +38,7 @@ std::size_t message::send(tcp::connection& tcp_conn,
     prepare_buffers_for_send(write_buffers, tcp_conn.get_keep_alive(), false);
 
     // append payload content to write buffers (if there is any)
-    if (!headers_only && get_content_length() > 0 && get_content() != NULL)
+    if (!headers_only && get_content_length() > 0 && get_content_buffer_size() >= get_content_length())
         write_buffers.push_back(boost::asio::buffer(get_content(), get_content_length()));
 
     // send the message and return the result
@@ -162,7 +162,7 @@ std::size_t message::write(std::ostream& out,
     prepare_buffers_for_send(write_buffers, true, false);
 
     // append payload content to write buffers (if there is any)
-    if (!headers_only && get_content_length() > 0 && get_content() != NULL)
+    if (!headers_only && get_content_length() > 0 && get_content_buffer_size() >= get_content_length())
         write_buffers.push_back(boost::asio::buffer(get_content(), get_content_length()));
 
     // write message to the output stream
-- 
2.43.0


From 8827f8d6e6f9607b59221f53e20a085dd44d4bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:46 +0000
Subject: [PATCH 30/42] fix: encode the error message in the 403 Forbidden page

---
 src/http_server.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/http_server.cpp b/src/http_server.cpp
index f0bfba0..65255cd 100644
--- a/src/http_server.cpp
+++ b/src/http_server.cpp
@@ -272,7 +272,7 @@ void server::handle_forbidden_request(const http::request_ptr& http_request_ptr,
     writer->write_no_copy(FORBIDDEN_HTML_START);
     writer << algorithm::xml_encode(http_request_ptr->get_resource());
     writer->write_no_copy(FORBIDDEN_HTML_MIDDLE);
-    writer << error_msg;
+    writer << algorithm::xml_encode(error_msg);
     writer->write_no_copy(FORBIDDEN_HTML_FINISH);
     writer->send();
 }
-- 
2.43.0


From 6d2cdcc305577be3ef54b51b9f1bce7d314d3c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:46 +0000
Subject: [PATCH 31/42] fix: encode exception text in FileService error pages

---
 services/FileService.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/services/FileService.cpp b/services/FileService.cpp
index 342bc87..db1542c 100644
--- a/services/FileService.cpp
+++ b/services/FileService.cpp
@@ -530,7 +530,7 @@ void FileService::operator()(const http::request_ptr& http_request_ptr, const tc
                         writer->write_no_copy(DELETE_FAILED_HTML_START);
                         writer << algorithm::xml_encode(http_request_ptr->get_resource())
                             << ".</p><p>"
-                            << boost::diagnostic_information(e);
+                            << algorithm::xml_encode(boost::diagnostic_information(e));
                         writer->write_no_copy(DELETE_FAILED_HTML_FINISH);
                         writer->send();
                     }
-- 
2.43.0


From 67d24456ae44c2956202689d363515682e08bb23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:24 +0000
Subject: [PATCH 32/42] fix: encode request text in CookieService pages

---
 services/CookieService.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/services/CookieService.cpp b/services/CookieService.cpp
index 7f8327a..21ebb9d 100644
--- a/services/CookieService.cpp
+++ b/services/CookieService.cpp
@@ -43,7 +43,7 @@ void CookieService::operator()(const http::request_ptr& http_request_ptr, const
             } else {
                 writer->get_response().set_cookie(cookie_name, cookie_value);
                 writer << "\n<p>[Added cookie "
-                    << cookie_name << '=' << cookie_value << "]</p>\n\n";
+                    << algorithm::xml_encode(cookie_name) << '=' << algorithm::xml_encode(cookie_value) << "]</p>\n\n";
             }
         } else if (http_request_ptr->get_query("action") == "delete") {
             const std::string cookie_name(http_request_ptr->get_query("cookie_name"));
@@ -51,7 +51,7 @@ void CookieService::operator()(const http::request_ptr& http_request_ptr, const
                 writer << "\n<p>[Error: You must specify a name to delete a cookie]</p>\n\n";
             } else {
                 writer->get_response().delete_cookie(cookie_name);
-                writer << "\n<p>[Deleted cookie " << cookie_name << "]</p>\n\n";
+                writer << "\n<p>[Deleted cookie " << algorithm::xml_encode(cookie_name) << "]</p>\n\n";
             }
         } else {
             writer << "\n<p>[Error: Unrecognized action]</p>\n\n";
@@ -67,7 +67,7 @@ void CookieService::operator()(const http::request_ptr& http_request_ptr, const
              header_iterator != http_request_ptr->get_headers().end()
              && header_iterator != header_pair.second; ++header_iterator)
         {
-            writer << "<li>Cookie: " << header_iterator->second << "\n";
+            writer << "<li>Cookie: " << algorithm::xml_encode(header_iterator->second) << "\n";
         }
         writer << "</ul>\n\n";
     } else {
@@ -81,9 +81,9 @@ void CookieService::operator()(const http::request_ptr& http_request_ptr, const
         for (ihash_multimap::const_iterator i = cookie_params.begin();
              i != cookie_params.end(); ++i)
         {
-            writer << "<li>" << i->first << ": " << i->second
-                << " <a href=\"" << http_request_ptr->get_resource()
-                << "?action=delete&cookie_name=" << i->first
+            writer << "<li>" << algorithm::xml_encode(i->first) << ": " << algorithm::xml_encode(i->second)
+                << " <a href=\"" << algorithm::xml_encode(http_request_ptr->get_resource())
+                << "?action=delete&cookie_name=" << algorithm::xml_encode(algorithm::url_encode(i->first))
                 << "\">[Delete]</a>\n";
         }
         writer << "</ul>\n\n";
@@ -93,7 +93,7 @@ void CookieService::operator()(const http::request_ptr& http_request_ptr, const
 
     // display form to add a cookie
     writer << "\n<h2>Add Cookie</h2>\n"
-        "<p><form action=\"" << http_request_ptr->get_resource() << "\" method=\"POST\">\n"
+        "<p><form action=\"" << algorithm::xml_encode(http_request_ptr->get_resource()) << "\" method=\"POST\">\n"
         "Name: <input type=\"text\" name=\"cookie_name\"><br />\n"
         "Value: <input type=\"text\" name=\"cookie_value\"><br />\n"
         "<input type=\"submit\" name=\"action\" value=\"Add Cookie\"></p>\n"
-- 
2.43.0


From 0c678b02439c606c4caa02efbcfff04a988e1ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:24 +0000
Subject: [PATCH 33/42] fix: cookie_auth draws session ids under its mutex

---
 src/http_cookie_auth.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/http_cookie_auth.cpp b/src/http_cookie_auth.cpp
index c5cfe7c..204dd93 100644
--- a/src/http_cookie_auth.cpp
+++ b/src/http_cookie_auth.cpp
@@ -132,8 +132,12 @@ bool cookie_auth::process_login(const http::request_ptr& http_request_ptr, const
         // create random cookie
         std::string rand_binary;
         rand_binary.reserve(RANDOM_COOKIE_BYTES);
-        for (unsigned int i=0; i<RANDOM_COOKIE_BYTES ; i++) {
-            rand_binary += static_cast<unsigned char>(m_random_die());
+        {
+            // the random number generator is shared by all threads
+            boost::mutex::scoped_lock random_lock(m_cache_mutex);
+            for (unsigned int i=0; i<RANDOM_COOKIE_BYTES ; i++) {
+                rand_binary += static_cast<unsigned char>(m_random_die());
+            }
         }
         algorithm::base64_encode(rand_binary, new_cookie);
 
-- 
2.43.0


From 3b18b3048360e39f49fb8ed5f23c98c80a3f9771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:24 +0000
Subject: [PATCH 34/42] fix: cookie_auth does not redirect to urls with line
 breaks

---
 src/http_cookie_auth.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/http_cookie_auth.cpp b/src/http_cookie_auth.cpp
index 204dd93..e0c3ddf 100644
--- a/src/http_cookie_auth.cpp
+++ b/src/http_cookie_auth.cpp
@@ -112,6 +112,9 @@ bool cookie_auth::process_login(const http::request_ptr& http_request_ptr, const
     }
 
     std::string redirect_url = http_request_ptr->get_query("url");
+    if (redirect_url.find_first_of("\r\n") != std::string::npos) {
+        redirect_url.clear();   // must not end the Location header of the response
+    }
     std::string new_cookie;
     bool delete_cookie = false;
 
-- 
2.43.0


From ac7c1d8c1481b9e384c4a5c0282bcac59a53a5e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:55 +0000
Subject: [PATCH 35/42] fix: writers keep message content that starts with a
 null byte

---
 include/pion/http/request_writer.hpp  | 3 +--
 include/pion/http/response_writer.hpp | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/pion/http/request_writer.hpp b/include/pion/http/request_writer.hpp
index a8a06e1..c14d815 100644
--- a/include/pion/http/request_writer.hpp
+++ b/include/pion/http/request_writer.hpp
@@ -101,8 +101,7 @@ protected:
         // check if we should initialize the payload content using
         // the request's content buffer
         if (m_http_request->get_content_length() > 0
-            && m_http_request->get_content() != NULL
-            && m_http_request->get_content()[0] != '\0')
+            && m_http_request->get_content_buffer_size() >= m_http_request->get_content_length())
         {
             write_no_copy(m_http_request->get_content(),
                         m_http_request->get_content_length());
diff --git a/include/pion/http/response_writer.hpp b/include/pion/http/response_writer.hpp
index d24af9d..f326e21 100644
--- a/include/pion/http/response_writer.hpp
+++ b/include/pion/http/response_writer.hpp
@@ -94,8 +94,7 @@ protected:
         // check if we should initialize the payload content using
         // the response's content buffer
         if (m_http_response->get_content_length() > 0
-            && m_http_response->get_content() != NULL
-            && m_http_response->get_content()[0] != '\0')
+            && m_http_response->get_content_buffer_size() >= m_http_response->get_content_length())
         {
             write_no_copy(m_http_response->get_content(), m_http_response->get_content_length());
         }
-- 
2.43.0


From 0ab83fcde4abfca47ec7fe84ddd3a20ab48f1018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:55 +0000
Subject: [PATCH 36/42] fix: writers announce chunked transfer only when it is
 used

---
 include/pion/http/request_writer.hpp  | 2 ++
 include/pion/http/response_writer.hpp | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/include/pion/http/request_writer.hpp b/include/pion/http/request_writer.hpp
index c14d815..a8a4cda 100644
--- a/include/pion/http/request_writer.hpp
+++ b/include/pion/http/request_writer.hpp
@@ -117,6 +117,8 @@ protected:
     virtual void prepare_buffers_for_send(http::message::write_buffers_t& write_buffers) {
         if (get_content_length() > 0)
             m_http_request->set_content_length(get_content_length());
+        // announce chunks only if they are used (and the other way round)
+        m_http_request->set_chunks_supported(supports_chunked_messages());
         m_http_request->prepare_buffers_for_send(write_buffers,
                                               get_connection()->get_keep_alive(),
                                               sending_chunked_message());
diff --git a/include/pion/http/response_writer.hpp b/include/pion/http/response_writer.hpp
index f326e21..c0306af 100644
--- a/include/pion/http/response_writer.hpp
+++ b/include/pion/http/response_writer.hpp
@@ -125,6 +125,8 @@ protected:
     virtual void prepare_buffers_for_send(http::message::write_buffers_t& write_buffers) {
         if (get_content_length() > 0)
             m_http_response->set_content_length(get_content_length());
+        // announce chunks only if they are used (and the other way round)
+        m_http_response->set_chunks_supported(supports_chunked_messages());
         m_http_response->prepare_buffers_for_send(write_buffers,
                                                get_connection()->get_keep_alive(),
                                                sending_chunked_message());
-- 
2.43.0


From 94d6a0014495a183a7a4117e6c3a103991951ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:55 +0000
Subject: [PATCH 37/42] fix: http::writer clear() frees the copied payload
 blocks

---
 include/pion/http/writer.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/pion/http/writer.hpp b/include/pion/http/writer.hpp
index e245ff3..2703461 100644
--- a/include/pion/http/writer.hpp
+++ b/include/pion/http/writer.hpp
@@ -307,10 +307,12 @@ private:
     /// used to cache binary data included within the payload content
     class binary_cache_t : public std::vector<std::pair<const char *, size_t> > {
     public:
-        ~binary_cache_t() {
+        ~binary_cache_t() { clear(); }
+        inline void clear(void) {
             for (iterator i=begin(); i!=end(); ++i) {
                 delete[] i->first;
             }
+            std::vector<std::pair<const char *, size_t> >::clear();
         }
         inline boost::asio::const_buffer add(const void *ptr, const size_t size) {
             char *data_ptr = new char[size];
-- 
2.43.0


From 7c5c18b021245b0192abe337c6276eab17bbdd6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:58 +0000
Subject: [PATCH 38/42] fix: FileService compares whole path elements with its
 directory

---
 services/FileService.cpp | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/services/FileService.cpp b/services/FileService.cpp
index db1542c..917d9df 100644
--- a/services/FileService.cpp
+++ b/services/FileService.cpp
@@ -39,6 +39,27 @@ boost::once_flag            FileService::m_mime_types_init_flag = BOOST_ONCE_INI
 FileService::MIMETypeMap    *FileService::m_mime_types_ptr = NULL;
 
 
+// static helper functions
+
+/// returns true if (normalized) file is directory itself or something within it;
+/// compares whole path elements since "/www-private" is not within "/www"
+static bool is_within(const boost::filesystem::path& directory,
+                      const boost::filesystem::path& file)
+{
+    boost::filesystem::path::iterator file_itr = file.begin();
+    for (boost::filesystem::path::iterator dir_itr = directory.begin();
+         dir_itr != directory.end(); ++dir_itr)
+    {
+        if (*dir_itr == ".")
+            continue;   // relative directory or trailing slash
+        if (file_itr == file.end() || *file_itr != *dir_itr)
+            return false;
+        ++file_itr;
+    }
+    return (file_itr == file.end() || *file_itr != "..");
+}
+
+
 // FileService member functions
 
 FileService::FileService(void)
@@ -149,13 +170,7 @@ void FileService::operator()(const http::request_ptr& http_request_ptr, const tc
 
     // make sure that the requested file is within the configured directory
     file_path.normalize();
-# if defined(BOOST_FILESYSTEM_VERSION) && BOOST_FILESYSTEM_VERSION >= 3
-    std::string file_string = file_path.string();
-    if (file_string.find(m_directory.string()) != 0) {
-#else
-    std::string file_string = file_path.file_string();
-    if (file_string.find(m_directory.directory_string()) != 0) {
-#endif
+    if (! m_directory.empty() && ! is_within(m_directory, file_path)) {
         PION_LOG_WARN(m_logger, "Request for file outside of directory ("
                       << get_resource() << "): " << relative_path);
         static const std::string FORBIDDEN_HTML_START =
-- 
2.43.0


From d483ce185f3fde0259edfc952dd12c821d283a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:03 +0000
Subject: [PATCH 39/42] fix: DiskFileSender finishes the connection when its
 file cannot be read

---
 services/FileService.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/services/FileService.cpp b/services/FileService.cpp
index 917d9df..0f8a466 100644
--- a/services/FileService.cpp
+++ b/services/FileService.cpp
@@ -890,6 +890,9 @@ void DiskFileSender::send(void)
                 PION_LOG_ERROR(m_logger, "Unable to open file: "
                                << m_disk_file.getFilePath().file_string());
 #endif
+                // nothing more can be sent: make sure the connection will get closed
+                m_writer->get_connection()->set_lifecycle(tcp::connection::LIFECYCLE_CLOSE);
+                m_writer->get_connection()->finish();
                 return;
             }
         }
@@ -920,6 +923,9 @@ void DiskFileSender::send(void)
                                << m_disk_file.getFilePath().file_string());
 #endif
             }
+            // nothing more can be sent: make sure the connection will get closed
+            m_writer->get_connection()->set_lifecycle(tcp::connection::LIFECYCLE_CLOSE);
+            m_writer->get_connection()->finish();
             return;
         }
     }
-- 
2.43.0


From 101a0590165916488a8ea023f3962f8840368fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:03 +0000
Subject: [PATCH 40/42] fix: DiskFile::read keeps no content when reading fails

---
 services/FileService.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/services/FileService.cpp b/services/FileService.cpp
index 0f8a466..e583299 100644
--- a/services/FileService.cpp
+++ b/services/FileService.cpp
@@ -782,14 +782,16 @@ void DiskFile::update(void)
 void DiskFile::read(void)
 {
     // re-allocate storage buffer for the file's content
-    m_file_content.reset(new char[m_file_size]);
+    // (never keep content that does not match m_file_size)
+    m_file_content.reset();
+    boost::shared_array<char> file_content(new char[m_file_size]);
 
     // open the file for reading
     boost::filesystem::ifstream file_stream;
     file_stream.open(m_file_path, std::ios::in | std::ios::binary);
 
     // read the file into memory
-    if (!file_stream.is_open() || !file_stream.read(m_file_content.get(), m_file_size)) {
+    if (!file_stream.is_open() || !file_stream.read(file_content.get(), m_file_size)) {
 # if defined(BOOST_FILESYSTEM_VERSION) && BOOST_FILESYSTEM_VERSION >= 3
         const std::string file_name = m_file_path.string();
 #else
@@ -797,6 +799,8 @@ void DiskFile::read(void)
 #endif
         BOOST_THROW_EXCEPTION( error::read_file() << error::errinfo_file_name(file_name) );
     }
+
+    m_file_content = file_content;
 }
 
 bool DiskFile::checkUpdated(void)
-- 
2.43.0


From 7c38db5d365f7b1873b6d8152221b1555721b30d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:27 +0000
Subject: [PATCH 41/42] fix: parse_uri clears the query of a URI without a path

---
 src/http_parser.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/http_parser.cpp b/src/http_parser.cpp
index 6e29369..267bcea 100644
--- a/src/http_parser.cpp
+++ b/src/http_parser.cpp
@@ -857,6 +857,7 @@ bool parser::parse_uri(const std::string& uri, std::string& proto,
     if (server_port_end == std::string::npos) {
         // no path -> use just /
         path = "/";
+        query.clear();
         server_port_end = uri.size();
     }
     
-- 
2.43.0


From cdb3beb259ba4f83eda218549e66217bd7e22cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:27 +0000
Subject: [PATCH 42/42] fix: parse_uri refuses ports that do not fit

---
 src/http_parser.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/http_parser.cpp b/src/http_parser.cpp
index 267bcea..62fba94 100644
--- a/src/http_parser.cpp
+++ b/src/http_parser.cpp
@@ -876,7 +876,10 @@ bool parser::parse_uri(const std::string& uri, std::string& proto,
     // parse the port, if it's not empty
     if(port_pos != std::string::npos) {
         try {
-            port = boost::lexical_cast<int>(t.substr(port_pos+1));
+            const int port_number = boost::lexical_cast<int>(t.substr(port_pos+1));
+            if (port_number < 0 || port_number > 65535)
+                return false;
+            port = static_cast<boost::uint16_t>(port_number);
         } catch (boost::bad_lexical_cast &) {
             return false;
         }
-- 
2.43.0

