From d8c81f0a5a487c0900c40bc872e0120c6b351193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:04 +0000
Subject: [PATCH 01/62] fix: FLV command frames (frame type 5) were cached as
 the video sequence header

A video info/command frame carries no AVCPacketType, so the demuxer left the
packet type at 0, which the GOP cache takes for a sequence header: a late
joining player then got the command frame instead of the decoder configuration.
---
 src/avformat/sps_avformat_flvdec.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/avformat/sps_avformat_flvdec.cpp b/src/avformat/sps_avformat_flvdec.cpp
index b043f00..a73976b 100644
--- a/src/avformat/sps_avformat_flvdec.cpp
+++ b/src/avformat/sps_avformat_flvdec.cpp
@@ -169,6 +169,9 @@ error_t FlvDemuxer::read_packet(PAVPacket& buffer) {
 
             pts = dts + cts;
             data_size = data_size - 4;
+        } else {
+            // video info/command frame: no AVCPacketType, never a sequence header
+            pkt_type = 1;
         }
 
         if (frame_type == 0x10) {
-- 
2.43.0


From 709f7ed886950e3374d2b5a6f172c0706620b1c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:13 +0000
Subject: [PATCH 02/62] fix: an HTTP head that cannot be parsed at all was
 taken for a success (null response or stale request)

---
 src/module/http/sps_http_parser.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/module/http/sps_http_parser.cpp b/src/module/http/sps_http_parser.cpp
index c062568..63a763f 100644
--- a/src/module/http/sps_http_parser.cpp
+++ b/src/module/http/sps_http_parser.cpp
@@ -187,6 +187,7 @@ int HttpParser::parse_header(const char *b, int len, HttpType ht) {
 
     if (parsed == 0) {
         sp_error("parse execute zero %.*s", len, b);
+        return -ERROR_HTTP_HEADER_PARSE;
     }
 
     if ((ht == HttpType::REQUEST || ht == HttpType::BOTH) && parsed >= 0)  {
-- 
2.43.0


From 707474e372e2d7fbd3c71a6709ae7a0182c49f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:13 +0000
Subject: [PATCH 03/62] fix: a silent upstream held its stream and the waiting
 clients for ever

---
 src/io/url/sps_io_url_http.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/io/url/sps_io_url_http.cpp b/src/io/url/sps_io_url_http.cpp
index daf8c23..84c7be8 100644
--- a/src/io/url/sps_io_url_http.cpp
+++ b/src/io/url/sps_io_url_http.cpp
@@ -70,6 +70,10 @@ error_t HttpUrlProtocol::open(PRequestUrl& url, Transport tp) {
         return ERROR_HTTP_SOCKET_CONNECT;
     }
 
+    // a silent upstream must not hold the stream or the client for ever
+    socket->set_send_timeout(url->get_timeout());
+    socket->set_recv_timeout(url->get_timeout());
+
     auto req = http_request(url->method, url->url, url->host, "",
                             &url->headers);
 
-- 
2.43.0


From c7a31122a229e9e88a8845b7d471c4c496535955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:02 +0000
Subject: [PATCH 04/62] fix: log lines were used as printf formats (a "%" sent
 by a peer crashed the server)

---
 src/log/sps_log.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/log/sps_log.cpp b/src/log/sps_log.cpp
index f33fc66..87436f5 100644
--- a/src/log/sps_log.cpp
+++ b/src/log/sps_log.cpp
@@ -46,7 +46,7 @@ void ConsoleLog::printf(LOG_LEVEL lev, const char *fmt, ...) {
     va_start(args, fmt);
     vsnprintf(buf + len, sizeof(buf) - len, fmt, args);
     va_end(args);
-    ::printf(buf);
+    ::printf("%s", buf);
 }
 
 ILog* default_log = new ConsoleLog();
-- 
2.43.0


From a56e8aab6b4661b704cd1cf5f312dcf840e8dc53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:02 +0000
Subject: [PATCH 05/62] fix: proxied answers announced Transfer-Encoding (or a
 lower case Content-Length) twice

---
 src/module/http/sps_http_socket.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/module/http/sps_http_socket.cpp b/src/module/http/sps_http_socket.cpp
index 17b37d8..003b971 100644
--- a/src/module/http/sps_http_socket.cpp
+++ b/src/module/http/sps_http_socket.cpp
@@ -24,6 +24,7 @@ SOFTWARE.
 #include <sps_http_socket.hpp>
 
 #include <http_parser.h>
+#include <strings.h>
 
 #include <sstream>
 
@@ -182,17 +183,19 @@ error_t HttpResponseSocket::write_header() {
             static_cast<http_status>(status_code)) << CRCN;
     if (chunked) {
         ss << "Transfer-Encoding: chunked" << CRCN;
+        content_sent = true;
     } else if (content_length >= 0) {
         ss << "Content-Length: " << content_length << CRCN;
         content_sent = true;
     }
 
     for (auto& h : headers) {
-        if (h.key == "Content-Length" && content_sent) {
+        if (content_sent && (strcasecmp(h.key.c_str(), "Content-Length") == 0
+                || strcasecmp(h.key.c_str(), "Transfer-Encoding") == 0)) {
             continue;
         }
 
-        if (h.key == "Server") {
+        if (strcasecmp(h.key.c_str(), "Server") == 0) {
             has_server = true;
         }
         ss << h.key << ": " << h.value << CRCN;
-- 
2.43.0


From 2513bffbad46487bf47b895b4477d77982c28046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:02 +0000
Subject: [PATCH 06/62] fix: proxied answers without a body cost the client its
 connection

---
 src/io/url/sps_io_url_http.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/io/url/sps_io_url_http.cpp b/src/io/url/sps_io_url_http.cpp
index 84c7be8..b223714 100644
--- a/src/io/url/sps_io_url_http.cpp
+++ b/src/io/url/sps_io_url_http.cpp
@@ -95,6 +95,11 @@ error_t HttpUrlProtocol::open(PRequestUrl& url, Transport tp) {
 
     PHttpResponse http_rsp = rsp = parser.get_response();
 
+    // answers without a body: there is nothing to wait for
+    is_eof = url->method == "HEAD" || rsp->status_code == 204
+                || rsp->status_code == 304
+                || (!rsp->chunked && rsp->content_length == 0);
+
     init(socket, ip, url->get_port(), "", -1);
 
     return SUCCESS;
-- 
2.43.0


From 9f21817e3f42d2ff45d9f95670384f9cea3b9851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:02 +0000
Subject: [PATCH 07/62] fix: a malformed upstream answer was relayed with the
 status 0

---
 src/io/url/sps_io_url_http.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/io/url/sps_io_url_http.cpp b/src/io/url/sps_io_url_http.cpp
index b223714..9e0f4b7 100644
--- a/src/io/url/sps_io_url_http.cpp
+++ b/src/io/url/sps_io_url_http.cpp
@@ -93,6 +93,13 @@ error_t HttpUrlProtocol::open(PRequestUrl& url, Transport tp) {
         return ret;
     }
 
+    if (parser.get_ctx()->http.http_errno != HPE_OK
+            || parser.get_ctx()->status_code() == 0) {
+        sp_error("invalid response %d %s:%d, %s.", parser.get_ctx()->http.http_errno,
+                 socket->get_peer_ip().c_str(), socket->get_peer_port(), req.c_str());
+        return ERROR_HTTP_HEADER_PARSE;
+    }
+
     PHttpResponse http_rsp = rsp = parser.get_response();
 
     // answers without a body: there is nothing to wait for
-- 
2.43.0


From ab275374d736718f641fedae059503dcf5650ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:02 +0000
Subject: [PATCH 08/62] fix: lengths of 2 GiB and more were truncated, a part
 of the body looked complete

---
 src/io/url/sps_io_url.cpp                        |  4 ++--
 src/io/url/sps_io_url.hpp                        |  2 +-
 src/module/http/sps_http_parser.hpp              |  2 +-
 src/module/http/sps_http_phase_handler.cpp       |  2 +-
 src/module/http/sps_http_proxy_phase_handler.cpp |  4 ++--
 src/module/http/sps_http_socket.cpp              |  4 ++--
 src/module/http/sps_http_socket.hpp              | 10 +++++-----
 7 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/io/url/sps_io_url.cpp b/src/io/url/sps_io_url.cpp
index a597b66..ea5afd9 100644
--- a/src/io/url/sps_io_url.cpp
+++ b/src/io/url/sps_io_url.cpp
@@ -193,13 +193,13 @@ bool RequestUrl::is_chunked() {
     return get_header("Transfer-Encoding") == "chunked";
 }
 
-int RequestUrl::get_content_length() {
+int64_t RequestUrl::get_content_length() {
     std::string cl = get_header("Content-Length");
     if (cl.empty()) {
         return -1;
     }
 
-    return atoi(cl.c_str());
+    return atoll(cl.c_str());
 }
 
 utime_t RequestUrl::get_timeout() {
diff --git a/src/io/url/sps_io_url.hpp b/src/io/url/sps_io_url.hpp
index b6020ba..a5792f9 100644
--- a/src/io/url/sps_io_url.hpp
+++ b/src/io/url/sps_io_url.hpp
@@ -79,7 +79,7 @@ class RequestUrl {
 
  public:
     bool is_chunked();
-    int  get_content_length();
+    int64_t get_content_length();
 
  public:
     utime_t      get_timeout();
diff --git a/src/module/http/sps_http_parser.hpp b/src/module/http/sps_http_parser.hpp
index 203c230..a28d662 100644
--- a/src/module/http/sps_http_parser.hpp
+++ b/src/module/http/sps_http_parser.hpp
@@ -47,7 +47,7 @@ enum HttpType {
 
 class HttpResponse : public Response {
  public:
-    int   content_length = -1;
+    int64_t content_length = -1;
     int   status_code    = -1;
     bool  chunked        = false;
     std::list<RequestHeader> headers;
diff --git a/src/module/http/sps_http_phase_handler.cpp b/src/module/http/sps_http_phase_handler.cpp
index 5f21fc8..bbaa237 100644
--- a/src/module/http/sps_http_phase_handler.cpp
+++ b/src/module/http/sps_http_phase_handler.cpp
@@ -49,7 +49,7 @@ error_t HttpParsePhaseHandler::handler(IConnection &c) {
                                                                                  ;
     c.set_context(ctx);
 
-    sp_trace("Request %s:%d %s %s %s %s, chunked %d, content-length %d",
+    sp_trace("Request %s:%d %s %s %s %s, chunked %d, content-length %ld",
              req->ip.c_str(), req->port, req->get_method(),
              req->host.c_str(), req->url.c_str(), req->params.c_str(),
              req->is_chunked(), req->get_content_length());
diff --git a/src/module/http/sps_http_proxy_phase_handler.cpp b/src/module/http/sps_http_proxy_phase_handler.cpp
index c81ac20..d664f35 100644
--- a/src/module/http/sps_http_proxy_phase_handler.cpp
+++ b/src/module/http/sps_http_proxy_phase_handler.cpp
@@ -70,11 +70,11 @@ error_t HttpProxyPhaseHandler::handler(IConnection &c) {
     rsp.init(http_rsp->status_code, &http_rsp->headers, http_rsp->content_length, http_rsp->chunked);
 
     if ((ret = rsp.write_header()) != SUCCESS) {
-        sp_error("write head status: %d, %lu, %d, %d.", http_rsp->status_code,
+        sp_error("write head status: %d, %lu, %ld, %d.", http_rsp->status_code,
                  http_rsp->headers.size(), http_rsp->content_length, ret);
         return ret;
     }
-    sp_debug("write head status %d, %lu, %d.", http_rsp->status_code,
+    sp_debug("write head status %d, %lu, %ld.", http_rsp->status_code,
              http_rsp->headers.size(), http_rsp->content_length);
 
     char   buf[1024];
diff --git a/src/module/http/sps_http_socket.cpp b/src/module/http/sps_http_socket.cpp
index 003b971..248957e 100644
--- a/src/module/http/sps_http_socket.cpp
+++ b/src/module/http/sps_http_socket.cpp
@@ -37,7 +37,7 @@ HttpRequestSocket::HttpRequestSocket(PIReaderWriter rw,
                                      const std::string &ip,
                                      int port,
                                      bool chunked,
-                                     int cl) :
+                                     int64_t cl) :
         Socket(std::move(rw), ip, port) {
     this->chunked        = chunked;
     this->content_length = cl;
@@ -162,7 +162,7 @@ HttpResponseSocket::HttpResponseSocket(PIReaderWriter rw,
 }
 
 error_t HttpResponseSocket::init(int s_code, std::list<RequestHeader> *hd,
-                                 int cl, bool ch) {
+                                 int64_t cl, bool ch) {
     this->status_code    = s_code;
     this->content_length = cl;
     this->chunked        = ch;
diff --git a/src/module/http/sps_http_socket.hpp b/src/module/http/sps_http_socket.hpp
index 2103652..60a6af5 100644
--- a/src/module/http/sps_http_socket.hpp
+++ b/src/module/http/sps_http_socket.hpp
@@ -37,7 +37,7 @@ namespace sps {
 class HttpRequestSocket : public Socket {
  public:
     HttpRequestSocket(PIReaderWriter rw, const std::string& ip,
-                      int port, bool chunked, int content_length);
+                      int port, bool chunked, int64_t content_length);
 
  public:
     error_t read(void* buf, size_t size, size_t& nread) override;
@@ -49,8 +49,8 @@ class HttpRequestSocket : public Socket {
     error_t read_chunked_data(void* buf, size_t size, size_t& nread);
 
  public:
-    bool   chunked;
-    int    content_length;
+    bool    chunked;
+    int64_t content_length;
     bool   is_eof          = false;
     size_t nread           = 0;
     size_t nb_chunked_size = 0;
@@ -63,14 +63,14 @@ class HttpResponseSocket : public Socket {
 
  public:
     error_t init(int s_code, std::list<RequestHeader>* hd,
-                 int content_len, bool chunked);
+                 int64_t content_len, bool chunked);
     error_t write_header();
     error_t write(void* buf, size_t size) override;
 
  private:
     int  status_code    = 200;
     bool sent_header    = false;
-    int  content_length = 0;
+    int64_t content_length = 0;
     bool chunked        = false;
     std::list<RequestHeader> headers;
 };
-- 
2.43.0


From f984fb3ff60fa28ec47ef3afba7dc63d7f91679a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:02 +0000
Subject: [PATCH 09/62] fix: header names were compared case sensitively
 ("host: x" reached no host)

---
 src/io/url/sps_io_url.cpp           | 5 +++--
 src/io/url/sps_io_url_http.cpp      | 4 +++-
 src/module/http/sps_http_parser.cpp | 5 +++--
 3 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/io/url/sps_io_url.cpp b/src/io/url/sps_io_url.cpp
index ea5afd9..69ca894 100644
--- a/src/io/url/sps_io_url.cpp
+++ b/src/io/url/sps_io_url.cpp
@@ -24,6 +24,7 @@ SOFTWARE.
 #include <sps_io_url.hpp>
 
 #include <http_parser.h>
+#include <strings.h>
 
 #include <sps_log.hpp>
 
@@ -168,14 +169,14 @@ const char * RequestUrl::get_ext() {
 
 std::string RequestUrl::get_header(const std::string& key) {
     for (auto& h : headers) {
-        if (h.key == key) return h.value;
+        if (strcasecmp(h.key.c_str(), key.c_str()) == 0) return h.value;
     }
     return "";
 }
 
 void RequestUrl::erase_header(const std::string &key) {
     for (auto it = headers.begin(); it != headers.end(); ++it) {
-        if (it->key == key) {
+        if (strcasecmp(it->key.c_str(), key.c_str()) == 0) {
             headers.erase(it);
             return;
         }
diff --git a/src/io/url/sps_io_url_http.cpp b/src/io/url/sps_io_url_http.cpp
index 9e0f4b7..3c7ec4c 100644
--- a/src/io/url/sps_io_url_http.cpp
+++ b/src/io/url/sps_io_url_http.cpp
@@ -27,6 +27,8 @@ SOFTWARE.
 #include <sps_io_socket.hpp>
 #include <sps_log.hpp>
 
+#include <strings.h>
+
 #include <algorithm>
 #include <list>
 #include <memory>
@@ -44,7 +46,7 @@ std::string http_request(const std::string& method, const std::string& url,
 
     if (headers) {
         for (auto& h : *headers)
-            if (h.key != "Host")
+            if (strcasecmp(h.key.c_str(), "Host") != 0)
                 ss << h.key << ": " << h.value << CRCN;
     }
 
diff --git a/src/module/http/sps_http_parser.cpp b/src/module/http/sps_http_parser.cpp
index 63a763f..0996362 100644
--- a/src/module/http/sps_http_parser.cpp
+++ b/src/module/http/sps_http_parser.cpp
@@ -22,6 +22,7 @@ SOFTWARE.
 *****************************************************************************/
 
 #include <sps_http_parser.hpp>
+#include <strings.h>
 #include <log/sps_log.hpp>
 
 namespace sps {
@@ -53,7 +54,7 @@ const char* HttpParserContext::method() {
 
 bool HttpParserContext::contains(const std::string& key, std::string* value) {
     for (auto& h : headers) {
-        if (h.key == key) {
+        if (strcasecmp(h.key.c_str(), key.c_str()) == 0) {
             if (value) *value = h.value;
             return true;
         }
@@ -66,7 +67,7 @@ bool HttpParserContext::contains(const std::string& key,
     if (!vs) return contains(key, (std::string*) nullptr);
 
     for (auto& h : headers) {
-        if (h.key == key) {
+        if (strcasecmp(h.key.c_str(), key.c_str()) == 0) {
             (*vs).push_back(h.value);
         }
     }
-- 
2.43.0


From ea582cc8553b064fc07b17a5d3f5599b16c648ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:02 +0000
Subject: [PATCH 10/62] fix: 403 and 404 answers for streams had no length on a
 connection that stays open

---
 src/module/http/sps_http_stream_phase_handler.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/module/http/sps_http_stream_phase_handler.cpp b/src/module/http/sps_http_stream_phase_handler.cpp
index 1d6b05c..1f7fe96 100644
--- a/src/module/http/sps_http_stream_phase_handler.cpp
+++ b/src/module/http/sps_http_stream_phase_handler.cpp
@@ -50,14 +50,14 @@ error_t HttpStreamPhaseHandler::handler(IConnection& c) {
     ret = sh->handler(c);
 
     if (ret == ERROR_STREAM_PUBLISH_NOT_SUPPORT) {
-        rsp->init(403, nullptr, -1, false);
+        rsp->init(403, nullptr, 0, false);
         ret = rsp->write_header();
         sp_warn("Response %s:%d not-support %s-%s-%s status %d %d",
                 ctx.req->ip.c_str(), ctx.req->port,
                 ctx.req->get_host(), ctx.req->get_url(), ctx.req->get_params(), 403, ret);
         return ret;
     } else if (ret == ERROR_STREAM_SOURCE_NOT_EXITS) {
-        rsp->init(404, nullptr, -1, false);
+        rsp->init(404, nullptr, 0, false);
         ret = rsp->write_header();
         sp_trace("Response not-exits %s:%d %s-%s-%s status %d %d",
                  ctx.req->ip.c_str(), ctx.req->port,
-- 
2.43.0


From 3d08a5769c50479477aca3f0e3f7db406ca43696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:25 +0000
Subject: [PATCH 11/62] fix: the body of a proxied request was not forwarded
 but taken for the next request

---
 src/io/url/sps_io_url.cpp                     |  2 +-
 src/io/url/sps_io_url.hpp                     |  2 +
 src/io/url/sps_io_url_http.cpp                | 50 ++++++++++++++++---
 .../http/sps_http_proxy_phase_handler.cpp     |  3 ++
 4 files changed, 49 insertions(+), 8 deletions(-)

diff --git a/src/io/url/sps_io_url.cpp b/src/io/url/sps_io_url.cpp
index 69ca894..2afacf1 100644
--- a/src/io/url/sps_io_url.cpp
+++ b/src/io/url/sps_io_url.cpp
@@ -191,7 +191,7 @@ std::string RequestUrl::get_param(const std::string& key) {
 }
 
 bool RequestUrl::is_chunked() {
-    return get_header("Transfer-Encoding") == "chunked";
+    return strcasecmp(get_header("Transfer-Encoding").c_str(), "chunked") == 0;
 }
 
 int64_t RequestUrl::get_content_length() {
diff --git a/src/io/url/sps_io_url.hpp b/src/io/url/sps_io_url.hpp
index a5792f9..471b9a7 100644
--- a/src/io/url/sps_io_url.hpp
+++ b/src/io/url/sps_io_url.hpp
@@ -37,6 +37,7 @@ SOFTWARE.
 #include <memory>
 #include <string>
 
+#include <sps_io.hpp>
 #include <sps_util_typedef.hpp>
 
 namespace sps {
@@ -101,6 +102,7 @@ class RequestUrl {
  public:
     utime_t tm = 10 * 1000 * 1000;
     std::string ip;
+    PIReader body;  // body to send along with the request, if any
 };
 
 typedef std::shared_ptr<RequestUrl> PRequestUrl;
diff --git a/src/io/url/sps_io_url_http.cpp b/src/io/url/sps_io_url_http.cpp
index 3c7ec4c..934c194 100644
--- a/src/io/url/sps_io_url_http.cpp
+++ b/src/io/url/sps_io_url_http.cpp
@@ -38,25 +38,55 @@ SOFTWARE.
 namespace sps {
 
 std::string http_request(const std::string& method, const std::string& url,
-                         const std::string& host, const std::string& data,
+                         const std::string& host, bool has_body, bool chunked,
                          std::list<RequestHeader>* headers) {
     std::stringstream ss;
     ss  << method << " " << url << " HTTP/1.1" << CRCN
         << "Host: " << host << CRCN;
 
     if (headers) {
-        for (auto& h : *headers)
-            if (strcasecmp(h.key.c_str(), "Host") != 0)
-                ss << h.key << ": " << h.value << CRCN;
+        for (auto& h : *headers) {
+            if (strcasecmp(h.key.c_str(), "Host") == 0) continue;
+            if (strcasecmp(h.key.c_str(), "Transfer-Encoding") == 0
+                    && !(has_body && chunked)) continue;
+            if (strcasecmp(h.key.c_str(), "Content-Length") == 0
+                    && (!has_body || chunked)) continue;
+
+            ss << h.key << ": " << h.value << CRCN;
+        }
     }
 
     ss << "Accept: */" << CRCN;
-    ss << "Content-Length: " << data.size() << CRCN;
+    if (!has_body) {
+        ss << "Content-Length: 0" << CRCN;
+    }
     ss << CRCN;
 
     return ss.str();
 }
 
+error_t send_body(PIWriter io, PIReader body, bool chunked) {
+    error_t ret = SUCCESS;
+    char    buf[1024];
+    size_t  nr  = 0;
+
+    while ((ret = body->read(buf, sizeof(buf), nr)) == SUCCESS) {
+        std::string data(buf, nr);
+
+        if (chunked) {
+            std::stringstream ss;
+            ss << std::hex << nr << CRCN << data << CRCN;
+            data = ss.str();
+        }
+
+        if ((ret = io->write((void*) data.c_str(), data.size())) != SUCCESS) {
+            return ret;
+        }
+    }
+
+    return ret == ERROR_HTTP_RES_EOF ? SUCCESS : ret;
+}
+
 // TODO(byrcoder): FIX ME
 error_t HttpUrlProtocol::open(PRequestUrl& url, Transport tp) {
     error_t     ret = SUCCESS;
@@ -76,8 +106,8 @@ error_t HttpUrlProtocol::open(PRequestUrl& url, Transport tp) {
     socket->set_send_timeout(url->get_timeout());
     socket->set_recv_timeout(url->get_timeout());
 
-    auto req = http_request(url->method, url->url, url->host, "",
-                            &url->headers);
+    auto req = http_request(url->method, url->url, url->host, url->body != nullptr,
+                            url->is_chunked(), &url->headers);
 
     if ((ret = socket->write((char*) req.c_str(), req.size())) != SUCCESS) {
         sp_error("failed write %d %s:%d %s.",  ret,
@@ -85,6 +115,12 @@ error_t HttpUrlProtocol::open(PRequestUrl& url, Transport tp) {
         return ret;
     }
 
+    if (url->body && (ret = send_body(socket, url->body, url->is_chunked())) != SUCCESS) {
+        sp_error("failed write body %d %s:%d %s.",  ret,
+                 socket->get_peer_ip().c_str(), socket->get_peer_port(), req.c_str());
+        return ret;
+    }
+
     sp_debug("success open %s:%d -> request %s.", ip.c_str(),
               url->get_port(), req.c_str());
 
diff --git a/src/module/http/sps_http_proxy_phase_handler.cpp b/src/module/http/sps_http_proxy_phase_handler.cpp
index d664f35..ec16013 100644
--- a/src/module/http/sps_http_proxy_phase_handler.cpp
+++ b/src/module/http/sps_http_proxy_phase_handler.cpp
@@ -51,6 +51,9 @@ error_t HttpProxyPhaseHandler::handler(IConnection &c) {
     auto sock              = std::make_shared<HttpRequestSocket>(
                               c.socket, ctx.req->ip, ctx.req->port,
                               ctx.req->is_chunked(), ctx.req->get_content_length());
+    if (ctx.req->is_chunked() || ctx.req->get_content_length() > 0) {
+        proxy_req->body = sock;
+    }
     ctx.host->get_proxy_info(proxy_req->ip, proxy_req->port);
 
     auto     url_protocol  = protocols.create(proxy_req);
-- 
2.43.0


From a94d89d0bc6f2a29615e433a518969ad714500b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:25 +0000
Subject: [PATCH 12/62] fix: the body of a request for an unknown host was
 taken for the next request

---
 src/module/http/sps_http_phase_handler.cpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/module/http/sps_http_phase_handler.cpp b/src/module/http/sps_http_phase_handler.cpp
index bbaa237..0139511 100644
--- a/src/module/http/sps_http_phase_handler.cpp
+++ b/src/module/http/sps_http_phase_handler.cpp
@@ -73,6 +73,23 @@ error_t Http404PhaseHandler::handler(IConnection& ctx) {
         return ERROR_HTTP_SOCKET_CREATE;
     }
 
+    // the body of the request must not be taken for the next request
+    auto http_ctx = dynamic_cast<HttpContext*> (ctx.get_context().get());
+    if (http_ctx && (http_ctx->req->is_chunked()
+            || http_ctx->req->get_content_length() > 0)) {
+        HttpRequestSocket body(socket, socket->get_peer_ip(), socket->get_peer_port(),
+                               http_ctx->req->is_chunked(),
+                               http_ctx->req->get_content_length());
+        char    buf[1024];
+        size_t  nr  = 0;
+        error_t ret = SUCCESS;
+
+        while ((ret = body.read(buf, sizeof(buf), nr)) == SUCCESS) {}
+        if (ret != ERROR_HTTP_RES_EOF) {
+            return ret;
+        }
+    }
+
     http_socket->init(404, nullptr, 0, false);
     auto ret = http_socket->write_header();
 
-- 
2.43.0


From 1b1835d739b0097a3cf96032a035425ee6719fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:56 +0000
Subject: [PATCH 13/62] fix: an invalid chunk size was taken for the end of the
 body

---
 src/io/url/sps_io_url_http.cpp      | 9 ++++++++-
 src/module/http/sps_http_socket.cpp | 9 ++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/io/url/sps_io_url_http.cpp b/src/io/url/sps_io_url_http.cpp
index 934c194..f85ebf1 100644
--- a/src/io/url/sps_io_url_http.cpp
+++ b/src/io/url/sps_io_url_http.cpp
@@ -222,7 +222,14 @@ error_t HttpUrlProtocol::read_chunked_length() {
 
     tmp_buf[i-2] = '\0';  // \r
 
-    nb_chunked_left = nb_chunked_size = std::strtoul(tmp_buf, nullptr, 16);
+    char* end = nullptr;
+    nb_chunked_left = nb_chunked_size = std::strtoul(tmp_buf, &end, 16);
+
+    if (end == tmp_buf || (*end != '\0' && *end != ';' && *end != ' ')) {
+        sp_error("invalid chunked length %s", tmp_buf);
+        nb_chunked_left = 0;
+        return ERROR_HTTP_CHUNKED_INVALID;
+    }
 
     sp_debug("read chunked length %lu", nb_chunked_size);
     return ret;  // SUCCESS
diff --git a/src/module/http/sps_http_socket.cpp b/src/module/http/sps_http_socket.cpp
index 248957e..2364290 100644
--- a/src/module/http/sps_http_socket.cpp
+++ b/src/module/http/sps_http_socket.cpp
@@ -119,7 +119,14 @@ error_t HttpRequestSocket::read_chunked_length() {
 
     tmp_buf[i-2] = '\0';  // \r
 
-    nb_chunked_left = nb_chunked_size = std::strtoul(tmp_buf, nullptr, 16);
+    char* end = nullptr;
+    nb_chunked_left = nb_chunked_size = std::strtoul(tmp_buf, &end, 16);
+
+    if (end == tmp_buf || (*end != '\0' && *end != ';' && *end != ' ')) {
+        sp_error("invalid chunked length %s", tmp_buf);
+        nb_chunked_left = 0;
+        return ERROR_HTTP_CHUNKED_INVALID;
+    }
 
     sp_debug("read chunked length %lu", nb_chunked_size);
     return ret;  // SUCCESS
-- 
2.43.0


From 14f6d890b06e8e90d6db814c2eacbd3e777eac75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:22 +0000
Subject: [PATCH 14/62] fix: a failing accept crashed the server

st_accept returns NULL when the process or the system is out of file
descriptors (or the accepted connection is gone already); the result was used
without a look. Skip the connection and try again a little later. A failing
getsockname leaked the descriptor.
---
 src/module/server/sps_server.cpp    | 8 ++++++++
 src/sys/st/io/sps_sys_st_io_ssl.cpp | 6 ++++++
 src/sys/st/io/sps_sys_st_io_tcp.cpp | 6 ++++++
 3 files changed, 20 insertions(+)

diff --git a/src/module/server/sps_server.cpp b/src/module/server/sps_server.cpp
index 062f9a2..a681aa5 100644
--- a/src/module/server/sps_server.cpp
+++ b/src/module/server/sps_server.cpp
@@ -25,6 +25,7 @@ SOFTWARE.
 
 #include <sps_log.hpp>
 #include <sps_sys_st_io_ssl.hpp>
+#include <sps_sys_sync.hpp>
 
 namespace sps {
 
@@ -82,6 +83,13 @@ int Server::listen(std::string ip, int port, bool reuse_port, int backlog,
 error_t Server::accept() {
     do {
         auto io = server_socket->accept();
+
+        if (!io) {
+            // such as too many open files, retry later
+            SingleInstance<Sleep>::get_instance().usleep(10 * 1000);
+            continue;
+        }
+
         auto h  = factory->create(io);
 
         if (!h) {
diff --git a/src/sys/st/io/sps_sys_st_io_ssl.cpp b/src/sys/st/io/sps_sys_st_io_ssl.cpp
index ca44441..4a43d15 100644
--- a/src/sys/st/io/sps_sys_st_io_ssl.cpp
+++ b/src/sys/st/io/sps_sys_st_io_ssl.cpp
@@ -545,6 +545,12 @@ error_t StSSLAcceptor::handler() {
 
     do {
         auto sock = ssl.ssock->accept();
+
+        if (!sock) {
+            SingleInstance<Sleep>::get_instance().usleep(10 * 1000);
+            continue;
+        }
+
         auto ssl_sock = std::make_shared<StSSLSocket>(sock, SSL_SERVER, ssl.config, ssl.cert_searcher);
 
         // TODO: fixme with threads startup
diff --git a/src/sys/st/io/sps_sys_st_io_tcp.cpp b/src/sys/st/io/sps_sys_st_io_tcp.cpp
index 22062b9..d71705d 100644
--- a/src/sys/st/io/sps_sys_st_io_tcp.cpp
+++ b/src/sys/st/io/sps_sys_st_io_tcp.cpp
@@ -356,6 +356,11 @@ PSocket StTcpServerSocket::accept() {
     auto cfd = st_tcp_accept(server_fd, (struct sockaddr*) &addr,
                              &len, ST_UTIME_NO_TIMEOUT);
 
+    if (cfd == nullptr) {
+        sp_error("fail accept %s:%d, errno:%d", ip.c_str(), port, errno);
+        return nullptr;
+    }
+
     std::string cip;
     int         cport = 0;
     addr2string(&addr, cip, cport);
@@ -363,6 +368,7 @@ PSocket StTcpServerSocket::accept() {
     // discovery client information
     socklen_t len2 = sizeof(addr);
     if (getsockname(st_netfd_fileno(cfd), (sockaddr*) &addr, &len2) == -1) {
+        st_tcp_close(cfd);
         return nullptr;
     }
 
-- 
2.43.0


From 97481ec3cb98dceeb27281854a999c08ec1911fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:22 +0000
Subject: [PATCH 15/62] fix: an edge pull of an unknown format crashed the
 server

The demuxer factory returns nullptr for an extension it does not know; fail the
pull instead of using it.
---
 src/module/stream/sps_stream_edge.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/module/stream/sps_stream_edge.cpp b/src/module/stream/sps_stream_edge.cpp
index f6898ea..d546ef5 100644
--- a/src/module/stream/sps_stream_edge.cpp
+++ b/src/module/stream/sps_stream_edge.cpp
@@ -68,6 +68,12 @@ error_t StreamEdge::handler() {
 
     do {
         auto dec = avf.create(io, url);
+        if (!dec) {
+            sp_error("Fail found decoder %s-%s", url->get_host(), url->get_url());
+            ret = ERROR_AVFORMAT_DEMUX_NOT_EXISTS;
+            break;
+        }
+
         cache    = StreamCache::create_av_streamcache(key);
         cache->set_ctx(dec->get_av_ctx());
         cond->signal();
-- 
2.43.0


From 2010fa8611eea27c3b6c997f7d0a32cbcb676b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:22 +0000
Subject: [PATCH 16/62] fix: every failed edge pull leaked a condition variable

The edge was destroyed while the players waiting for it had been woken but not
run yet: its condition variable was busy and could not be destroyed. The waiters
now share it; so that its late end does not hit a newer edge of the same key,
stop() acts once.
---
 src/module/stream/sps_stream_edge.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/module/stream/sps_stream_edge.cpp b/src/module/stream/sps_stream_edge.cpp
index d546ef5..8d510a6 100644
--- a/src/module/stream/sps_stream_edge.cpp
+++ b/src/module/stream/sps_stream_edge.cpp
@@ -98,6 +98,9 @@ error_t StreamEdge::start() {
 }
 
 error_t StreamEdge::stop() {
+    if (!started) {
+        return SUCCESS;  // stopped already, the key may belong to another edge now
+    }
     started = false;
 
     if (cache) {
@@ -122,7 +125,8 @@ error_t StreamEdge::wait(utime_t timeout) {
 error_t StreamEdgeEnter::wait_edge(const std::string& key) {
     PStreamEdge* task = SingleInstance<StreamEdgeManager>::get_instance().get(key);
     if (task) {
-        return (*task)->wait(10 * 1000 * 1000);
+        PStreamEdge edge = *task;  // must outlive the wait
+        return edge->wait(10 * 1000 * 1000);
     }
 
     return ERROR_STREAM_EDGE_NOT_START;
-- 
2.43.0


From 969c8a4c1d90722f10e690fe7f56a6d839dc0345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:58 +0000
Subject: [PATCH 17/62] fix: one stalled TLS handshake blocked the whole https
 listener

The acceptor did the handshakes one after the other and without any timeout, so
that a client which connected and sent nothing kept everybody else out for good.
The connection now does its own handshake when it is first read or written,
under the receive and send timeouts of the server.
---
 src/sys/st/io/sps_sys_st_io_ssl.cpp | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/sys/st/io/sps_sys_st_io_ssl.cpp b/src/sys/st/io/sps_sys_st_io_ssl.cpp
index 4a43d15..979ca61 100644
--- a/src/sys/st/io/sps_sys_st_io_ssl.cpp
+++ b/src/sys/st/io/sps_sys_st_io_ssl.cpp
@@ -414,7 +414,12 @@ error_t StSSLSocket::read_fully(void* buf, size_t size, ssize_t* nread) {
 }
 
 error_t StSSLSocket::read(void* buf, size_t size, size_t& nread) {
-    error_t ret = SUCCESS;
+    error_t ret = init();
+
+    if (ret != SUCCESS) {
+        sp_error("fail ssl init ret %d", ret);
+        return ret;
+    }
 
     do {
         // read decode buffer
@@ -462,9 +467,14 @@ utime_t StSSLSocket::get_send_timeout() {
 
 error_t StSSLSocket::write(void* buf, size_t size) {
     // TODO: IMPL SSL
-    error_t ret     = SUCCESS;
+    error_t ret     = init();
     size_t  nwrite  = 0;
 
+    if (ret != SUCCESS) {
+        sp_error("fail ssl init ret %d", ret);
+        return ret;
+    }
+
     if (size == 0) {
         sp_error("fail for write empty");
         return ERROR_SSL_WRITE;
@@ -553,12 +563,7 @@ error_t StSSLAcceptor::handler() {
 
         auto ssl_sock = std::make_shared<StSSLSocket>(sock, SSL_SERVER, ssl.config, ssl.cert_searcher);
 
-        // TODO: fixme with threads startup
-        if ((ret = ssl_sock->init()) != SUCCESS) {
-            sp_error("ssl accept ret %d", ret);
-            continue;
-        }
-
+        // the handshake is done by the connection itself, within its timeouts
         ssl.push_socket(std::make_shared<Socket>(ssl_sock, sock->get_peer_ip(),
                 sock->get_peer_port()));
 
-- 
2.43.0


From 164267ec2997b47661ca998e0b325681b7c248fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:47 +0000
Subject: [PATCH 18/62] fix: a failed TLS handshake broke other TLS connections

SSL_get_error looks at the error queue of the thread, which all coroutines share:
what one failed handshake left there made the next read of every other connection
look like a protocol error instead of "need more data".
---
 src/sys/st/io/sps_sys_st_io_ssl.cpp | 3 +++
 src/sys/st/io/sps_sys_st_io_ssl.hpp | 1 +
 2 files changed, 4 insertions(+)

diff --git a/src/sys/st/io/sps_sys_st_io_ssl.cpp b/src/sys/st/io/sps_sys_st_io_ssl.cpp
index 979ca61..8cf5b08 100644
--- a/src/sys/st/io/sps_sys_st_io_ssl.cpp
+++ b/src/sys/st/io/sps_sys_st_io_ssl.cpp
@@ -344,6 +344,7 @@ error_t StSSLSocket::handshake_util_read() {
 }
 
 error_t StSSLSocket::do_handshake(bool reading) {
+    ERR_clear_error();  // the queue is shared by all connections
     int n = SSL_do_handshake(ssl);
 
     if (n == 1) {
@@ -423,6 +424,7 @@ error_t StSSLSocket::read(void* buf, size_t size, size_t& nread) {
 
     do {
         // read decode buffer
+        ERR_clear_error();  // the queue is shared by all connections
         int n  = SSL_read(ssl, buf, size);
         int r2 = BIO_ctrl_pending(rbio);
         int r3 = SSL_is_init_finished(ssl);
@@ -482,6 +484,7 @@ error_t StSSLSocket::write(void* buf, size_t size) {
 
     do {
         // write for encode to wbio
+        ERR_clear_error();  // the queue is shared by all connections
         int n = SSL_write(ssl, (char*)buf + nwrite, size - nwrite);
 
         if (n <= 0) {
diff --git a/src/sys/st/io/sps_sys_st_io_ssl.hpp b/src/sys/st/io/sps_sys_st_io_ssl.hpp
index 3182731..1f0b08e 100644
--- a/src/sys/st/io/sps_sys_st_io_ssl.hpp
+++ b/src/sys/st/io/sps_sys_st_io_ssl.hpp
@@ -28,6 +28,7 @@ SOFTWARE.
 
 #ifdef OPENSSL_ENABLED
 
+#include <openssl/err.h>
 #include <openssl/ssl.h>
 
 #include <memory>
-- 
2.43.0


From 3833f7389a2b937de581face595b42e5c0c651ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:41 +0000
Subject: [PATCH 19/62] fix: video PES of 64 KiB and more were cut, those with
 a length were read beyond their end

---
 src/avformat/sps_avformat_tsdec.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/avformat/sps_avformat_tsdec.cpp b/src/avformat/sps_avformat_tsdec.cpp
index 72786fd..e2c06b5 100644
--- a/src/avformat/sps_avformat_tsdec.cpp
+++ b/src/avformat/sps_avformat_tsdec.cpp
@@ -159,7 +159,7 @@ error_t TsDemuxer::on_h264(TsPesContext* pes) {
 
     AVCodecContext ctx(pes->dts, pes->pts, 90);
     ret = video_codec_parser->encode_avc(&ctx, pes->pes_packets->buffer(),
-                                         pes->pes_packet_length, pkts);
+                                         pes->pes_packets->size(), pkts);
 
     if (ret != SUCCESS) {
         sp_error("fail encode video ret %d", ret);
-- 
2.43.0


From 2188b9fe30292556a72d8a11e51d008eb72cf4e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:41 +0000
Subject: [PATCH 20/62] fix: the cache of a transport stream was never cleared
 and grew for ever

---
 src/avformat/sps_avformat_packet.cpp | 2 +-
 src/avformat/sps_avformat_tsdec.cpp  | 6 +++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/avformat/sps_avformat_packet.cpp b/src/avformat/sps_avformat_packet.cpp
index 40678cc..9c0dac1 100644
--- a/src/avformat/sps_avformat_packet.cpp
+++ b/src/avformat/sps_avformat_packet.cpp
@@ -121,7 +121,7 @@ bool AVPacket::is_pmt() {
 }
 
 bool AVPacket::is_payload_unit_start_indicator() {
-    return stream_type == AV_STREAM_PES && (pkt_type.pkt_type & 0x80000000)  == 1;
+    return stream_type == AV_STREAM_PES && (pkt_type.pkt_type & 0x80000000) != 0;
 }
 
 void AVPacket::debug() {
diff --git a/src/avformat/sps_avformat_tsdec.cpp b/src/avformat/sps_avformat_tsdec.cpp
index e2c06b5..3afc760 100644
--- a/src/avformat/sps_avformat_tsdec.cpp
+++ b/src/avformat/sps_avformat_tsdec.cpp
@@ -41,9 +41,13 @@ TsCache::TsCache(StreamCache::PICacheStream cache) {
 
 error_t TsCache::on_packet(uint8_t *buf, size_t len,
         TsProgramType ts_type, int payload_unit_start_indicator) {
+    auto type = (uint32_t) ts_type;
+    if (payload_unit_start_indicator) {
+        type |= 0x80000000;
+    }
     auto pkt = AVPacket::create(AV_MESSAGE_DATA,
             ts_type == TS_PROGRAM_PES ? AV_STREAM_PES : AV_STREAM_PSI,
-            AVPacketType{ts_type | (payload_unit_start_indicator >> 31)},
+            AVPacketType{(int) type},
             buf,
             len, 0, 0);
     return cache->put(pkt);
-- 
2.43.0


From d5b3e54f07ae8f198d360dd7ac05c0f8da405add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:41 +0000
Subject: [PATCH 21/62] fix: transport streams that do not start with a PES and
 counter 0 were refused

---
 src/avformat/sps_avformat_ts.cpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/avformat/sps_avformat_ts.cpp b/src/avformat/sps_avformat_ts.cpp
index 3397571..87ca8df 100644
--- a/src/avformat/sps_avformat_ts.cpp
+++ b/src/avformat/sps_avformat_ts.cpp
@@ -373,12 +373,8 @@ TsPesProgram::TsPesProgram(int pid, TsContext *ctx,
 error_t TsPesProgram::decode(TsPacket *pkt, BitContext &rd) {
     error_t ret = SUCCESS;
 
-    if (pkt->payload_unit_start_indicator == 0 && !pes_ctx->pes_packets) {
-        sp_error("[%s] pes packet is null", name);
-        return ERROR_TS_PACKET_DECODE;
-    }
-
-    if (pkt->continuity_counter != (((int) continuity_counter + 1) & 0x0f)) {
+    // the publisher may start with any counter
+    if (last_cc >= 0 && pkt->continuity_counter != ((last_cc + 1) & 0x0f)) {
         sp_error("[%s] ts pid %x, last cc %x, now %x",
                  name,
                  pid,
@@ -386,7 +382,12 @@ error_t TsPesProgram::decode(TsPacket *pkt, BitContext &rd) {
                  pkt->continuity_counter);
         return ERROR_TS_PACKET_CC_CONTINUE;
     }
-    continuity_counter = pkt->continuity_counter;
+    last_cc = continuity_counter = pkt->continuity_counter;
+
+    if (pkt->payload_unit_start_indicator == 0 && !pes_ctx->pes_packets) {
+        sp_warn("[%s] wait for the start of a pes packet", name);
+        return ret;  // the publisher started inside of it
+    }
 
     if (pkt->payload_unit_start_indicator == 0) {
         return pes_ctx->dump(rd, pkt->payload_unit_start_indicator);
@@ -764,7 +765,7 @@ error_t TsContext::decode(uint8_t* p, size_t len) {
     }
 
     // has no payload
-    if ((pkt.adaptation_filed_control & 0x01) == 0 && !program->is_section()) {
+    if ((pkt.adaptation_filed_control & 0x01) == 0) {
         return ret;
     }
 
-- 
2.43.0


From 2f722836372a88e57f5dc9d5c4df83438057cc84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:41 +0000
Subject: [PATCH 22/62] fix: malformed transport streams were read beyond their
 end

---
 src/avcodec/sps_avcodec_aac_parser.cpp |  6 ++++++
 src/avformat/sps_avformat_ts.cpp       | 15 +++++++++++++--
 src/io/sps_io_bits.cpp                 |  9 +++++++--
 3 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/src/avcodec/sps_avcodec_aac_parser.cpp b/src/avcodec/sps_avcodec_aac_parser.cpp
index 5c0d5d1..2a30397 100644
--- a/src/avcodec/sps_avcodec_aac_parser.cpp
+++ b/src/avcodec/sps_avcodec_aac_parser.cpp
@@ -173,6 +173,12 @@ error_t AacAVCodecParser::encode_avc(AVCodecContext *ctx, uint8_t *in_buf,
                      FLV_SAMPLESSIZE_16BIT | FLV_STEREO;
 
         int buf_size = tmp_header.aac_frame_length - 7 - (tmp_header.protection_absent == 1 ? 0 : 2);
+
+        if (buf_size < 0 || buf_size > (int) bc.size()) {
+            sp_error("aac frame length %d, left %lu", tmp_header.aac_frame_length, bc.size());
+            return ERROR_AAC_DECODER;
+        }
+
         auto pkt = AVPacket::create(
                 AV_MESSAGE_DATA,
                 AV_STREAM_TYPE_AUDIO,
diff --git a/src/avformat/sps_avformat_ts.cpp b/src/avformat/sps_avformat_ts.cpp
index 87ca8df..22b30af 100644
--- a/src/avformat/sps_avformat_ts.cpp
+++ b/src/avformat/sps_avformat_ts.cpp
@@ -202,6 +202,11 @@ error_t TsPmtProgram::psi_decode(TsPacket *pkt, BitContext &rd) {
     while (left_length > 0) {
         auto info = std::make_shared<PesInfo>();
 
+        if ((ret = rd.acquire(5)) != SUCCESS) {
+            sp_error("not enough size 5 ret %d", ret);
+            return ret;
+        }
+
         info->header.stream_type = rd.read_int8();
         info->header.reserved1   = rd.read_bits(3);
         info->header.elementary_pid = rd.read_bits(13);
@@ -671,7 +676,8 @@ error_t TsPesProgram::decode(TsPacket *pkt, BitContext &rd) {
         int stuff_head_size = pes_header.pes_header_data_length - (end_pos - pos);
 
         // sp_info("[%s] debug left %ld", name, rd.size());
-        if ((ret = rd.acquire(stuff_head_size)) != SUCCESS) {
+        if (stuff_head_size < 0 || (ret = rd.acquire(stuff_head_size)) != SUCCESS) {
+            ret = ret != SUCCESS ? ret : ERROR_TS_PACKET_DECODE;
             sp_error("not enough size %d, ret %d", stuff_head_size, ret);
             return ret;
         }
@@ -851,7 +857,7 @@ error_t TsAdaptationFiled::decode(BitContext& rd) {
         splice_countdown = rd.read_int8();
     }
 
-    if (flags.adaptation_field_extension_flag) {
+    if (flags.transport_private_data_flag) {
         transport_private_data_length = rd.read_int8();
 
         if ((ret = rd.acquire(transport_private_data_length)) != SUCCESS) {
@@ -864,6 +870,11 @@ error_t TsAdaptationFiled::decode(BitContext& rd) {
                        transport_private_data_length);
     }
 
+    if (rd.pos() - pos > adaption_field_length) {
+        sp_error("adaptation field length %d too short", adaption_field_length);
+        return ERROR_TS_PACKET_DECODE;
+    }
+
     // stuffing_byte
     stuffing_length = adaption_field_length - (rd.pos() - pos);
     rd.skip_read_bytes(stuffing_length);
diff --git a/src/io/sps_io_bits.cpp b/src/io/sps_io_bits.cpp
index 9ea0c9d..f45c213 100644
--- a/src/io/sps_io_bits.cpp
+++ b/src/io/sps_io_bits.cpp
@@ -49,6 +49,9 @@ uint8_t* BitContext::pos() {
 }
 
 size_t BitContext::size_bits() {
+    if (buf_pos + 1 > (int64_t) sz) {
+        return 0;
+    }
     return (sz - buf_pos - 1) * 8 + remain_bits;
 }
 
@@ -57,7 +60,7 @@ size_t BitContext::size() {
 }
 
 error_t BitContext::acquire(uint32_t nbyte) {
-    return acquire_bits(nbyte * 8);
+    return acquire_bits((size_t) nbyte * 8);
 }
 
 error_t BitContext::acquire_bits(size_t nbit) {
@@ -66,11 +69,13 @@ error_t BitContext::acquire_bits(size_t nbit) {
 
 void BitContext::read_bytes(uint8_t* c, size_t n) {
     assert(remain_bits == 0);
+    n = std::min(n, size());
     memcpy((char *) c, buf + buf_pos + 1, n);
     buf_pos += n;
 }
 
 void BitContext::skip_read_bytes(size_t n) {
+    n = std::min(n, size());
     buf_pos += n;
 
     // remain_value is invalid
@@ -209,7 +214,7 @@ void BitContext::next() {
     assert(remain_bits == 0);
     ++buf_pos;
     remain_bits  = 8;
-    remain_value = *(buf+buf_pos);
+    remain_value = buf_pos < (int64_t) sz ? buf[buf_pos] : 0;  // never beyond the end
 }
 
 void BitContext::next_write() {
-- 
2.43.0


From ee9839dfe5ec9b75e155791c87770f9a3d7e1cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:41 +0000
Subject: [PATCH 23/62] fix: the AAC configuration was sent again for every
 frame with a CRC

---
 src/avcodec/sps_avcodec_aac_parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/avcodec/sps_avcodec_aac_parser.cpp b/src/avcodec/sps_avcodec_aac_parser.cpp
index 2a30397..d58e997 100644
--- a/src/avcodec/sps_avcodec_aac_parser.cpp
+++ b/src/avcodec/sps_avcodec_aac_parser.cpp
@@ -55,7 +55,7 @@ AdtsFixedHeader::AdtsFixedHeader() {
 }
 
 bool AdtsFixedHeader::operator==(const AdtsFixedHeader &header) {
-    return protection_absent = header.protection_absent &&
+    return protection_absent == header.protection_absent &&
             profile == header.profile &&
             sampling_frequency_index == header.sampling_frequency_index &&
                     channel_configuration == header.channel_configuration &&
-- 
2.43.0


From 216449cfa5b6a7add7408bd996f547b4290e0542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:41 +0000
Subject: [PATCH 24/62] fix: the last parameter of an SRT stream id was lost
 ("m=request" became a publish)

---
 src/module/srt/sps_srt_server_handler.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/module/srt/sps_srt_server_handler.cpp b/src/module/srt/sps_srt_server_handler.cpp
index 3616603..b7416e9 100644
--- a/src/module/srt/sps_srt_server_handler.cpp
+++ b/src/module/srt/sps_srt_server_handler.cpp
@@ -67,6 +67,11 @@ PRequestUrl get_url_by_streamid(const std::string& streamid) {
         ++p;
     }
 
+    if (!param.key.empty()) {  // the last one needs no ','
+        param.value = std::string(start, end - start);
+        params.push_back(param);
+    }
+
     std::string url = "";
     std::string mode = "";
     for(auto& p : params) {
-- 
2.43.0


From a1aea2ee665cc83c0c624ab5b92f21a74a259b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:44 +0000
Subject: [PATCH 25/62] fix: data split over SRT messages overwrote itself when
 read fully

---
 src/sys/st/io/sps_sys_st_io_srt.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sys/st/io/sps_sys_st_io_srt.cpp b/src/sys/st/io/sps_sys_st_io_srt.cpp
index b1d7769..a008447 100644
--- a/src/sys/st/io/sps_sys_st_io_srt.cpp
+++ b/src/sys/st/io/sps_sys_st_io_srt.cpp
@@ -689,7 +689,7 @@ error_t StSrtSocket::read_fully(void* buf, size_t size, ssize_t* nread) {
     int    ret   = SUCCESS;
     while (n < size) {
         size_t nr = 0;
-        ret       = this->read(buf, size-n, nr);
+        ret       = this->read(reinterpret_cast<uint8_t*>(buf) + n, size-n, nr);
         if (ret != SUCCESS) {
             if (nread) {
                 *nread = n;
-- 
2.43.0


From 02eac2baca36e682555c3a13f00c1fa2a2557d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:44 +0000
Subject: [PATCH 26/62] fix: the SRT bind without a prepared socket always
 failed or was not checked

---
 src/sys/st/io/sps_sys_st_io_srt.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sys/st/io/sps_sys_st_io_srt.cpp b/src/sys/st/io/sps_sys_st_io_srt.cpp
index a008447..b0809d2 100644
--- a/src/sys/st/io/sps_sys_st_io_srt.cpp
+++ b/src/sys/st/io/sps_sys_st_io_srt.cpp
@@ -313,7 +313,7 @@ failed:
         }
 
         if (srt_bind(fd, reinterpret_cast<struct sockaddr*>(&self_addr),
-                sizeof(self_addr) == SRT_ERROR)) {
+                sizeof(self_addr)) == SRT_ERROR) {
             sp_error("[srt_bind]: socket addr failed, server:%s, port:%d", server.c_str(), port);
             return ERROR_SRT_SOCKET_BIND;
         }
-- 
2.43.0


From a93681edc2cbaac88bd8d8e9d12ac0a84ac983c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:44 +0000
Subject: [PATCH 27/62] fix: a failed SRT accept was taken for a connection

---
 src/sys/st/io/sps_sys_st_io_srt.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/sys/st/io/sps_sys_st_io_srt.cpp b/src/sys/st/io/sps_sys_st_io_srt.cpp
index b0809d2..e9ad57a 100644
--- a/src/sys/st/io/sps_sys_st_io_srt.cpp
+++ b/src/sys/st/io/sps_sys_st_io_srt.cpp
@@ -340,7 +340,7 @@ SRTSOCKET st_srt_accept(SRTSOCKET fd, struct sockaddr *addr, int *addrlen, utime
             if (ret != SUCCESS) {
                 sp_error("[st_srt_accept]: srt epoll failed, fd:%d, "
                            "ret:%d, err:%s", fd, ret, err.c_str());
-                return ret;
+                return SRT_INVALID_SOCK;
             }
         } else {
             sp_error("[st_srt_accept] failed, fd:%d, ret:%d, err:%s", fd, ret, err.c_str());
@@ -787,6 +787,9 @@ PSocket StSrtServerSocket::accept() {
 
     SRTSOCKET c_fd = st_srt_accept(server_fd, (struct sockaddr*) &addr,
             &addr_len, ST_UTIME_NO_TIMEOUT);
+    if (c_fd == SRT_INVALID_SOCK) {
+        return nullptr;
+    }
     auto srt_socket = std::make_shared<StSrtSocket>(c_fd);
 
     if (inet_ntop(addr.sin_family, &addr.sin_addr, buf, sizeof(buf)) == NULL) {
-- 
2.43.0


From e9c147f3ed5a746984e1c89a50b8499a671703d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:44 +0000
Subject: [PATCH 28/62] fix: SRT sessions that timed out left their wait entry
 behind

---
 src/sys/st/io/sps_sys_st_io_srt.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/sys/st/io/sps_sys_st_io_srt.cpp b/src/sys/st/io/sps_sys_st_io_srt.cpp
index e9ad57a..6bc1130 100644
--- a/src/sys/st/io/sps_sys_st_io_srt.cpp
+++ b/src/sys/st/io/sps_sys_st_io_srt.cpp
@@ -555,8 +555,13 @@ int SrtStDispatch::st_srt_epoll(SRTSOCKET fd, StSrtEvent event, utime_t timeout,
     conditions[fd].insert(cnd);
     ret = st_cond_timedwait(cnd->cond, timeout);
 
-    if (conditions.count(fd))
-        conditions[fd].erase(cnd);
+    it = conditions.find(fd);
+    if (it != conditions.end()) {
+        it->second.erase(cnd);
+        if (it->second.empty()) {
+            conditions.erase(it);
+        }
+    }
 
     int old_evt = get_exits_evt(fd);
 
@@ -617,7 +622,7 @@ error_t SrtStDispatch::handler()  {
             // empty event removed from events
             if (it == conditions.end()) {
                 sp_error("unknow srt_fd:%d", event.fd);
-                UDT::epoll_remove_ssock(srt_eid, event.fd);
+                UDT::epoll_remove_usock(srt_eid, event.fd);
             } else {
                 auto& sets = it->second;
                 int  err = 0;
-- 
2.43.0


From df2fd514c2de79c7f9d190f036d0b73d9aa096ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:44 +0000
Subject: [PATCH 29/62] fix: the network information table was decoded as a
 program map

---
 src/avformat/sps_avformat_ts.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/avformat/sps_avformat_ts.cpp b/src/avformat/sps_avformat_ts.cpp
index 22b30af..30f6156 100644
--- a/src/avformat/sps_avformat_ts.cpp
+++ b/src/avformat/sps_avformat_ts.cpp
@@ -139,7 +139,9 @@ error_t TsPatProgram::psi_decode(TsPacket *pkt, BitContext &rd) {
             info.reserved        = rd.read_bits(3);
             info.program_map_pid = rd.read_bits(13);
 
-            pmt_infos.push_back(info);
+            if (info.program_number != 0) {  // 0 is the network information table
+                pmt_infos.push_back(info);
+            }
             left_length -= 4;
         }
     }
-- 
2.43.0


From 6bad551cc1fe4377969072d1377d92bcd256801e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:26:14 +0000
Subject: [PATCH 30/62] fix: SRT stream ids that give the whole url were
 refused

---
 src/module/srt/sps_srt_server_handler.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/module/srt/sps_srt_server_handler.cpp b/src/module/srt/sps_srt_server_handler.cpp
index b7416e9..c7397f5 100644
--- a/src/module/srt/sps_srt_server_handler.cpp
+++ b/src/module/srt/sps_srt_server_handler.cpp
@@ -82,7 +82,7 @@ PRequestUrl get_url_by_streamid(const std::string& streamid) {
         }
     }
 
-    if (url.substr(0, 5) != "srt://") {
+    if (url.substr(0, 6) != "srt://") {
         url = "srt://" + url;
     }
 
-- 
2.43.0


From 4da87ceb3ee14f4a9ae31f79e0a18e60ee3ee433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:17 +0000
Subject: [PATCH 31/62] fix: a comment with a ";", "{" or "}" before its end
 made the configuration invalid

---
 src/module/sps_module.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/module/sps_module.cpp b/src/module/sps_module.cpp
index 723a584..0fbd452 100644
--- a/src/module/sps_module.cpp
+++ b/src/module/sps_module.cpp
@@ -227,6 +227,11 @@ error_t IModule::parse(const std::string &line, std::string &cmd,
             continue;
         }
 
+        if (args.empty() && tmp_arg[0] == '#') {
+            lt = COMMENT;
+            return SUCCESS;
+        }
+
         if (found_end) {
             if (tmp_arg[0] == '#') {
                 break; // ignore #
@@ -261,11 +266,6 @@ error_t IModule::parse(const std::string &line, std::string &cmd,
         return SUCCESS;
     }
 
-    if (args[0][0] == '#') {
-        lt = COMMENT;
-        return SUCCESS;
-    }
-
     if (!found_end) {  // no end flag
         sp_error("Fatal no end flag %s", line.c_str());
         return ERROR_CONFIG_PARSE_INVALID;
-- 
2.43.0


From 60d2ed0d06222595ed6910f36b70c88f627432f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:07 +0000
Subject: [PATCH 32/62] fix: the hosts of a second server block with the same
 port were unknown

---
 src/module/server/sps_server_module.cpp | 32 +++++++++++++++++--------
 src/module/server/sps_server_module.hpp |  1 +
 2 files changed, 23 insertions(+), 10 deletions(-)

diff --git a/src/module/server/sps_server_module.cpp b/src/module/server/sps_server_module.cpp
index f0dce52..626e24a 100644
--- a/src/module/server/sps_server_module.cpp
+++ b/src/module/server/sps_server_module.cpp
@@ -23,6 +23,8 @@ SOFTWARE.
 
 #include <sps_server_module.hpp>
 
+#include <algorithm>
+
 #include <sps_host_global_module.hpp>
 #include <sps_log.hpp>
 
@@ -53,6 +55,7 @@ error_t ServerModule::get_router(ServerModule* sm, PHostModulesRouter& hr) {
             return ret;
         }
     }
+    sm->router = hr;
     return ret;
 }
 
@@ -85,7 +88,7 @@ error_t ServerModule::merge(PIModule& module) {
 
     if (module->is_module("globalhost")) {
         sp_info("merge globalhost");
-        merge_global(module);
+        return merge_global(module);
     }
 
     if (module->is_module("root")) {
@@ -95,7 +98,9 @@ error_t ServerModule::merge(PIModule& module) {
             }
 
             for (auto m : it.second) {
-                merge_global(m);
+                if ((ret = merge_global(m)) != SUCCESS) {
+                    return ret;
+                }
             }
         }
     }
@@ -115,12 +120,7 @@ error_t ServerModule::merge_global(PIModule& module) {
         exit(-1);
     }
 
-    for (auto& hm : dm->host_modules) {
-        sp_debug("server merge global host %s", hm->module_name.c_str());
-        host_modules.push_back(hm);
-    }
-
-    return SUCCESS;
+    return merge_hosts(dm->host_modules);
 }
 
 error_t ServerModule::install() {
@@ -214,8 +214,20 @@ error_t ServerModule::merge_server(PServerModule server_module) {
 }
 
 error_t ServerModule::merge_hosts(std::vector<PHostModule>& hosts) {
-    host_modules.insert(host_modules.end(), hosts.begin(), hosts.end());
-    return SUCCESS;
+    error_t ret = SUCCESS;
+
+    for (auto& h : hosts) {
+        if (std::find(host_modules.begin(), host_modules.end(), h)
+                != host_modules.end()) {
+            continue;  // shared by both, such as a global host
+        }
+
+        if (router && (ret = router->register_host(h)) != SUCCESS) {
+            return ret;
+        }
+        host_modules.push_back(h);
+    }
+    return ret;
 }
 
 
diff --git a/src/module/server/sps_server_module.hpp b/src/module/server/sps_server_module.hpp
index 238038e..384c9dd 100644
--- a/src/module/server/sps_server_module.hpp
+++ b/src/module/server/sps_server_module.hpp
@@ -113,6 +113,7 @@ class ServerModule : public IModule {
  private:
     PIConnHandlerFactory socket_handler;
     PServer              server;
+    PHostModulesRouter   router;   // of a server that listens
 };
 
 MODULE_FACTORY(Server)
-- 
2.43.0


From de6dfc523cd3e04d12929d0c2ca65786645823f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:07 +0000
Subject: [PATCH 33/62] fix: a server with the port of a server of another
 transport was not started

---
 src/module/server/sps_server_module.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/module/server/sps_server_module.cpp b/src/module/server/sps_server_module.cpp
index 626e24a..0cfb581 100644
--- a/src/module/server/sps_server_module.cpp
+++ b/src/module/server/sps_server_module.cpp
@@ -31,7 +31,9 @@ SOFTWARE.
 namespace sps {
 
 bool ServerCompare::operator()(const ServerConfCtx& s1, const ServerConfCtx& s2) const {
-    return s1.listen_port < s2.listen_port;
+    // srt has udp ports
+    bool u1 = s1.transport == "srt", u2 = s2.transport == "srt";
+    return s1.listen_port != s2.listen_port ? s1.listen_port < s2.listen_port : u1 < u2;
 }
 
 std::map<ServerConfCtx, PServerModule, ServerCompare> ServerModule::server_modules;
@@ -210,6 +212,14 @@ error_t ServerModule::post_install(PHostModulesRouter router) {
 }
 
 error_t ServerModule::merge_server(PServerModule server_module) {
+    auto c1 = std::static_pointer_cast<sps::ServerConfCtx>(conf);
+    auto c2 = std::static_pointer_cast<sps::ServerConfCtx>(server_module->conf);
+
+    if (c1->transport != c2->transport) {
+        sp_error("port %d is %s already, not %s", c1->listen_port,
+                 c1->transport.c_str(), c2->transport.c_str());
+        return ERROR_CONFIG_PARSE_INVALID;
+    }
     return merge_hosts(server_module->host_modules);
 }
 
-- 
2.43.0


From 9cbf576ffec3600d33402efc1263d62acfb81f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:07 +0000
Subject: [PATCH 34/62] fix: hosts that are not enabled were served

---
 src/module/host/sps_host_module.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/module/host/sps_host_module.cpp b/src/module/host/sps_host_module.cpp
index 35a275b..69c5bb7 100644
--- a/src/module/host/sps_host_module.cpp
+++ b/src/module/host/sps_host_module.cpp
@@ -160,6 +160,10 @@ std::string HostModulesRouter::get_wildcard_host(std::string host) {
 }
 
 error_t HostModulesRouter::register_host(PHostModule host) {
+    if (!host->enabled()) {
+        return SUCCESS;
+    }
+
     if (host->module_name[0] != '*') {
         if (exact_hosts.count(host->module_name)) {
             sp_error("dup host %s", host->module_name.c_str());
-- 
2.43.0


From 150a4e62fe1a63cc68be0078da5d4cdc20ad643d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:08 +0000
Subject: [PATCH 35/62] fix: when the SRT dispatcher failed to start, the SRT
 servers never accepted anything

---
 src/sys/st/io/sps_sys_st_io_srt.cpp | 30 +++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/src/sys/st/io/sps_sys_st_io_srt.cpp b/src/sys/st/io/sps_sys_st_io_srt.cpp
index 6bc1130..7e5a26c 100644
--- a/src/sys/st/io/sps_sys_st_io_srt.cpp
+++ b/src/sys/st/io/sps_sys_st_io_srt.cpp
@@ -39,7 +39,14 @@ namespace sps {
 static StSrtMode default_srt_mode = ST_SRT_MODE_LIVE;
 
 int st_srt_epoll(SRTSOCKET fd, StSrtEvent evt, utime_t tm, std::string& err) {
-    int ret = SrtStDispatch::get_instance()->st_srt_epoll(fd, evt, tm, err);
+    auto dispatch = SrtStDispatch::get_instance();
+
+    if (!dispatch) {
+        err = "srt dispatch not started";
+        return ERROR_SRT_SOCKET_UNKNOWN;
+    }
+
+    int ret = dispatch->st_srt_epoll(fd, evt, tm, err);
 
     if (ret != 0) {
         sp_error("srt epoll failed fd:%d, ret:%d, err:%s", fd, ret, err.c_str());
@@ -502,8 +509,11 @@ SrtEventCondition::~SrtEventCondition() {
 SrtStDispatch* SrtStDispatch::get_instance() {
     thread_local std::shared_ptr<SrtStDispatch> srt_dispatch;
     if (srt_dispatch.get() == nullptr) {
-        srt_dispatch = std::make_shared<SrtStDispatch>();
-        srt_dispatch->init();
+        auto dispatch = std::make_shared<SrtStDispatch>();
+        if (dispatch->init() != SUCCESS) {
+            return nullptr;  // the next use tries again
+        }
+        srt_dispatch = dispatch;
     }
     return srt_dispatch.get();
 }
@@ -519,8 +529,20 @@ SrtStDispatch::~SrtStDispatch() {
 int SrtStDispatch::init() {
     srt_eid = srt_epoll_create();
 
+    if (srt_eid < 0) {
+        sp_error("srt epoll create failed ret:%d", srt_eid);
+        return ERROR_SRT_SOCKET_CREATE;
+    }
+
     srt_epoll_set(srt_eid, SRT_EPOLL_ENABLE_EMPTY);
-    return sps::ICoFactory::get_instance().start(shared_from_this());
+
+    int ret = sps::ICoFactory::get_instance().start(shared_from_this());
+    if (ret != SUCCESS) {
+        sp_error("srt dispatch start failed ret:%d", ret);
+        srt_epoll_release(srt_eid);
+        srt_eid = -1;
+    }
+    return ret;
 }
 
 int SrtStDispatch::st_srt_epoll(SRTSOCKET fd, StSrtEvent event, utime_t timeout, std::string& err) {
-- 
2.43.0


From 30924c834f86242e1dea56a3762c720f77ee6c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:43 +0000
Subject: [PATCH 36/62] fix: a UDP socket sent to the local host whatever its
 peer was

---
 src/sys/st/io/sps_sys_st_io_udp.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/sys/st/io/sps_sys_st_io_udp.cpp b/src/sys/st/io/sps_sys_st_io_udp.cpp
index f5d42e6..bacb2ad 100644
--- a/src/sys/st/io/sps_sys_st_io_udp.cpp
+++ b/src/sys/st/io/sps_sys_st_io_udp.cpp
@@ -113,6 +113,10 @@ StUdpClientSocket::StUdpClientSocket(const std::string& peer_ip, int peer_port,
     peer_addr.sin_addr.s_addr   =   htonl(INADDR_ANY);
     peer_addr.sin_port          =   htons(peer_port);
 
+    if (!peer_ip.empty() && inet_pton(AF_INET, peer_ip.c_str(), &peer_addr.sin_addr) != 1) {
+        sp_error("invalid udp peer ip %s", peer_ip.c_str());
+    }
+
     int opt = 1;
     setsockopt(st_netfd_fileno(this->fd->get_fd()), IPPROTO_IP, IP_PKTINFO, &opt, sizeof(opt));
 }
-- 
2.43.0


From 5b6765ba501f7875ca545a9fb7fc81a360d8baa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:43 +0000
Subject: [PATCH 37/62] fix: the own address of a UDP session was read from the
 wrong bytes

---
 src/sys/st/io/sps_sys_st_io_udp.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/sys/st/io/sps_sys_st_io_udp.cpp b/src/sys/st/io/sps_sys_st_io_udp.cpp
index bacb2ad..d07c617 100644
--- a/src/sys/st/io/sps_sys_st_io_udp.cpp
+++ b/src/sys/st/io/sps_sys_st_io_udp.cpp
@@ -231,7 +231,11 @@ error_t StUdpClientSocket::read(void *buf, size_t size, size_t &nread,
         // pi->ipi_spec_dst is the destination in_addr
         // pi->ipi_addr is the receiving interface in_addr
 
-        addr2string((struct sockaddr_in *)&pi->ipi_addr, dst_ip, dst_port);
+        struct sockaddr_in dst_addr;
+        memset(&dst_addr, 0, sizeof(dst_addr));
+        dst_addr.sin_family = AF_INET;
+        dst_addr.sin_addr   = pi->ipi_addr;
+        addr2string(&dst_addr, dst_ip, dst_port);
     }
 
     nread = n;
-- 
2.43.0


From 0feb48b5573d66cf2d69f49b83d6768fb14edf32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:43 +0000
Subject: [PATCH 38/62] fix: all the peers of a UDP server shared one session
 and got no replies

---
 src/sys/st/io/sps_sys_st_io_udp.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sys/st/io/sps_sys_st_io_udp.cpp b/src/sys/st/io/sps_sys_st_io_udp.cpp
index d07c617..2a9430c 100644
--- a/src/sys/st/io/sps_sys_st_io_udp.cpp
+++ b/src/sys/st/io/sps_sys_st_io_udp.cpp
@@ -238,6 +238,7 @@ error_t StUdpClientSocket::read(void *buf, size_t size, size_t &nread,
         addr2string(&dst_addr, dst_ip, dst_port);
     }
 
+    addr2string(&from_addr, peer_ip, peer_port);
     nread = n;
     return SUCCESS;
 }
-- 
2.43.0


From 182355911c1959a8245adda469c49afd683f3a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:58 +0000
Subject: [PATCH 39/62] fix: choosing AAC for an RTP receiver was reported as
 an error

---
 src/avformat/sps_avformat_rtpdec.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/avformat/sps_avformat_rtpdec.cpp b/src/avformat/sps_avformat_rtpdec.cpp
index 3324d07..e647106 100644
--- a/src/avformat/sps_avformat_rtpdec.cpp
+++ b/src/avformat/sps_avformat_rtpdec.cpp
@@ -77,6 +77,7 @@ error_t RtpDemuxer::init_codec(int codec_id) {
             break;
         case AVCODEC_AAC:
             rtp_decoder = std::make_shared<AacRtpDecoder>();
+            break;
         default:
             sp_error("not found codec %d", codec_id);
             return ERROR_RTP_PROBE;
-- 
2.43.0


From d006fe652d9283298d6f9e2d1075b1af9d9b3029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:58 +0000
Subject: [PATCH 40/62] fix: the marker bit was taken for a part of the RTP
 payload type

---
 src/avformat/sps_avformat_rtpdec.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/avformat/sps_avformat_rtpdec.cpp b/src/avformat/sps_avformat_rtpdec.cpp
index e647106..37eeb5b 100644
--- a/src/avformat/sps_avformat_rtpdec.cpp
+++ b/src/avformat/sps_avformat_rtpdec.cpp
@@ -128,7 +128,7 @@ error_t RtpDemuxer::read_packet(PAVPacket& buffer) {
             continue;
         }
 
-        if (!rtp_decoder && (ret = init_rtp_decode(pay_type)) != SUCCESS) {
+        if (!rtp_decoder && (ret = init_rtp_decode(pay_type & 0x7f)) != SUCCESS) {
             sp_error("[rtp] decoder not init ret %d", ret);
             return ERROR_RTP_PROBE;
         }
-- 
2.43.0


From 71985c3fca6b0095c723c5fddc35300fbe5de7bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:58 +0000
Subject: [PATCH 41/62] fix: an RTCP packet shorter than 12 bytes swallowed the
 packet after it

---
 src/avformat/sps_avformat_rtpdec.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/avformat/sps_avformat_rtpdec.cpp b/src/avformat/sps_avformat_rtpdec.cpp
index 37eeb5b..216e7e8 100644
--- a/src/avformat/sps_avformat_rtpdec.cpp
+++ b/src/avformat/sps_avformat_rtpdec.cpp
@@ -112,14 +112,18 @@ error_t RtpDemuxer::read_packet(PAVPacket& buffer) {
             return ret;
         }
 
-        RtpPayloadHeader rtp_header;
-        if ((ret = rd->acquire(12)) != SUCCESS) {
+        // one datagram, RTCP ones may be shorter than a rtp header
+        if ((ret = rd->acquire(1)) != SUCCESS) {
             return ret;
         }
 
         uint8_t* p   = rd->pos();
         size_t   len = rd->size();
 
+        if (len < 2) {
+            continue;
+        }
+
         uint8_t pay_type = p[1];
         if (is_rtcp(pay_type)) {
             if ((ret = rtcp_decoder->decode(p, len, pkts)) != SUCCESS) {
-- 
2.43.0


From e119999eef0610acb2fcb5a9b7d164bf071ebaf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:58 +0000
Subject: [PATCH 42/62] fix: one malformed datagram ended the reception of an
 RTP stream

---
 src/avformat/sps_avformat_rtpdec.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/avformat/sps_avformat_rtpdec.cpp b/src/avformat/sps_avformat_rtpdec.cpp
index 216e7e8..cb1b077 100644
--- a/src/avformat/sps_avformat_rtpdec.cpp
+++ b/src/avformat/sps_avformat_rtpdec.cpp
@@ -127,18 +127,18 @@ error_t RtpDemuxer::read_packet(PAVPacket& buffer) {
         uint8_t pay_type = p[1];
         if (is_rtcp(pay_type)) {
             if ((ret = rtcp_decoder->decode(p, len, pkts)) != SUCCESS) {
-                return ret;
+                sp_warn("[rtp] ignore rtcp packet ret %d", ret);
             }
             continue;
         }
 
         if (!rtp_decoder && (ret = init_rtp_decode(pay_type & 0x7f)) != SUCCESS) {
-            sp_error("[rtp] decoder not init ret %d", ret);
-            return ERROR_RTP_PROBE;
+            sp_warn("[rtp] ignore packet, decoder not init ret %d", ret);
+            continue;
         }
 
         if ((ret = rtp_decoder->decode(p, len, pkts)) != SUCCESS) {
-            return ret;
+            sp_warn("[rtp] ignore packet ret %d", ret);
         }
 
     } while (true);
-- 
2.43.0


From 1327012480f0c4bb15c1bf69c0f15f47c2530487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:58 +0000
Subject: [PATCH 43/62] fix: the length of an RTP header extension counts
 32-bit words

---
 src/avformat/sps_avformat_rtp.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/avformat/sps_avformat_rtp.cpp b/src/avformat/sps_avformat_rtp.cpp
index 72476d7..35c03f3 100644
--- a/src/avformat/sps_avformat_rtp.cpp
+++ b/src/avformat/sps_avformat_rtp.cpp
@@ -100,14 +100,17 @@ error_t RtpPayloadHeader::decode_extension(BitContext &bc) {
         return ret;
     }
 
-    if ((ret = bc.acquire(extension_info.length)) != SUCCESS) {
+    // in 32-bit words
+    size_t size = extension_info.length * 4;
+
+    if ((ret = bc.acquire(size)) != SUCCESS) {
         sp_error("fail require rtp header extension length %u",
                  extension_info.length);
         return ret;
     }
 
-    extension_info.header_extension = std::make_unique<uint8_t[]>(extension_info.length);
-    bc.read_bytes(extension_info.header_extension.get(), extension_info.length);
+    extension_info.header_extension = std::make_unique<uint8_t[]>(size);
+    bc.read_bytes(extension_info.header_extension.get(), size);
 
     return ret;
 }
-- 
2.43.0


From 2874a2a9d9880b4f72eb6bef6e48e3e3b8512dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:58 +0000
Subject: [PATCH 44/62] fix: the padding of RTP packets was taken for media

---
 src/avformat/sps_avformat_rtpdec.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/avformat/sps_avformat_rtpdec.cpp b/src/avformat/sps_avformat_rtpdec.cpp
index cb1b077..0fe95c0 100644
--- a/src/avformat/sps_avformat_rtpdec.cpp
+++ b/src/avformat/sps_avformat_rtpdec.cpp
@@ -38,6 +38,15 @@ SOFTWARE.
 namespace sps {
 
 error_t IRtpDecoder::decode(uint8_t *buffer, int size, std::list<PAVPacket> &pkts) {
+    // the last byte counts the padding
+    if (size > 12 && (buffer[0] & 0x20)) {
+        if (buffer[size - 1] > size - 12) {
+            sp_error("[rtp] invalid padding %d", buffer[size - 1]);
+            return ERROR_IO_NOT_ENOUGH;
+        }
+        size -= buffer[size - 1];
+    }
+
     BitContext       bc(buffer, size);
     RtpPayloadHeader rtp_header;
     error_t          ret = SUCCESS;
-- 
2.43.0


From 643105c90cbdb5dda0702e4907f10437cd8c26cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:58 +0000
Subject: [PATCH 45/62] fix: an RTCP source description was decoded past the
 end of its list

---
 src/avformat/sps_avformat_rtpdec_rtcp.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/avformat/sps_avformat_rtpdec_rtcp.cpp b/src/avformat/sps_avformat_rtpdec_rtcp.cpp
index e34f73c..bf35e9e 100644
--- a/src/avformat/sps_avformat_rtpdec_rtcp.cpp
+++ b/src/avformat/sps_avformat_rtpdec_rtcp.cpp
@@ -155,9 +155,9 @@ error_t RtcpSDESDecoder::decode(RtcpHead &h, BitContext &bc) {
 
     for (int i = 0; i < h.cflag; ++i) {
         sdes.push_back(sd);
-        auto it = sdes.end();
+        auto& it = sdes.back();
 
-        if ((ret = it->decode(bc)) != SUCCESS) {
+        if ((ret = it.decode(bc)) != SUCCESS) {
             sp_error("[rtp@rtcp] sdes decode %dth fail num %d, ret %d", i, (int) h.cflag, ret);
             return ret;
         }
-- 
2.43.0


From 7ddccf5d821335e22a4a734be651c015c9733c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:58 +0000
Subject: [PATCH 46/62] fix: the NAL units of an RTP aggregation packet were
 cut at the wrong places

---
 src/avformat/sps_avformat_rtpdec_h264_hevc.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/avformat/sps_avformat_rtpdec_h264_hevc.cpp b/src/avformat/sps_avformat_rtpdec_h264_hevc.cpp
index 6821c0f..c9540a0 100644
--- a/src/avformat/sps_avformat_rtpdec_h264_hevc.cpp
+++ b/src/avformat/sps_avformat_rtpdec_h264_hevc.cpp
@@ -90,23 +90,31 @@ error_t StapRtpDecoder::decode(int tp, RtpPayloadHeader &header,
                                BitContext &bc, std::list<PAVPacket> &pkts) {
     error_t ret = SUCCESS;
 
+    bc.skip_read_bytes(1);  // stap header
+
     if (tp == STAP_B) {
         bc.skip_read_bytes(2);
     }
 
     while (bc.size() > 0) {
-        int size = bc.read_int8();
+        if ((ret = bc.acquire(2)) != SUCCESS) {
+            return ret;
+        }
+
+        int size = bc.read_int16();
 
         if ((ret = bc.acquire(size)) != SUCCESS) {
             return ret;
         }
 
         NaluRtpDecoder dc;
-        ret = dc.decode(tp, header, bc, pkts);
+        BitContext nbc(bc.pos(), size);
+        ret = dc.decode(tp, header, nbc, pkts);
         if (ret != SUCCESS) {
             sp_error("[rtp@h264] stap-decode ret %d", ret);
             return ret;
         }
+        bc.skip_read_bytes(size);
     }
 
     return ret;
-- 
2.43.0


From 96c7d1e91ecfd3408a71ee9473c1e499e39e914a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:58 +0000
Subject: [PATCH 47/62] fix: losing the end of a fragmented NAL unit ended the
 stream for good

---
 src/avformat/sps_avformat_rtpdec_h264_hevc.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/avformat/sps_avformat_rtpdec_h264_hevc.cpp b/src/avformat/sps_avformat_rtpdec_h264_hevc.cpp
index c9540a0..7c4bac4 100644
--- a/src/avformat/sps_avformat_rtpdec_h264_hevc.cpp
+++ b/src/avformat/sps_avformat_rtpdec_h264_hevc.cpp
@@ -176,7 +176,8 @@ error_t FuRtpDecoder::decode(int tp, RtpPayloadHeader &header,
         sp_debug("fu starting tp %d, indicator %d", tp, fu.indicator.tp);
 
         if (pkt) {
-            return ERROR_RTP_DECODER_H264;
+            // the end of the last nalu is lost
+            pkt.reset();
             //            NaluRtpDecoder dc;
             //            RtpPayloadHeader tmp_header;
             //            tmp_header.fix_header.timestamp = pre_rtp_timestamp;
-- 
2.43.0


From e6aa1e21955a6d0cc75cda387f4e49da319dfc37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:58 +0000
Subject: [PATCH 48/62] fix: a fragmented NAL unit beyond 1 MB aborted the
 receiver

---
 src/avformat/sps_avformat_rtpdec_h264_hevc.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/avformat/sps_avformat_rtpdec_h264_hevc.cpp b/src/avformat/sps_avformat_rtpdec_h264_hevc.cpp
index 7c4bac4..fa3e399 100644
--- a/src/avformat/sps_avformat_rtpdec_h264_hevc.cpp
+++ b/src/avformat/sps_avformat_rtpdec_h264_hevc.cpp
@@ -203,6 +203,12 @@ error_t FuRtpDecoder::decode(int tp, RtpPayloadHeader &header,
         return SUCCESS;
     }
 
+    if (pkt->remain() < bc.size()) {
+        sp_error("[rtp@h264] fu-decode nalu too large");
+        pkt.reset();
+        return ERROR_RTP_DECODER_H264;
+    }
+
     // nalu payload
     pkt->append(bc.pos(), bc.size());
     bc.skip_read_bytes(bc.size());
-- 
2.43.0


From ef0cc325bfb451d3a8d65737de930beb6ac1d3b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:58 +0000
Subject: [PATCH 49/62] fix: fragmented NAL units were delivered although
 fragments were missing

---
 src/avformat/sps_avformat_rtpdec_h264_hevc.cpp | 12 ++++++++++--
 src/avformat/sps_avformat_rtpdec_h264_hevc.hpp |  4 +++-
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/avformat/sps_avformat_rtpdec_h264_hevc.cpp b/src/avformat/sps_avformat_rtpdec_h264_hevc.cpp
index fa3e399..0220eef 100644
--- a/src/avformat/sps_avformat_rtpdec_h264_hevc.cpp
+++ b/src/avformat/sps_avformat_rtpdec_h264_hevc.cpp
@@ -155,7 +155,7 @@ error_t MtapRtpDecoder::decode(int tp, RtpPayloadHeader &header,
     return ret;
 }
 
-FuRtpDecoder::FuRtpDecoder(PCharBuffer &pkt, int64_t ts) : pkt(pkt) {
+FuRtpDecoder::FuRtpDecoder(PCharBuffer &pkt, int64_t ts, uint16_t &next_seq) : pkt(pkt), next_seq(next_seq) {
     this->pre_rtp_timestamp = ts;
 }
 
@@ -171,6 +171,14 @@ error_t FuRtpDecoder::decode(int tp, RtpPayloadHeader &header,
     if (fu.indicator.tp == FU_B) {
         bc.skip_read_bytes(2); // don
     }
+
+    // a fragment is lost or repeated, the nalu can not be completed
+    if (pkt && !fu.is_start() && header.fix_header.sequence_num != next_seq) {
+        sp_warn("[rtp@h264] fu-decode lost packet seq %d", next_seq);
+        pkt.reset();
+    }
+    next_seq = header.fix_header.sequence_num + 1;
+
     // start nalu
     if (fu.is_start()) {
         sp_debug("fu starting tp %d, indicator %d", tp, fu.indicator.tp);
@@ -256,7 +264,7 @@ PIRtpH264Decoder H264RtpDecoder::create_decoder(BitContext& bc, uint8_t nal_unit
             break;
         case FU_A:
         case FU_B:
-            return  std::make_shared<FuRtpDecoder>(pkt, rtp_timestamp);
+            return  std::make_shared<FuRtpDecoder>(pkt, rtp_timestamp, next_seq);
             break;
         default:
             sp_error("fail ingore nalu type %d", nal_unit_type);
diff --git a/src/avformat/sps_avformat_rtpdec_h264_hevc.hpp b/src/avformat/sps_avformat_rtpdec_h264_hevc.hpp
index aa4cfd4..b8e76d5 100644
--- a/src/avformat/sps_avformat_rtpdec_h264_hevc.hpp
+++ b/src/avformat/sps_avformat_rtpdec_h264_hevc.hpp
@@ -130,7 +130,7 @@ class MtapRtpDecoder : public IRtpH264Decoder {
 // fu-a/b decode
 class FuRtpDecoder : public IRtpH264Decoder {
  public:
-    FuRtpDecoder(PCharBuffer& pkt, int64_t rtp_timestamp);
+    FuRtpDecoder(PCharBuffer& pkt, int64_t rtp_timestamp, uint16_t& next_seq);
  public:
     error_t decode(int tp, RtpPayloadHeader& header,
                    BitContext& bc, std::list<PAVPacket>& pkts) override;
@@ -138,6 +138,7 @@ class FuRtpDecoder : public IRtpH264Decoder {
  private:
     PCharBuffer& pkt;
     int64_t pre_rtp_timestamp;
+    uint16_t& next_seq;
 };
 
 class H264RtpDecoder : public IRtpDynamicDecoder {
@@ -149,6 +150,7 @@ class H264RtpDecoder : public IRtpDynamicDecoder {
 
  private:
     PCharBuffer pkt;
+    uint16_t next_seq = 0;  // of the next fragment of pkt
     int64_t rtp_timestamp;
 };
 
-- 
2.43.0


From fc431b39dff80c63ed3c4b58de7917d3617d5c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:58 +0000
Subject: [PATCH 50/62] fix: an empty datagram was reported as a failed read

---
 src/sys/st/io/sps_sys_st_io_udp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sys/st/io/sps_sys_st_io_udp.cpp b/src/sys/st/io/sps_sys_st_io_udp.cpp
index 2a9430c..3438cde 100644
--- a/src/sys/st/io/sps_sys_st_io_udp.cpp
+++ b/src/sys/st/io/sps_sys_st_io_udp.cpp
@@ -170,7 +170,7 @@ error_t StUdpClientSocket::read(void *buf, size_t size, size_t &nread,
 
     sp_debug("st_recvfrom ret %d", n);
 
-    if (n <= 0) {
+    if (n < 0) {
         if (n < 0 && errno == ETIME) {
             return ERROR_SOCKET_TIMEOUT;
         }
-- 
2.43.0


From 8c5e546f84d41db4938c6e3329e880552204d6eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:37 +0000
Subject: [PATCH 51/62] fix: what an SRT peer sent right before its end was
 dropped

---
 src/sys/st/io/sps_sys_st_io_srt.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/sys/st/io/sps_sys_st_io_srt.cpp b/src/sys/st/io/sps_sys_st_io_srt.cpp
index 7e5a26c..61f291c 100644
--- a/src/sys/st/io/sps_sys_st_io_srt.cpp
+++ b/src/sys/st/io/sps_sys_st_io_srt.cpp
@@ -366,6 +366,12 @@ error_t st_srt_read(SRTSOCKET fd, void *buf, size_t nbyte, utime_t timeout, size
         if (st_srt_again(eno)) {
             ret = st_srt_epoll(fd, ST_SRT_IN, timeout, err);
             if (ret != SUCCESS) {
+                // what came before the connection ended can still be read
+                int last = srt_recv(fd, reinterpret_cast<char*>(buf), nbyte);
+                if (last > 0) {
+                    nread = last;
+                    return SUCCESS;
+                }
                 sp_error("[st_srt_read]: srt read epoll failed, fd:%d, "
                            "ret:%d, err:%s", fd, ret, err.c_str());
                 return ret;
-- 
2.43.0


From 760ec409d9043ae9987f52f8c19dd81b308af45a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:37 +0000
Subject: [PATCH 52/62] fix: data a TLS client sends along with its Finished
 was thrown away

---
 src/sys/st/io/sps_sys_st_io_ssl.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sys/st/io/sps_sys_st_io_ssl.cpp b/src/sys/st/io/sps_sys_st_io_ssl.cpp
index 8cf5b08..56f5ba5 100644
--- a/src/sys/st/io/sps_sys_st_io_ssl.cpp
+++ b/src/sys/st/io/sps_sys_st_io_ssl.cpp
@@ -323,8 +323,8 @@ error_t StSSLSocket::handshake_util_read() {
 
     sp_info("write ssl handshake(%d) %.*s", n, n, data);
 
-    // for next read
-    if ((ssl_err = BIO_reset(rbio)) != 1) {
+    // for next read; once the handshake is over, what is left is application data
+    if (ret != SUCCESS && (ssl_err = BIO_reset(rbio)) != 1) {
         sp_error("fail reset rio mem for %d", ssl_err);
         return ERROR_SSL_HANDSHAKE;
     }
-- 
2.43.0


From 817e2b46591b0689a6b596c0b79d8cf05d4a8c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:37 +0000
Subject: [PATCH 53/62] fix: reading fully over TLS overwrote the first bytes
 again and again

---
 src/sys/st/io/sps_sys_st_io_ssl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sys/st/io/sps_sys_st_io_ssl.cpp b/src/sys/st/io/sps_sys_st_io_ssl.cpp
index 56f5ba5..78ac4f4 100644
--- a/src/sys/st/io/sps_sys_st_io_ssl.cpp
+++ b/src/sys/st/io/sps_sys_st_io_ssl.cpp
@@ -400,7 +400,7 @@ error_t StSSLSocket::read_fully(void* buf, size_t size, ssize_t* nread) {
 
     while (n < size) {
         size_t len = 0;
-        if ((ret = read(buf, size-n, len)) != SUCCESS) {
+        if ((ret = read((uint8_t*) buf + n, size-n, len)) != SUCCESS) {
             break;
         }
 
-- 
2.43.0


From 175c37a5cda7a074f5b1c4bf98a24776503b1d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:24 +0000
Subject: [PATCH 54/62] fix: an interim answer (100, 103) of an upstream was
 taken for its final one

---
 src/io/url/sps_io_url_http.cpp | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/src/io/url/sps_io_url_http.cpp b/src/io/url/sps_io_url_http.cpp
index f85ebf1..4b3099b 100644
--- a/src/io/url/sps_io_url_http.cpp
+++ b/src/io/url/sps_io_url_http.cpp
@@ -124,22 +124,35 @@ error_t HttpUrlProtocol::open(PRequestUrl& url, Transport tp) {
     sp_debug("success open %s:%d -> request %s.", ip.c_str(),
               url->get_port(), req.c_str());
 
-    HttpParser parser;
-    if ((ret = parser.parse_header(socket, HttpType::RESPONSE)) <= 0) {
-        sp_error("failed parser %d %s:%d, %s.", ret,
-                 socket->get_peer_ip().c_str(), socket->get_peer_port(), req.c_str());
-        return ret;
+    // interim answers (100 Continue, 103 Early Hints) come before the final one
+    for (int i = 0; i < 10; ++i) {
+        HttpParser parser;
+        if ((ret = parser.parse_header(socket, HttpType::RESPONSE)) <= 0) {
+            sp_error("failed parser %d %s:%d, %s.", ret,
+                     socket->get_peer_ip().c_str(), socket->get_peer_port(), req.c_str());
+            return ret;
+        }
+
+        if (parser.get_ctx()->http.http_errno != HPE_OK
+                || parser.get_ctx()->status_code() == 0) {
+            sp_error("invalid response %d %s:%d, %s.", parser.get_ctx()->http.http_errno,
+                     socket->get_peer_ip().c_str(), socket->get_peer_port(), req.c_str());
+            return ERROR_HTTP_HEADER_PARSE;
+        }
+
+        rsp = parser.get_response();
+
+        if (rsp->status_code / 100 != 1 || rsp->status_code == 101) {
+            break;
+        }
     }
 
-    if (parser.get_ctx()->http.http_errno != HPE_OK
-            || parser.get_ctx()->status_code() == 0) {
-        sp_error("invalid response %d %s:%d, %s.", parser.get_ctx()->http.http_errno,
+    if (rsp->status_code / 100 == 1 && rsp->status_code != 101) {
+        sp_error("no final response %d %s:%d, %s.", rsp->status_code,
                  socket->get_peer_ip().c_str(), socket->get_peer_port(), req.c_str());
         return ERROR_HTTP_HEADER_PARSE;
     }
 
-    PHttpResponse http_rsp = rsp = parser.get_response();
-
     // answers without a body: there is nothing to wait for
     is_eof = url->method == "HEAD" || rsp->status_code == 204
                 || rsp->status_code == 304
-- 
2.43.0


From 4929fbb6cb2798a830c3d4e98154603377707668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:24 +0000
Subject: [PATCH 55/62] fix: chunked bodies with trailer fields were refused

---
 src/io/url/sps_io_url_http.cpp      | 12 +++++++++---
 src/module/http/sps_http_parser.cpp | 27 +++++++++++++++++++++++++++
 src/module/http/sps_http_parser.hpp |  3 +++
 src/module/http/sps_http_socket.cpp | 13 ++++++++-----
 4 files changed, 47 insertions(+), 8 deletions(-)

diff --git a/src/io/url/sps_io_url_http.cpp b/src/io/url/sps_io_url_http.cpp
index 4b3099b..764107b 100644
--- a/src/io/url/sps_io_url_http.cpp
+++ b/src/io/url/sps_io_url_http.cpp
@@ -251,6 +251,15 @@ error_t HttpUrlProtocol::read_chunked_length() {
 error_t HttpUrlProtocol::read_chunked_data(void *buf, size_t size,
                                            size_t& nread) {
     error_t ret  =  SUCCESS;
+
+    // the last chunk: only trailer fields and an empty line follow
+    if (nb_chunked_size == 0) {
+        nread  = 0;
+        ret    = read_http_trailer(get_io());
+        is_eof = ret == SUCCESS;
+        return ret;
+    }
+
     nread = size = std::min(nb_chunked_left, size);
 
     if (size != 0) {
@@ -271,9 +280,6 @@ error_t HttpUrlProtocol::read_chunked_data(void *buf, size_t size,
         }
     }
 
-    if (ret == SUCCESS && nb_chunked_size == 0) {
-        is_eof = true;
-    }
     return ret;
 }
 
diff --git a/src/module/http/sps_http_parser.cpp b/src/module/http/sps_http_parser.cpp
index 0996362..aa8e081 100644
--- a/src/module/http/sps_http_parser.cpp
+++ b/src/module/http/sps_http_parser.cpp
@@ -202,6 +202,33 @@ int HttpParser::parse_header(const char *b, int len, HttpType ht) {
     return parsed;
 }
 
+error_t read_http_trailer(PIReader io, size_t max_size) {
+    error_t ret  = SUCCESS;
+    size_t  line = 0;  // bytes of the current line
+    char    prev = 0;
+    char    c    = 0;
+
+    for (size_t i = 0; i < max_size; ++i) {
+        if ((ret = io->read_fully(&c, 1, nullptr)) != SUCCESS) {
+            return ret;
+        }
+
+        ++line;
+        if (prev == '\r' && c == '\n') {
+            if (line == 2) {
+                return SUCCESS;
+            }
+            line = 0;
+        } else if (c == '\n') {
+            break;
+        }
+        prev = c;
+    }
+
+    sp_error("invalid http trailer");
+    return ERROR_HTTP_CHUNKED_INVALID;
+}
+
 PHttpParserContext HttpParser::get_ctx() {
     return ctx;
 }
diff --git a/src/module/http/sps_http_parser.hpp b/src/module/http/sps_http_parser.hpp
index a28d662..404669c 100644
--- a/src/module/http/sps_http_parser.hpp
+++ b/src/module/http/sps_http_parser.hpp
@@ -123,6 +123,9 @@ class HttpParser {
     static http_parser_settings http_setting;
 };
 
+// what follows the last chunk: trailer fields (dropped) and an empty line
+error_t read_http_trailer(PIReader io, size_t max_size = 2048);
+
 }  // namespace sps
 
 #endif  // SPS_HTTP_PARSER_HPP
diff --git a/src/module/http/sps_http_socket.cpp b/src/module/http/sps_http_socket.cpp
index 2364290..c79e38a 100644
--- a/src/module/http/sps_http_socket.cpp
+++ b/src/module/http/sps_http_socket.cpp
@@ -136,10 +136,16 @@ error_t HttpRequestSocket::read_chunked_data(void* buf, size_t size, size_t& nre
     size         = std::min(nb_chunked_left, size);
     error_t ret  =  SUCCESS;
 
-    if (nb_chunked_size != 0) {
-        ret = get_io()->read(buf, size, nread);
+    // the last chunk: only trailer fields and an empty line follow
+    if (nb_chunked_size == 0) {
+        nread  = 0;
+        ret    = read_http_trailer(get_io());
+        is_eof = ret == SUCCESS;
+        return ret;
     }
 
+    ret = get_io()->read(buf, size, nread);
+
     nb_chunked_left -= nread;  // ignore ret
 
     sp_debug("read chunked data nb_chunked_size: %lu, "
@@ -156,9 +162,6 @@ error_t HttpRequestSocket::read_chunked_data(void* buf, size_t size, size_t& nre
         }
     }
 
-    if (ret == SUCCESS && nb_chunked_size == 0) {
-        is_eof = true;
-    }
     return ret;
 }
 
-- 
2.43.0


From 05349503e2bb8135ab4318a9650ab289c8f01cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:17 +0000
Subject: [PATCH 56/62] fix: an FLV tag without payload (AVC end of sequence)
 ended the publication

---
 src/avformat/sps_avformat_flvdec.cpp | 5 +++--
 src/avformat/sps_avformat_flvenc.cpp | 4 +++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/avformat/sps_avformat_flvdec.cpp b/src/avformat/sps_avformat_flvdec.cpp
index a73976b..84c95b2 100644
--- a/src/avformat/sps_avformat_flvdec.cpp
+++ b/src/avformat/sps_avformat_flvdec.cpp
@@ -189,8 +189,9 @@ error_t FlvDemuxer::read_packet(PAVPacket& buffer) {
         sp_trace("metadata recv");
     }
 
-    if (data_size <= 0) {
-        sp_error("data size is empty");
+    // no payload at all is fine: an AVC end of sequence has none
+    if (data_size < 0) {
+        sp_error("data size is too small");
         return ERROR_FLV_TAG;
     }
 
diff --git a/src/avformat/sps_avformat_flvenc.cpp b/src/avformat/sps_avformat_flvenc.cpp
index 5990cca..13a375a 100644
--- a/src/avformat/sps_avformat_flvenc.cpp
+++ b/src/avformat/sps_avformat_flvenc.cpp
@@ -156,7 +156,9 @@ error_t FlvAVMuxer::write_packet(PAVPacket& buffer) {
     }
 
 
-    ret = writer->write(buffer->buffer(), buffer->size());
+    if (buffer->size() > 0) {
+        ret = writer->write(buffer->buffer(), buffer->size());
+    }
     if (ret != SUCCESS) {
         sp_error("fail write tag data ret:%d", ret);
         return ret;
-- 
2.43.0


From cace601435240a7cd4483f944279358095f8e27e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:46 +0000
Subject: [PATCH 57/62] fix: chunks with an extension longer than some 28 bytes
 were refused

---
 src/io/url/sps_io_url_http.cpp      | 2 +-
 src/module/http/sps_http_socket.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/io/url/sps_io_url_http.cpp b/src/io/url/sps_io_url_http.cpp
index 764107b..b888a62 100644
--- a/src/io/url/sps_io_url_http.cpp
+++ b/src/io/url/sps_io_url_http.cpp
@@ -212,7 +212,7 @@ error_t HttpUrlProtocol::read_chunked(void *buf, size_t size, size_t& nread) {
 error_t HttpUrlProtocol::read_chunked_length() {
     error_t    ret = SUCCESS;
     size_t     nr  = 0;
-    char       tmp_buf[34];
+    char       tmp_buf[1024];  // with its extensions
 
     int i = 0;
     do {
diff --git a/src/module/http/sps_http_socket.cpp b/src/module/http/sps_http_socket.cpp
index c79e38a..497257a 100644
--- a/src/module/http/sps_http_socket.cpp
+++ b/src/module/http/sps_http_socket.cpp
@@ -96,7 +96,7 @@ error_t HttpRequestSocket::read_chunked(void* buf, size_t size, size_t& nread) {
 error_t HttpRequestSocket::read_chunked_length() {
     error_t    ret = SUCCESS;
     size_t     nr  = 0;
-    char       tmp_buf[34];
+    char       tmp_buf[1024];  // with its extensions
 
     int i = 0;
     do {
-- 
2.43.0


From 534936c692d696be8cd140929ee42830f9039935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:27 +0000
Subject: [PATCH 58/62] fix: malformed request heads were served and their
 bodies taken for requests

---
 src/module/http/sps_http_parser.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/module/http/sps_http_parser.cpp b/src/module/http/sps_http_parser.cpp
index aa8e081..fbe8a76 100644
--- a/src/module/http/sps_http_parser.cpp
+++ b/src/module/http/sps_http_parser.cpp
@@ -79,6 +79,11 @@ int HttpParserContext::parse_request() {
     req = std::make_shared<RequestUrl>();
     contains("Host", &host);
 
+    if (host.find_first_of("/?#@") != std::string::npos) {
+        sp_error("invalid host %s", host.c_str());
+        return ERROR_HTTP_HEADER_PARSE;
+    }
+
     std::string full_url;
 
     if (!host.empty()) {
@@ -186,13 +191,15 @@ int HttpParser::parse_header(const char *b, int len, HttpType ht) {
 
     size_t parsed = http_parser_execute(&ctx->http, &http_setting, b, len);
 
-    if (parsed == 0) {
-        sp_error("parse execute zero %.*s", len, b);
+    if (parsed == 0 || ctx->http.http_errno != HPE_OK) {
+        sp_error("parse execute failed %d, %.*s", ctx->http.http_errno, len, b);
         return -ERROR_HTTP_HEADER_PARSE;
     }
 
     if ((ht == HttpType::REQUEST || ht == HttpType::BOTH) && parsed >= 0)  {
-        ctx->parse_request();
+        if (ctx->parse_request() != SUCCESS && ht == HttpType::REQUEST) {
+            return -ERROR_HTTP_HEADER_PARSE;
+        }
     } else if ((ht == HttpType::RESPONSE || ht == HttpType::BOTH)
             && parsed >= 0) {
         ctx->parse_response();
@@ -266,7 +273,9 @@ int HttpParser::on_header_field(http_parser* hp, const char *at,
     p->head.key = std::string(at, length);
     sp_debug("key: %s", p->head.key.c_str());
 
-    return SUCCESS;
+    // white space in a name hides the header from one side or the other
+    return hp->type == HTTP_REQUEST
+            && p->head.key.find(' ') != std::string::npos ? 1 : SUCCESS;
 }
 
 int HttpParser::on_header_value(http_parser* hp, const char *at,
-- 
2.43.0


From 3109a943a8528b7dbf968220124198a14bbaf406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:27 +0000
Subject: [PATCH 59/62] fix: white space behind a header value was taken for
 part of it

---
 src/module/http/sps_http_parser.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/module/http/sps_http_parser.cpp b/src/module/http/sps_http_parser.cpp
index fbe8a76..bb109e9 100644
--- a/src/module/http/sps_http_parser.cpp
+++ b/src/module/http/sps_http_parser.cpp
@@ -282,6 +282,9 @@ int HttpParser::on_header_value(http_parser* hp, const char *at,
                                 size_t length) {
     auto p = static_cast<HttpParser *>(hp->data);
 
+    while (length > 0 && (at[length-1] == ' ' || at[length-1] == '\t')) {
+        --length;  // not part of the value
+    }
     p->head.value = std::string(at, length);
     sp_debug("header %s->%s", p->head.key.c_str(), p->head.value.c_str());
 
-- 
2.43.0


From 4e39fa0f79f7c93197da278e289c26a0a64e0203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:27 +0000
Subject: [PATCH 60/62] fix: request targets in absolute form were not
 understood

---
 src/module/http/sps_http_parser.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/module/http/sps_http_parser.cpp b/src/module/http/sps_http_parser.cpp
index bb109e9..8c5847f 100644
--- a/src/module/http/sps_http_parser.cpp
+++ b/src/module/http/sps_http_parser.cpp
@@ -86,7 +86,9 @@ int HttpParserContext::parse_request() {
 
     std::string full_url;
 
-    if (!host.empty()) {
+    if (!url.empty() && url[0] != '/' && url.find("://") != std::string::npos) {
+        full_url = url;  // absolute form
+    } else if (!host.empty()) {
         full_url = "http://" + host + url;
     } else {
         full_url = "http:/" + url;
-- 
2.43.0


From c491aa196d3d2143e0f140eaafaf7544ffd5e608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:27 +0000
Subject: [PATCH 61/62] fix: a body with several transfer codings was taken for
 the next request

---
 src/io/url/sps_io_url.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/io/url/sps_io_url.cpp b/src/io/url/sps_io_url.cpp
index 2afacf1..6bb19ca 100644
--- a/src/io/url/sps_io_url.cpp
+++ b/src/io/url/sps_io_url.cpp
@@ -191,7 +191,18 @@ std::string RequestUrl::get_param(const std::string& key) {
 }
 
 bool RequestUrl::is_chunked() {
-    return strcasecmp(get_header("Transfer-Encoding").c_str(), "chunked") == 0;
+    std::string te;
+    for (auto& h : headers) {
+        if (strcasecmp(h.key.c_str(), "Transfer-Encoding") == 0) te = h.value;
+    }
+
+    // the last coding is the one that delimits the body
+    auto n = te.find_last_of(", \t");
+    if (n != std::string::npos) {
+        te = te.substr(n+1);
+    }
+
+    return strcasecmp(te.c_str(), "chunked") == 0;
 }
 
 int64_t RequestUrl::get_content_length() {
-- 
2.43.0


From 3399109ffe87111afdbab5a85268854f44a58c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:01 +0000
Subject: [PATCH 62/62] fix: the empty query of a proxied request was dropped

---
 src/io/url/sps_io_url.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/io/url/sps_io_url.cpp b/src/io/url/sps_io_url.cpp
index 6bb19ca..ccbf93b 100644
--- a/src/io/url/sps_io_url.cpp
+++ b/src/io/url/sps_io_url.cpp
@@ -124,6 +124,8 @@ error_t RequestUrl::parse_url(const std::string& url) {
         this->path   = url;
         this->params = "";
         this->port   = -1;
+    } else if (params.empty() && !url.empty() && url.back() == '?') {
+        this->url += "?";  // an empty query
     }
 
     sp_debug("url:%s -> [%s] [%s:%d] [%s] [%s] [%s] [%s]",
-- 
2.43.0

