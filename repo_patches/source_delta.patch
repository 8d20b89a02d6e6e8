From bf980ea43bf605d8f4aac8da5e57a4b8ba52b245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:32 +0000
Subject: [PATCH 01/26] fix: base64pp: reject the bytes after 'z' in
 is_valid_base64_char

---
 src/majordomo/include/majordomo/base64pp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/majordomo/include/majordomo/base64pp.hpp b/src/majordomo/include/majordomo/base64pp.hpp
index 2717fe7..484903a 100644
--- a/src/majordomo/include/majordomo/base64pp.hpp
+++ b/src/majordomo/include/majordomo/base64pp.hpp
@@ -55,7 +55,7 @@ inline bool is_valid_base64_char(char c) {
         return true;
     }
 
-    if ((c >= 'a') && ('z')) {
+    if ((c >= 'a') && (c <= 'z')) {
         return true;
     }
 
-- 
2.43.0


From 70de7dd3f38105d65889d5309ca1e9402dad9c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:35 +0000
Subject: [PATCH 02/26] fix: SpinWait::spinUntil: -1 (not 1) is the 'wait
 forever' timeout

---
 src/core/include/SpinWait.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/include/SpinWait.hpp b/src/core/include/SpinWait.hpp
index 1ab2aa6..1e108e8 100644
--- a/src/core/include/SpinWait.hpp
+++ b/src/core/include/SpinWait.hpp
@@ -93,7 +93,7 @@ public:
 
             spinWait.spinOnce();
 
-            if (millisecondsTimeout != 1 && spinWait.nextSpinWillYield() && millisecondsTimeout <= (getTickCount() - num)) {
+            if (millisecondsTimeout != -1 && spinWait.nextSpinWillYield() && millisecondsTimeout <= (getTickCount() - num)) {
                 return false;
             }
         }
-- 
2.43.0


From 5e0d95b7c9898c97d0ee679870b451c95bfc5f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:23 +0000
Subject: [PATCH 03/26] fix: URI::decode: reject (STRICT) or keep (RELAXED)
 malformed percent escapes

A '%' within the last two characters was read past the end of the view, and a
sequence like "%G1" decoded to an uninitialised value.
---
 src/core/include/URI.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/core/include/URI.hpp b/src/core/include/URI.hpp
index 214f559..2d01b81 100644
--- a/src/core/include/URI.hpp
+++ b/src/core/include/URI.hpp
@@ -162,12 +162,14 @@ public:
             char c = s[i];
             if (c == '%') {
                 // percent-encode RFC 3986 section 2.2 Reserved Characters i.e. [!#$%&'()*+,/:;=?@[]]
-                if constexpr (check == STRICT) {
-                    if (!std::isxdigit(s[i + 1])) {
-                        throw URISyntaxException(std::format("additional erroneous character '{}' found after '%' at {} of '{}'", s[i + 1], i + 1, s));
+                if (i + 2 >= s.size() || !std::isxdigit(static_cast<unsigned char>(s[i + 1])) || !std::isxdigit(static_cast<unsigned char>(s[i + 2]))) {
+                    if constexpr (check == STRICT) {
+                        throw URISyntaxException(std::format("'%' at {} of '{}' is not followed by two hexadecimal digits", i, s));
                     }
+                    decoded << c; // RELAXED: not an escape sequence, keep as is
+                    continue;
                 }
-                int                d;
+                int                d = 0;
                 std::istringstream iss(std::string(s.substr(i + 1, 2))); // TODO find smarter conversion
                 iss >> std::hex >> d;
                 decoded << static_cast<uint8_t>(d);
-- 
2.43.0


From 0daa394aa8ef40e61d6cb1098035a8a14f02d4c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:23 +0000
Subject: [PATCH 04/26] fix: URI::port(), UriFactory(URI): a malformed port
 terminated the program

both are called from noexcept functions, but std::stoi throws for non-numeric
text; ports above 65535 were silently truncated.
---
 src/core/include/URI.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/core/include/URI.hpp b/src/core/include/URI.hpp
index 2d01b81..090de07 100644
--- a/src/core/include/URI.hpp
+++ b/src/core/include/URI.hpp
@@ -2,6 +2,7 @@
 #define OPENCMW_CPP_URI_HPP
 #include <algorithm>
 #include <cassert>
+#include <charconv>
 #include <iomanip>
 #include <ios>
 #include <optional>
@@ -187,7 +188,7 @@ public:
     inline std::optional<std::string> user() const noexcept { parseAuthority(); return returnOpt(_userName); }
     inline std::optional<std::string> password() const noexcept { parseAuthority(); return returnOpt(_pwd); }
     inline std::optional<std::string> hostName() const noexcept { parseAuthority(); return returnOpt(_hostName); }
-    inline std::optional<uint16_t> port() const noexcept { parseAuthority(); return _port.empty() ? std::nullopt : std::optional(std::stoi(std::string{ _port.begin(), _port.end() }));}
+    inline std::optional<uint16_t> port() const noexcept { parseAuthority(); return parsePort(_port); }
     inline std::optional<std::string> path() const noexcept { return returnOpt(_path); }
     inline std::optional<std::string> queryParam() const noexcept { return returnOpt(_query); }
     inline std::optional<std::string> fragment() const noexcept { return returnOpt(_fragment); }
@@ -286,7 +287,7 @@ public:
             if (!uri._userName.empty())  { _userName = uri._userName; }
             if (!uri._pwd.empty())       { _pwd = uri._pwd; }
             if (!uri._hostName.empty())  { _host = uri._hostName; }
-            if (!uri._port.empty())      { _port = std::stoi(std::string(uri._port)); }
+            if (!uri._port.empty())      { _port = parsePort(uri._port); }
             if (!uri._path.empty())      { _path = uri._path; }
             if (!uri._query.empty())     { _query = uri._query; }
             if (!uri._fragment.empty())  { _fragment = uri._fragment; }
@@ -352,6 +353,12 @@ private:
         return src.empty() ? std::nullopt : std::optional<std::string>(src);
     };
 
+    static std::optional<uint16_t> parsePort(const std::string_view &src) noexcept {
+        uint16_t   port          = 0;
+        const auto [ptr, result] = std::from_chars(src.data(), src.data() + src.size(), port);
+        return !src.empty() && result == std::errc() && ptr == src.data() + src.size() ? std::optional(port) : std::nullopt;
+    }
+
     inline void parseURI() {
         std::string_view source(_str.c_str(), _str.size());
         if constexpr (check == STRICT) {
-- 
2.43.0


From ee5d1263957b496d559dee426effe8b20e4703b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:03 +0000
Subject: [PATCH 05/26] fix: URI copy/move assignment left views into another
 buffer

copy assignment kept the old user/password/host/port views when the source had
not been split yet, move assignment did not adjust the views of the moved-from
object.
---
 src/core/include/URI.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/core/include/URI.hpp b/src/core/include/URI.hpp
index 090de07..6930edb 100644
--- a/src/core/include/URI.hpp
+++ b/src/core/include/URI.hpp
@@ -83,9 +83,6 @@ public:
         }
 
         _parsedAuthority = other._parsedAuthority;
-        if (!_parsedAuthority) {
-            return *this;
-        }
         _userName = adjustedView(other._userName);
         _pwd      = adjustedView(other._pwd);
         _hostName = adjustedView(other._hostName);
@@ -99,6 +96,7 @@ public:
         }
 
         const char *oldBegin = other._str.data();
+        const char *ownBegin = _str.data();
 
         std::swap(_str, other._str);
         std::swap(_scheme, other._scheme);
@@ -129,6 +127,11 @@ public:
             adjustView(_hostName);
             adjustView(_port);
         }
+        if (other._str.data() != ownBegin) {
+            for (auto view : { &URI::_scheme, &URI::_authority, &URI::_path, &URI::_query, &URI::_fragment, &URI::_userName, &URI::_pwd, &URI::_hostName, &URI::_port }) {
+                other.*view = std::string_view(other._str.data() + std::distance(ownBegin, (other.*view).data()), (other.*view).size());
+            }
+        }
 
         return *this;
     }
-- 
2.43.0


From 17ea20d7bbfc5fa081022e951f332b039e9090f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:03 +0000
Subject: [PATCH 06/26] fix: UriFactory::toString() accumulated query
 parameters and cached the authority

calling it twice, or changing host/port in between, gave a wrong URI.
---
 src/core/include/URI.hpp | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/core/include/URI.hpp b/src/core/include/URI.hpp
index 6930edb..d3f8875 100644
--- a/src/core/include/URI.hpp
+++ b/src/core/include/URI.hpp
@@ -262,14 +262,14 @@ public:
     bool operator==(const URI &other) const noexcept { return _str == other.str(); }
 
     class UriFactory {
-        mutable std::string     _authority;
+        std::string             _authority;
         std::string             _scheme;
         std::string             _userName;
         std::string             _pwd;
         std::string             _host;
         std::optional<uint16_t> _port;
         std::string             _path;
-        mutable std::string     _query;
+        std::string             _query;
         std::string             _fragment;
         // local map to overwrite _query parameter if set
         std::unordered_map<std::string, std::optional<std::string>> _queryMap;
@@ -310,34 +310,35 @@ public:
         // clang-format on
 
         std::string toString() const {
-            if (_authority.empty()) {
+            std::string authority = _authority;
+            std::string query     = _query;
+            if (authority.empty()) {
                 const std::string optColon1 = (_pwd.empty() || _userName.empty()) ? "" : ":";
                 const std::string pwdPart   = _userName.empty() ? "" : _pwd;
                 const std::string atSign    = _userName.empty() ? "" : "@"; // after “user[:pwd]”
                 const std::string optColon2 = _port ? ":" : "";             // before port
                 const std::string portPart  = _port ? std::to_string(*_port) : "";
 
-                _authority                  = std::format("{}{}{}{}{}{}{}", _userName, optColon1, pwdPart, atSign, _host, optColon2, portPart);
+                authority                   = std::format("{}{}{}{}{}{}{}", _userName, optColon1, pwdPart, atSign, _host, optColon2, portPart);
             }
 
-            // TODO: Calling toString multiple times appends parameters over and over again
             for (const auto &[key, value] : _queryMap) {
                 // RFC-3986: “key[=value]” pairs joined by ‘&’
-                const std::string ampersand  = _query.empty() ? "" : "&";
+                const std::string ampersand  = query.empty() ? "" : "&";
                 const std::string encodedKey = encode(key);
                 const std::string equalSign  = value ? "=" : "";
                 const std::string encodedVal = value ? encode(value.value()) : "";
 
-                _query += std::format("{}{}{}{}", ampersand, encodedKey, equalSign, encodedVal);
+                query += std::format("{}{}{}{}", ampersand, encodedKey, equalSign, encodedVal);
             }
 
             const std::string colon     = _scheme.empty() ? "" : ":";
-            const std::string authSlash = (_authority.empty() || _authority.starts_with("//")) ? "" : "//";
-            const std::string pathSlash = (_path.empty() || _path.starts_with('/') || _authority.empty()) ? "" : "/";
-            const std::string qMark     = (_query.empty() || _query.starts_with('?')) ? "" : "?";
+            const std::string authSlash = (authority.empty() || authority.starts_with("//")) ? "" : "//";
+            const std::string pathSlash = (_path.empty() || _path.starts_with('/') || authority.empty()) ? "" : "/";
+            const std::string qMark     = (query.empty() || query.starts_with('?')) ? "" : "?";
             const std::string hashMark  = (_fragment.empty() || _fragment.starts_with('#')) ? "" : "#";
 
-            return std::format("{}{}{}{}{}{}{}{}{}{}", _scheme, colon, authSlash, _authority, pathSlash, _path, qMark, _query, hashMark, encode(_fragment));
+            return std::format("{}{}{}{}{}{}{}{}{}{}", _scheme, colon, authSlash, authority, pathSlash, _path, qMark, query, hashMark, encode(_fragment));
         }
 
         URI build() {
-- 
2.43.0


From 39cdd6982605044a949c66c91443bf1ef03a4c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:03 +0000
Subject: [PATCH 07/26] fix: URI::queryParamMap: decode the last key also when
 it has no value

---
 src/core/include/URI.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/include/URI.hpp b/src/core/include/URI.hpp
index d3f8875..d3209f5 100644
--- a/src/core/include/URI.hpp
+++ b/src/core/include/URI.hpp
@@ -248,7 +248,7 @@ public:
                 _queryMap[key]   = value.empty() ? std::nullopt : std::optional(value);
                 break;
             } else {
-                auto key       = std::string(_query.substr(readPos, _query.length() - readPos));
+                auto key       = decode(_query.substr(readPos, _query.length() - readPos));
                 _queryMap[key] = std::nullopt;
                 break;
             }
-- 
2.43.0


From 184cdd3598c5e55a8d16279ce6aea03b30c45f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:03 +0000
Subject: [PATCH 08/26] fix: URI: a single-character text without scheme threw
 std::out_of_range

---
 src/core/include/URI.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/include/URI.hpp b/src/core/include/URI.hpp
index d3209f5..8a78ce9 100644
--- a/src/core/include/URI.hpp
+++ b/src/core/include/URI.hpp
@@ -408,7 +408,7 @@ private:
             if ((source.length() > (authOffset + 1) && source[schemeSize] == '/' && source[schemeSize + 1] == '/')
                     || (schemeSize == 0 && source[schemeSize] != '/' && source[schemeSize] != '?' && source[schemeSize] != '#')) {
                 // authority isUnreserved defined starting with '//'
-                authOffset += 2;
+                authOffset = std::min(authOffset + 2, source.length());
                 authEnd    = std::min(source.find_first_of("/?#", authOffset), source.length());
                 _authority = source.substr(authOffset, authEnd - authOffset);
                 if constexpr (check == STRICT) {
-- 
2.43.0


From 52719943a7c9b99dfce2718b6d5da6e7125f44bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:55:36 +0000
Subject: [PATCH 09/26] fix: URI::queryParamMap: do not keep a partially parsed
 map after an exception

---
 src/core/include/URI.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/core/include/URI.hpp b/src/core/include/URI.hpp
index 8a78ce9..f4c333f 100644
--- a/src/core/include/URI.hpp
+++ b/src/core/include/URI.hpp
@@ -212,7 +212,7 @@ public:
     // clang-format on
 
     // decompose map
-    inline const std::unordered_map<std::string, std::optional<std::string>> &queryParamMap() const {
+    inline const std::unordered_map<std::string, std::optional<std::string>> &queryParamMap() const try {
         if (_query.empty() || !_queryMap.empty()) { // empty query parameter or already parsed
             return _queryMap;
         }
@@ -255,6 +255,9 @@ public:
         }
 
         return _queryMap;
+    } catch (...) {
+        _queryMap.clear(); // do not keep a partially parsed map
+        throw;
     };
 
     // comparison operators
-- 
2.43.0


From 9148dc272527aea507ecfcfd1f622d03288fd926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:56:47 +0000
Subject: [PATCH 10/26] fix: getMinimumSequence must not re-read the sequence
 it found smallest

The value was read again after the search; a consumer advancing in between made
the result exceed the position of other, slower consumers, so that producers
could claim slots those had not consumed yet.
---
 src/disruptor/include/disruptor/Sequence.hpp | 18 ++++--------------
 1 file changed, 4 insertions(+), 14 deletions(-)

diff --git a/src/disruptor/include/disruptor/Sequence.hpp b/src/disruptor/include/disruptor/Sequence.hpp
index f5eb3fa..c0e775c 100644
--- a/src/disruptor/include/disruptor/Sequence.hpp
+++ b/src/disruptor/include/disruptor/Sequence.hpp
@@ -59,21 +59,11 @@ namespace detail {
  * \returns the minimum sequence found or lon.MaxValue if the array is empty.
  */
 inline std::int64_t getMinimumSequence(const std::vector<std::shared_ptr<Sequence>> &sequences, std::int64_t minimum = std::numeric_limits<std::int64_t>::max()) noexcept {
-    if (sequences.empty()) {
-        return minimum;
+    // N.B. each sequence is read exactly once: re-reading the one found smallest could return a value beyond the others'
+    for (const auto &sequence : sequences) {
+        minimum = std::min(minimum, sequence->value());
     }
-#if not defined(_LIBCPP_VERSION)
-    return std::min(minimum, std::ranges::min(sequences, std::less{}, [](const auto &sequence) noexcept { return sequence->value(); })->value());
-#else
-    std::vector<int64_t> v;
-    v.reserve(sequences.size());
-    for (auto &sequence : sequences) {
-        v.push_back(sequence->value());
-    }
-    // std::for_each(sequences.begin(), sequences.end(), [v](const auto &sequence) noexcept { v.push_back(8); });
-    auto min = std::min_element(v.begin(), v.end());
-    return (*min < minimum) ? *min : minimum;
-#endif
+    return minimum;
 }
 
 inline void addSequences(std::shared_ptr<std::vector<std::shared_ptr<Sequence>>> &sequences, const Sequence &cursor, const std::vector<std::shared_ptr<Sequence>> &sequencesToAdd) {
-- 
2.43.0


From ec8d247f241eb2dc3f4e23e3d5a62ea45c1ae22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:56:47 +0000
Subject: [PATCH 11/26] fix: MultiThreadedStrategy availability flags are
 shared between threads and must be atomic

---
 src/disruptor/include/disruptor/ClaimStrategy.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/disruptor/include/disruptor/ClaimStrategy.hpp b/src/disruptor/include/disruptor/ClaimStrategy.hpp
index bffe15f..c72c512 100644
--- a/src/disruptor/include/disruptor/ClaimStrategy.hpp
+++ b/src/disruptor/include/disruptor/ClaimStrategy.hpp
@@ -116,7 +116,7 @@ template<std::size_t SIZE, WaitStrategy WAIT_STRATEGY>
 class MultiThreadedStrategy {
     alignas(kCacheLine) Sequence &_cursor;
     alignas(kCacheLine) WAIT_STRATEGY &_waitStrategy;
-    alignas(kCacheLine) std::array<std::int32_t, SIZE> _availableBuffer; // tracks the state of each ringbuffer slot
+    alignas(kCacheLine) std::array<std::atomic<std::int32_t>, SIZE> _availableBuffer; // tracks the state of each ringbuffer slot
     alignas(kCacheLine) std::shared_ptr<Sequence> _gatingSequenceCache = std::make_shared<Sequence>();
     static constexpr std::int32_t _indexMask                           = SIZE - 1;
     static constexpr std::int32_t _indexShift                          = ceillog2(SIZE);
@@ -218,7 +218,7 @@ public:
         const auto index = calculateIndex(sequence);
         const auto flag  = calculateAvailabilityFlag(sequence);
 
-        return _availableBuffer[static_cast<std::size_t>(index)] == flag;
+        return _availableBuffer[static_cast<std::size_t>(index)].load(std::memory_order_acquire) == flag;
     }
 
     [[nodiscard]] OPENCMW_FORCEINLINE std::int64_t getHighestPublishedSequence(const std::int64_t lowerBound, const std::int64_t availableSequence) const noexcept {
@@ -233,7 +233,7 @@ public:
 
 private:
     void                              setAvailable(std::int64_t sequence) noexcept { setAvailableBufferValue(calculateIndex(sequence), calculateAvailabilityFlag(sequence)); }
-    OPENCMW_FORCEINLINE void          setAvailableBufferValue(std::size_t index, std::int32_t flag) noexcept { _availableBuffer[index] = flag; }
+    OPENCMW_FORCEINLINE void          setAvailableBufferValue(std::size_t index, std::int32_t flag) noexcept { _availableBuffer[index].store(flag, std::memory_order_release); }
     [[nodiscard]] OPENCMW_FORCEINLINE std::int32_t calculateAvailabilityFlag(const std::int64_t sequence) const noexcept { return static_cast<std::int32_t>(static_cast<std::uint64_t>(sequence) >> _indexShift); }
     [[nodiscard]] OPENCMW_FORCEINLINE std::size_t calculateIndex(const std::int64_t sequence) const noexcept { return static_cast<std::size_t>(static_cast<std::int32_t>(sequence) & _indexMask); }
 };
-- 
2.43.0


From 93472921f873744d1d28613a7e8f85c76f972b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:56:47 +0000
Subject: [PATCH 12/26] fix: ProcessingSequenceBarrier alert flag is set and
 checked by different threads

---
 src/disruptor/include/disruptor/ProcessingSequenceBarrier.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/disruptor/include/disruptor/ProcessingSequenceBarrier.hpp b/src/disruptor/include/disruptor/ProcessingSequenceBarrier.hpp
index e6ab764..b6abda2 100644
--- a/src/disruptor/include/disruptor/ProcessingSequenceBarrier.hpp
+++ b/src/disruptor/include/disruptor/ProcessingSequenceBarrier.hpp
@@ -24,7 +24,7 @@ class ProcessingSequenceBarrier : public ISequenceBarrier, public std::enable_sh
     WAIT_STRATEGY                                          &_waitStrategyRef;
     EventStore<T>                                          &_sequenceProviderRef;
 
-    bool                                                    _alerted = false;
+    std::atomic<bool>                                       _alerted = false; // N.B. set by halting threads while the processor checks it
 
 public:
     ProcessingSequenceBarrier(const std::shared_ptr<EventStore<T>> &sequenceProvider,
-- 
2.43.0


From 49df0162c15bbd3a3d1d0e34724cbb3814d0ecad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:23 +0000
Subject: [PATCH 13/26] fix: BatchEventProcessor must not call an exception
 handler that was never set

---
 src/disruptor/include/disruptor/BatchEventProcessor.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/disruptor/include/disruptor/BatchEventProcessor.hpp b/src/disruptor/include/disruptor/BatchEventProcessor.hpp
index b857e96..47da01e 100644
--- a/src/disruptor/include/disruptor/BatchEventProcessor.hpp
+++ b/src/disruptor/include/disruptor/BatchEventProcessor.hpp
@@ -131,7 +131,8 @@ public:
                     break;
                 }
             } catch (const std::exception &ex) {
-                _exceptionHandler->handleEventException(ex, nextSequence, *evt);
+                if (_exceptionHandler) // N.B. setting an exception handler is optional
+                    _exceptionHandler->handleEventException(ex, nextSequence, *evt);
                 _sequenceRef.setValue(nextSequence);
                 nextSequence++;
             }
-- 
2.43.0


From 9d5e1a71fd1da564178e06330a30b7abc8f0dd57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:50:50 +0000
Subject: [PATCH 14/26] fix: IoBuffer: a moved-from buffer kept its size and
 capacity without memory

---
 src/serialiser/include/IoBuffer.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/serialiser/include/IoBuffer.hpp b/src/serialiser/include/IoBuffer.hpp
index 305341b..ec9d68f 100644
--- a/src/serialiser/include/IoBuffer.hpp
+++ b/src/serialiser/include/IoBuffer.hpp
@@ -269,9 +269,9 @@ public:
     [[nodiscard]] IoBuffer(IoBuffer &&other) noexcept
         : _allocator(other._allocator.resource())
         , _buffer(std::exchange(other._buffer, nullptr))
-        , _position(other._position)
-        , _size(other._size)
-        , _capacity(other._capacity) {}
+        , _position(std::exchange(other._position, 0LU))
+        , _size(std::exchange(other._size, 0LU))
+        , _capacity(std::exchange(other._capacity, 0LU)) {}
 
     constexpr ~IoBuffer() {
         freeInternalBuffer();
-- 
2.43.0


From 78379f92f3421972a0109490ca04fa5068ce9d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:50:50 +0000
Subject: [PATCH 15/26] fix: IoBuffer::swap: the memory resource stays with the
 memory it owns

---
 src/serialiser/include/IoBuffer.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/serialiser/include/IoBuffer.hpp b/src/serialiser/include/IoBuffer.hpp
index ec9d68f..7bab70f 100644
--- a/src/serialiser/include/IoBuffer.hpp
+++ b/src/serialiser/include/IoBuffer.hpp
@@ -282,6 +282,10 @@ public:
         std::swap(_size, other._size);
         std::swap(_capacity, other._capacity);
         std::swap(_buffer, other._buffer);
+        // the memory must be released through the resource it came from (N.B. polymorphic_allocator is not assignable)
+        auto *resource = _allocator.resource();
+        std::construct_at(&_allocator, other._allocator.resource());
+        std::construct_at(&other._allocator, resource);
     }
 
     IoBuffer &operator=(const IoBuffer &other) {
-- 
2.43.0


From 46e5ff0ddb412c65ef1b23aa737c5c743e0d1698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:53:01 +0000
Subject: [PATCH 16/26] fix: IoBuffer: a string's length field is not trusted
 beyond the buffer's content

---
 src/serialiser/include/IoBuffer.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/serialiser/include/IoBuffer.hpp b/src/serialiser/include/IoBuffer.hpp
index 7bab70f..369b8a8 100644
--- a/src/serialiser/include/IoBuffer.hpp
+++ b/src/serialiser/include/IoBuffer.hpp
@@ -205,10 +205,11 @@ private:
     }
 
     std::string_view extractStringView() const noexcept {
-        const auto strLength = static_cast<std::size_t>(swapEndian(get<int32_t>()) - 1);
-        auto       start     = reinterpret_cast<const char *>(_buffer + _position);
-        _position += strLength + 1LU; // +1 for the zero-terminating byte
-        return { start, strLength };
+        const auto length     = static_cast<std::size_t>(std::max(swapEndian(get<int32_t>()), int32_t{ 0 }));
+        const auto wireLength = std::min(length, _size - _position); // includes the zero-terminating byte
+        auto       start      = reinterpret_cast<const char *>(_buffer + _position);
+        _position += wireLength;
+        return { start, wireLength == 0 ? 0LU : wireLength - 1LU };
     }
 
     template<MetaInfo meta = WITH, typename Container>
-- 
2.43.0


From 22d45ac6032e2ce11adb026b0ba449c71b16ad19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:53:01 +0000
Subject: [PATCH 17/26] fix: IoBuffer::getArray: limit the number of elements
 by the bytes left, not one byte per element

---
 src/serialiser/include/IoBuffer.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/serialiser/include/IoBuffer.hpp b/src/serialiser/include/IoBuffer.hpp
index 369b8a8..046da7a 100644
--- a/src/serialiser/include/IoBuffer.hpp
+++ b/src/serialiser/include/IoBuffer.hpp
@@ -438,7 +438,9 @@ public:
     template<ArrayOrVector Container, bool checkRange = false>
     OPENCMW_FORCEINLINE constexpr Container &getArray(Container &input, const std::size_t requestedSize = SIZE_MAX) const noexcept(!checkRange) {
         using R                        = Container::value_type;
-        const auto        arraySize    = std::min(static_cast<std::size_t>(get<int32_t>()), _size - _position);
+        constexpr bool    bulkCopy     = std::is_trivially_copyable_v<R> && !std::is_same_v<R, bool> && !opencmw::StringLike<R>;
+        const auto        wireSize     = static_cast<std::size_t>(get<int32_t>());
+        const auto        arraySize    = std::min(wireSize, (_size - _position) / (bulkCopy ? sizeof(R) : 1LU));
         const std::size_t minArraySize = std::min(arraySize, requestedSize);
 
         if constexpr (opencmw::is_vector<Container>) {
@@ -452,7 +454,7 @@ public:
             assert(std::tuple_size_v<Container> >= minArraySize && "std::array<SupportedType, size> wire-format size does not match design");
         }
 
-        if constexpr (std::is_trivially_copyable_v<R> && !std::is_same_v<R, bool> && !opencmw::StringLike<R>) {
+        if constexpr (bulkCopy) {
             std::memcpy(input.data(), _buffer + _position, minArraySize * sizeof(R));
             _position += minArraySize * sizeof(R);
         } else {
-- 
2.43.0


From 39b5bcb89f03efde8136b4b5ea184e59796671eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:53:01 +0000
Subject: [PATCH 18/26] fix: IoBuffer::at: the whole element has to lie inside
 the content

---
 src/serialiser/include/IoBuffer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/serialiser/include/IoBuffer.hpp b/src/serialiser/include/IoBuffer.hpp
index 046da7a..6ac5113 100644
--- a/src/serialiser/include/IoBuffer.hpp
+++ b/src/serialiser/include/IoBuffer.hpp
@@ -329,7 +329,7 @@ public:
     template<typename R, bool checkRange = true>
     OPENCMW_FORCEINLINE constexpr R &at(const size_t index) noexcept(!checkRange) {
         if constexpr (checkRange) {
-            if (index >= _size) {
+            if (index >= _size || sizeof(R) > _size - index) {
                 throw std::out_of_range(std::format("requested index {} is out-of-range [0,{}]", index, _size));
             }
         }
-- 
2.43.0


From ff522af9f0ffdc4d8926c18ddefe00a9a81f7b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:08:46 +0000
Subject: [PATCH 19/26] fix: BasicSetting::ScopedAccess::get() returns the
 value, not its address

The accessor did not compile when used.
---
 src/disruptor/include/BasicSetting.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/disruptor/include/BasicSetting.hpp b/src/disruptor/include/BasicSetting.hpp
index 5acc64c..550172a 100644
--- a/src/disruptor/include/BasicSetting.hpp
+++ b/src/disruptor/include/BasicSetting.hpp
@@ -145,13 +145,13 @@ public:
 
         // read-only access
         constexpr          operator const SettingType &() const noexcept { return *_currentValue; } // NOSONAR - implicit conversion intended
-        constexpr const T &get() const noexcept { return _currentValue; }
+        constexpr const T &get() const noexcept { return *_currentValue; }
         constexpr const T *operator->() const noexcept { return _currentValue; }
 
         // read-write access
         constexpr operator SettingType &() noexcept { return *_currentValue; } // NOSONAR - implicit conversion intended
         template<bool b = true>
-        requires enableMutableAccess T &get() noexcept { return _currentValue; }
+        requires enableMutableAccess T &get() noexcept { return *_currentValue; }
         template<bool b = true>
         requires enableMutableAccess T &operator=(const T &newVal) {
             *_currentValue = newVal;
-- 
2.43.0


From 01ef48f6ea78667fa5f5303f1d040e45d809f7f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:08:46 +0000
Subject: [PATCH 20/26] fix: BasicSetting::acquire<RealTime>() of a real-time
 mutable setting compiles

---
 src/disruptor/include/BasicSetting.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/disruptor/include/BasicSetting.hpp b/src/disruptor/include/BasicSetting.hpp
index 550172a..f7f765f 100644
--- a/src/disruptor/include/BasicSetting.hpp
+++ b/src/disruptor/include/BasicSetting.hpp
@@ -93,8 +93,9 @@ public:
     [[nodiscard]] std::conditional_t<mutableBy == MutableOption::RealTimeMutable && threadType == AccessType::RealTime, T, const T> &acquire() noexcept {
         if constexpr (threadType == AccessType::RealTime) {
             return _settingStore.realtimeAcquire();
+        } else {
+            return _settingStore.nonRealtimeAcquire();
         }
-        return _settingStore.nonRealtimeAcquire();
     }
 
     template<AccessType threadType>
-- 
2.43.0


From e0c7fe0303610306d5aba20e80a2e275dc3b65be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:08:46 +0000
Subject: [PATCH 21/26] fix: BasicSetting.hpp includes <array>

---
 src/disruptor/include/BasicSetting.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/disruptor/include/BasicSetting.hpp b/src/disruptor/include/BasicSetting.hpp
index f7f765f..6d7bff4 100644
--- a/src/disruptor/include/BasicSetting.hpp
+++ b/src/disruptor/include/BasicSetting.hpp
@@ -1,6 +1,7 @@
 #ifndef OPENCMW_CPP_BASICSETTINGS_HPP
 #define OPENCMW_CPP_BASICSETTINGS_HPP
 
+#include <array>
 #include <atomic>
 #include <cassert>
 #include <memory>
-- 
2.43.0


From cd2f365d2e61ef22403fb0d800a27ae5e6b794fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:08:46 +0000
Subject: [PATCH 22/26] fix: RealtimeMutable's destructor waits for a busy
 real-time thread

BUSY_BIT is 2, the comparison with 1 was never true.
---
 src/disruptor/include/BasicSetting.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/disruptor/include/BasicSetting.hpp b/src/disruptor/include/BasicSetting.hpp
index 6d7bff4..9604bf8 100644
--- a/src/disruptor/include/BasicSetting.hpp
+++ b/src/disruptor/include/BasicSetting.hpp
@@ -262,7 +262,7 @@ public:
 
     ~RealtimeMutable() { // NOSONAR - intended behaviour, implements access guard
         assert("delete while in-use by real-time thread" && (control.load() & BUSY_BIT) == 0);
-        while ((control.load() & BUSY_BIT) == 1)
+        while ((control.load() & BUSY_BIT) != 0)
             ;
 
         auto acquired = nonRealtimeLock.try_lock(); // NOSONAR(cpp:S5506) -- RAII idiom implemented in BasicSetting::ScopedAccess
-- 
2.43.0


From cc26b18d92459ad632ac681acac8e4d375a794c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:08:46 +0000
Subject: [PATCH 23/26] fix: BasicSetting releases its mutex when copying the
 value throws

The guard's constructor failed with the mutex locked: every later access blocked forever.
---
 src/disruptor/include/BasicSetting.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/disruptor/include/BasicSetting.hpp b/src/disruptor/include/BasicSetting.hpp
index 9604bf8..ca4fd81 100644
--- a/src/disruptor/include/BasicSetting.hpp
+++ b/src/disruptor/include/BasicSetting.hpp
@@ -208,8 +208,9 @@ public:
     }
 
     T &nonRealtimeAcquire() {
-        _nonRealtimeLock.lock(); // NOSONAR - RAII idiom implemented in BasicSetting::ScopedAccess
+        std::unique_lock lock(_nonRealtimeLock);
         _rtStorageCopy.reset(new T(*_storage));
+        lock.release(); // unlocked in nonRealtimeRelease(), RAII idiom implemented in BasicSetting::ScopedAccess
 
         return *_rtStorageCopy.get();
     }
-- 
2.43.0


From 5c67ffdabbb9014ffdd6b93cfbdec8b2c6d5866b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:08:46 +0000
Subject: [PATCH 24/26] fix: RealtimeMutable::realtimeReplace updates the
 real-time copy

The next real-time access saw the value before the replacement, and its
release published that old value again.
---
 src/disruptor/include/BasicSetting.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/disruptor/include/BasicSetting.hpp b/src/disruptor/include/BasicSetting.hpp
index ca4fd81..9d74e7f 100644
--- a/src/disruptor/include/BasicSetting.hpp
+++ b/src/disruptor/include/BasicSetting.hpp
@@ -288,9 +288,8 @@ public:
     void realtimeReplace(Args &&...args) {
         T    obj(std::forward<Args>(args)...);
 
-        auto idx  = acquireIndex();
-        data[idx] = std::move(obj);
-        releaseIndex(idx);
+        realtimeCopy = std::move(obj);
+        realtimeRelease();
     }
 
     const T &nonRealtimeAcquire() {
-- 
2.43.0


From 7dc5422bdbc19a0a937bcbe9bb25bcaf2b1f6c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:23:23 +0000
Subject: [PATCH 25/26] fix: errors thrown by ThreadAffinity referred to a
 destroyed error category

---
 src/core/include/ThreadAffinity.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/core/include/ThreadAffinity.hpp b/src/core/include/ThreadAffinity.hpp
index 1f2c1dc..30816ae 100644
--- a/src/core/include/ThreadAffinity.hpp
+++ b/src/core/include/ThreadAffinity.hpp
@@ -32,11 +32,11 @@ constexpr int    THREAD_VALUE_RANGE      = 3;
 constexpr int    THREAD_INVALID_ARGUMENT = 22;
 constexpr int    THREAD_ERANGE           = 34;
 
-class thread_exception : public std::error_category {
+class thread_error_category : public std::error_category {
     using std::error_category::error_category;
 
 public:
-    constexpr thread_exception()
+    constexpr thread_error_category()
         : std::error_category(){};
 
     const char *name() const noexcept override { return "thread_exception"; };
@@ -58,6 +58,12 @@ public:
     };
 };
 
+// std::error_code refers to its category by address: the category has to outlive every exception that is thrown
+inline const std::error_category &thread_exception() noexcept {
+    static const thread_error_category category;
+    return category;
+}
+
 template<class type>
 #ifdef __EMSCRIPTEN__
 concept thread_type = std::is_same_v<type, std::thread>;
-- 
2.43.0


From 5ac266eb4e309c7720396553f4277e16fea551b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:23:23 +0000
Subject: [PATCH 26/26] fix: setThreadName passed a text that is not
 NUL-terminated to the OS

---
 src/core/include/ThreadAffinity.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/include/ThreadAffinity.hpp b/src/core/include/ThreadAffinity.hpp
index 30816ae..4b6620b 100644
--- a/src/core/include/ThreadAffinity.hpp
+++ b/src/core/include/ThreadAffinity.hpp
@@ -145,7 +145,7 @@ inline void setThreadName(const std::string_view &threadName, thread_type auto &
     if (handle == 0U) {
         throw std::system_error(THREAD_UNINITIALISED, thread_exception(), std::format("setThreadName({}, thread_type)", threadName, detail::getThreadName(handle)));
     }
-    if (int rc = pthread_setname_np(handle, threadName.data()); rc < 0) {
+    if (int rc = pthread_setname_np(handle, std::string(threadName).c_str()); rc < 0) {
         throw std::system_error(rc, thread_exception(), std::format("setThreadName({},{}) - error code '{}'", threadName, detail::getThreadName(handle), rc));
     }
 #endif
-- 
2.43.0

