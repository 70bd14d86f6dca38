From d5170f9b752b4a5da69b85fa33d5ff48d96bdac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:49 +0000
Subject: [PATCH 01/10] fix: keep track of a hidden terminal cursor across
 Terminal::reset

reset() forgot that the terminal's cursor had been hidden, although none of
the sequences it sends makes the cursor visible again, so a later
showTerminalCursor() did not send CSI ?25h and the cursor stayed hidden.
---
 src/agent/Terminal.cc | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/agent/Terminal.cc b/src/agent/Terminal.cc
index afa0a36..a8dbc44 100644
--- a/src/agent/Terminal.cc
+++ b/src/agent/Terminal.cc
@@ -311,7 +311,6 @@ void Terminal::reset(SendClearFlag sendClearFirst, int64_t newLine)
     m_remoteLine = newLine;
     m_remoteColumn = 0;
     m_lineData.clear();
-    m_cursorHidden = false;
     m_remoteColor = -1;
 }
 
-- 
2.43.0


From 3d70d41b54477b3905d6da02c518e8eb16812f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:25 +0000
Subject: [PATCH 02/10] fix: don't reuse a terminal row ending in half of a
 character

When a row grew to the right by appending, Terminal::sendLine kept the
already output prefix even if its last cell was the first half of a
surrogate pair or of a double-width character.  The first half had been
output on its own, so the rest was output as a second replacement.
---
 src/agent/Terminal.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/agent/Terminal.cc b/src/agent/Terminal.cc
index a8dbc44..09f65f9 100644
--- a/src/agent/Terminal.cc
+++ b/src/agent/Terminal.cc
@@ -337,7 +337,15 @@ void Terminal::sendLine(int64_t line, const CHAR_INFO *lineData, int width,
             } else {
                 okWidth = static_cast<size_t>(width) > m_lineData.size();
             }
-            if (!okWidth ||
+            // If the last cell we've output is only the first part of a
+            // character (e.g. the leading half of a surrogate pair), then it
+            // was output on its own, and appending the rest of the character
+            // wouldn't fix it.
+            const CHAR_INFO &lastCell = m_lineData.back();
+            const bool partialChar =
+                (lastCell.Char.UnicodeChar & 0xFC00) == 0xD800 ||
+                (lastCell.Attributes & WINPTY_COMMON_LVB_LEADING_BYTE);
+            if (!okWidth || partialChar ||
                     memcmp(m_lineData.data(), lineData,
                            sizeof(CHAR_INFO) * m_lineData.size()) != 0) {
                 m_lineDataValid = false;
-- 
2.43.0


From 138dcffab5df4f35346a911bf48e12b16afa2160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:05 +0000
Subject: [PATCH 03/10] fix: reject an impossible string length before
 allocating the string

A malformed message could announce a string of almost 2^63 characters.
ReadBuffer::getWString then failed with std::length_error or
std::bad_alloc instead of a DecodeError.
---
 src/shared/Buffer.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/shared/Buffer.cc b/src/shared/Buffer.cc
index 158a629..4dd9329 100644
--- a/src/shared/Buffer.cc
+++ b/src/shared/Buffer.cc
@@ -86,7 +86,8 @@ int64_t ReadBuffer::getInt64() {
 std::wstring ReadBuffer::getWString() {
     READ_BUFFER_CHECK(getRawValue<Piece>() == Piece::WString);
     const uint64_t charLen = getRawValue<uint64_t>();
-    READ_BUFFER_CHECK(charLen <= SIZE_MAX / sizeof(wchar_t));
+    // Check the length against the message before allocating anything.
+    READ_BUFFER_CHECK(charLen <= (m_buf.size() - m_off) / sizeof(wchar_t));
     // To be strictly conforming, we can't use the convenient wstring
     // constructor, because the string in m_buf mightn't be aligned.
     std::wstring ret;
-- 
2.43.0


From 372a3187658168f06b117f5d6a113ca880ae6874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:41 +0000
Subject: [PATCH 04/10] fix: don't pass negative characters to isdigit

A byte of 0x80 or more following a report prefix such as ESC [ was passed
to isdigit as a negative int, which is undefined (it indexes the C
runtime's character table out of range).
---
 src/agent/ConsoleInput.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/agent/ConsoleInput.cc b/src/agent/ConsoleInput.cc
index 192cac2..327ebce 100644
--- a/src/agent/ConsoleInput.cc
+++ b/src/agent/ConsoleInput.cc
@@ -66,6 +66,11 @@ std::string MouseRecord::toString() const {
 
 const unsigned int kIncompleteEscapeTimeoutMs = 1000u;
 
+// Unlike isdigit, this function accepts a (signed) char from the terminal.
+inline bool isDigit(char ch) {
+    return ch >= '0' && ch <= '9';
+}
+
 #define CHECK(cond)                                 \
         do {                                        \
             if (!(cond)) { return 0; }              \
@@ -80,13 +85,13 @@ const unsigned int kIncompleteEscapeTimeoutMs = 1000u;
 #define SCAN_INT(out, maxLen)                       \
         do {                                        \
             (out) = 0;                              \
-            CHECK(isdigit(*pch));                   \
+            CHECK(isDigit(*pch));                   \
             const char *begin = pch;                \
             do {                                    \
                 CHECK(pch - begin + 1 < maxLen);    \
                 (out) = (out) * 10 + *pch - '0';    \
                 ADVANCE();                          \
-            } while (isdigit(*pch));                \
+            } while (isDigit(*pch));                \
         } while(0)
 
 #define SCAN_SIGNED_INT(out, maxLen)                \
-- 
2.43.0


From 545e1ca88be2bec95d85a9cab0a4b4f01cf21135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:02 +0000
Subject: [PATCH 05/10] fix: don't truncate large mouse positions to 16 bits

---
 src/agent/ConsoleInput.cc | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/agent/ConsoleInput.cc b/src/agent/ConsoleInput.cc
index 327ebce..e795b5e 100644
--- a/src/agent/ConsoleInput.cc
+++ b/src/agent/ConsoleInput.cc
@@ -71,6 +71,12 @@ inline bool isDigit(char ch) {
     return ch >= '0' && ch <= '9';
 }
 
+// Convert a 1-based mouse position from the terminal, which can have seven
+// digits, to a 0-based COORD member.
+inline SHORT toCoord(int32_t pos) {
+    return std::max(-32768, std::min(32767, pos - 1));
+}
+
 #define CHECK(cond)                                 \
         do {                                        \
             if (!(cond)) { return 0; }              \
@@ -152,9 +158,9 @@ static int matchMouse1006(const char *input, int inputSize, MouseRecord &out)
     CHECK(*pch == '<');         ADVANCE();
     SCAN_INT(out.flags, 8);
     CHECK(*pch == ';');         ADVANCE();
-    SCAN_SIGNED_INT(temp, 8); out.coord.X = temp - 1;
+    SCAN_SIGNED_INT(temp, 8); out.coord.X = toCoord(temp);
     CHECK(*pch == ';');         ADVANCE();
-    SCAN_SIGNED_INT(temp, 8); out.coord.Y = temp - 1;
+    SCAN_SIGNED_INT(temp, 8); out.coord.Y = toCoord(temp);
     CHECK(*pch == 'M' || *pch == 'm');
     out.release = (*pch == 'm');
     return pch - input + 1;
@@ -169,9 +175,9 @@ static int matchMouse1015(const char *input, int inputSize, MouseRecord &out)
     CHECK(*pch == '[');         ADVANCE();
     SCAN_INT(out.flags, 8); out.flags -= 32;
     CHECK(*pch == ';');         ADVANCE();
-    SCAN_SIGNED_INT(temp, 8); out.coord.X = temp - 1;
+    SCAN_SIGNED_INT(temp, 8); out.coord.X = toCoord(temp);
     CHECK(*pch == ';');         ADVANCE();
-    SCAN_SIGNED_INT(temp, 8); out.coord.Y = temp - 1;
+    SCAN_SIGNED_INT(temp, 8); out.coord.Y = toCoord(temp);
     CHECK(*pch == 'M');
     out.release = false;
     return pch - input + 1;
-- 
2.43.0


From d3d5f584dc3c69d04a44c582f9b115fa6ac9f5f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:39 +0000
Subject: [PATCH 06/10] fix: consume the whole process list when the caller's
 array is too small

winpty_get_console_process_list left the PIDs of the reply unread when
they did not fit into the caller's array, so that assertEof failed: the
call returned an error instead of the required count, and the control
pipe was closed.  A negative count in a reply was returned as a success.
---
 src/libwinpty/winpty.cc | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/libwinpty/winpty.cc b/src/libwinpty/winpty.cc
index 3d97749..8838639 100644
--- a/src/libwinpty/winpty.cc
+++ b/src/libwinpty/winpty.cc
@@ -949,10 +949,16 @@ winpty_get_console_process_list(winpty_t *wp, int *processList, const int proces
         auto reply = readPacket(*wp);
 
         auto actualProcessCount = reply.getInt32();
+        if (actualProcessCount < 0) {
+            throwWinptyException(L"Agent RPC error: invalid process count");
+        }
 
-        if (actualProcessCount <= processCount) {
-            for (auto i = 0; i < actualProcessCount; i++) {
-                processList[i] = reply.getInt32();
+        // Read every PID, even if the list doesn't fit into the caller's
+        // buffer.  The reply must be consumed completely.
+        for (auto i = 0; i < actualProcessCount; i++) {
+            const auto pid = reply.getInt32();
+            if (actualProcessCount <= processCount) {
+                processList[i] = pid;
             }
         }
 
-- 
2.43.0


From cbd0511532853e12f3b50357b86d4f0110327e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:39 +0000
Subject: [PATCH 07/10] fix: let no exception escape from the API while tracing
 an error

translateException converts the error message to UTF-8 outside of any try
block.  With memory exhausted, the conversion throws std::bad_alloc, which
left the extern "C" API function and leaked the error object.
---
 src/libwinpty/winpty.cc | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/libwinpty/winpty.cc b/src/libwinpty/winpty.cc
index 8838639..f518a6c 100644
--- a/src/libwinpty/winpty.cc
+++ b/src/libwinpty/winpty.cc
@@ -130,9 +130,14 @@ static void translateException(winpty_error_ptr_t *&err) {
     } catch (...) {
         ret = const_cast<winpty_error_ptr_t>(&kUncaughtException);
     }
-    trace("libwinpty error: code=%u msg='%s'",
-        static_cast<unsigned>(ret->code),
-        utf8FromWide(winpty_error_msg(ret)).c_str());
+    try {
+        trace("libwinpty error: code=%u msg='%s'",
+            static_cast<unsigned>(ret->code),
+            utf8FromWide(winpty_error_msg(ret)).c_str());
+    } catch (...) {
+        // Formatting the message allocates memory.  An exception here must not
+        // escape through the C API.
+    }
     if (err != nullptr) {
         *err = ret;
     } else {
-- 
2.43.0


From 034b9b74f860ddcc2c44ec8c2ec7c5c9360c4766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:45 +0000
Subject: [PATCH 08/10] fix: scrape a resized direct-mode console by its new
 geometry

resizeImpl changes the buffer size, the window and the cursor, but
directScrapeOutput was still given the info read before the resize, so it
could read outside the console buffer (which crashes the agent before
Windows 10) and show the wrong rows.
---
 src/agent/Scraper.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/agent/Scraper.cc b/src/agent/Scraper.cc
index 21f9c67..c350689 100755
--- a/src/agent/Scraper.cc
+++ b/src/agent/Scraper.cc
@@ -333,7 +333,7 @@ void Scraper::syncConsoleContentAndSize(
         m_console.setFrozen(true);
     }
 
-    const ConsoleScreenBufferInfo info = m_consoleBuffer->bufferInfo();
+    ConsoleScreenBufferInfo info = m_consoleBuffer->bufferInfo();
     bool cursorVisible = true;
     CONSOLE_CURSOR_INFO cursorInfo = {};
     if (!GetConsoleCursorInfo(GetStdHandle(STD_OUTPUT_HANDLE), &cursorInfo)) {
@@ -364,6 +364,8 @@ void Scraper::syncConsoleContentAndSize(
         // before scraping.
         if (forceResize) {
             resizeImpl(info);
+            // The window, the buffer and the cursor may have moved.
+            info = m_consoleBuffer->bufferInfo();
         }
         directScrapeOutput(info, cursorVisible);
     } else {
-- 
2.43.0


From d96e6f33b016b3e7076f07124da8097a72eaa786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:45 +0000
Subject: [PATCH 09/10] fix: read the console info again when a tentative
 scrape has to freeze

When a scrape of the running Windows 10 console was given up, the frozen
retry used the window, buffer size and cursor from before the freeze.  The
console may have changed since: the sync marker could be written below a
window that had moved to the top (it shows up in the output later), and
rows outside a shrunken buffer could be read.
---
 src/agent/Scraper.cc | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/agent/Scraper.cc b/src/agent/Scraper.cc
index c350689..f679500 100755
--- a/src/agent/Scraper.cc
+++ b/src/agent/Scraper.cc
@@ -354,7 +354,11 @@ void Scraper::syncConsoleContentAndSize(
         // When we switch from direct->scrolling mode, make sure the console is
         // the right size.
         if (!m_directMode) {
-            m_console.setFrozen(true);
+            if (!m_console.frozen()) {
+                // The console may have changed since its info was read.
+                syncConsoleContentAndSize(true, finalInfoOut);
+                return;
+            }
             forceResize = true;
         }
     }
@@ -371,10 +375,13 @@ void Scraper::syncConsoleContentAndSize(
     } else {
         if (!m_console.frozen()) {
             if (!scrollingScrapeOutput(info, cursorVisible, true)) {
+                // The console may have changed since its info was read, so
+                // freeze it and start over.
                 m_console.setFrozen(true);
+                syncConsoleContentAndSize(forceResize, finalInfoOut);
+                return;
             }
-        }
-        if (m_console.frozen()) {
+        } else {
             scrollingScrapeOutput(info, cursorVisible, false);
         }
         // In scrolling mode, we want to scrape before resizing, because we'll
-- 
2.43.0


From 0e948ec0532cf0510660bad272b7437d47d3f965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:15 +0000
Subject: [PATCH 10/10] fix: a resize keeps working when the sync marker
 scrolled to the first row

createSyncMarker cannot place a marker on row 0, so resizing the window just
after the marker had scrolled there failed its assertion and ended the agent.
---
 src/agent/Scraper.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/agent/Scraper.cc b/src/agent/Scraper.cc
index f679500..78202d8 100755
--- a/src/agent/Scraper.cc
+++ b/src/agent/Scraper.cc
@@ -213,7 +213,9 @@ void Scraper::resizeImpl(const ConsoleScreenBufferInfo &origInfo)
             m_consoleBuffer->clearLines(0, origWindowRect.Top, origInfo);
             clearBufferLines(0, origWindowRect.Top);
             if (m_syncRow != -1) {
-                createSyncMarker(std::min(
+                // A marker that scrolled to the first row has to move down.
+                createSyncMarker(constrained(
+                    1,
                     m_syncRow,
                     BUFFER_LINE_COUNT - rows
                                       - SYNC_MARKER_LEN
-- 
2.43.0

