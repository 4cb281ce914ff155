From 8590e427bfc47c051b3c4fd3412084aad3388023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:12 +0000
Subject: [PATCH 1/2] fix: mat3(const mat2&) read a third column that mat2 does
 not have

---
 src/mat3.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mat3.cpp b/src/mat3.cpp
index 7d5b203..fc84f70 100644
--- a/src/mat3.cpp
+++ b/src/mat3.cpp
@@ -24,7 +24,7 @@ zcm::mat3::mat3(const zcm::mat2 &m2) noexcept
 {
     _columns[0] = vec3(m2[0].x, m2[0].y, 0.0f);
     _columns[1] = vec3(m2[1].x, m2[1].y, 0.0f);
-    _columns[2] = vec3(m2[2].x, m2[2].y, 1.0f);
+    _columns[2] = vec3(0.0f, 0.0f, 1.0f);
 }
 
 zcm::mat3::operator zcm::mat2() const noexcept
-- 
2.43.0


From 17c753174a23fd3bdf7c72cb0af8655003fb5bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:14 +0000
Subject: [PATCH 2/2] fix: benchgen reported success when an output file could
 not be written

---
 tools/benchgen/utils.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tools/benchgen/utils.h b/tools/benchgen/utils.h
index 09b923b..984527f 100644
--- a/tools/benchgen/utils.h
+++ b/tools/benchgen/utils.h
@@ -81,11 +81,15 @@ inline std::string generateMainSource(const std::string includes, const std::str
 
 inline void writeToFile(const fs::path& path, const std::string& content)
 {
-    //TODO: add checks
     std::ofstream output(path.string());
 
     output << content << "\n";
 
     output.flush();
     output.close();
+
+    if(!output) {
+        fmt::print("Failed to write '{}'\n", path.string());
+        std::exit(-1);
+    }
 }
-- 
2.43.0

