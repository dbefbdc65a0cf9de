From 4773b756aeef6acc53f27c0927b8b02702277dbb Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:48:59 +0000
Subject: [PATCH 01/43] fix: isCertain("min") looked up a key that is never set

---
 src/result.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/result.cpp b/src/result.cpp
index 4ddd4a2..c4d0551 100644
--- a/src/result.cpp
+++ b/src/result.cpp
@@ -275,7 +275,7 @@ bool ParsedComponents::isCertain(std::string comp) {
         return knownValues["hour"].first;
 
     else if(!comp.compare("min"))
-        return knownValues["minute"].first;
+        return knownValues["min"].first;
 
     else if(!comp.compare("sec"))
         return knownValues["sec"].first;
-- 
2.43.0


From 5b9702913eaf285854a7bc74ac4e1213283cb752 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:48:59 +0000
Subject: [PATCH 02/43] fix: toDate printed the end of a range without its
 timezone shift

---
 src/result.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/result.cpp b/src/result.cpp
index c4d0551..24a87ec 100644
--- a/src/result.cpp
+++ b/src/result.cpp
@@ -434,7 +434,7 @@ std::string ParsedResult::toDate() {
         if(getTag(utils::ExtractTimeZoneAbbreviation))
             ed += posix_time::minutes(startDate.getTimeZoneOffset());
 
-        res += " - " + posix_time::to_simple_string(posix_time::ptime_from_tm(date_end));
+        res += " - " + posix_time::to_simple_string(ed);
     }
 
     return res;
-- 
2.43.0


From 84ff9cdeba50d0ff6c0e77448c8dd2df41161b21 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:48:59 +0000
Subject: [PATCH 03/43] fix: setTag had no effect on a tag that had been
 queried before

---
 src/result.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/result.cpp b/src/result.cpp
index 24a87ec..4af9c15 100644
--- a/src/result.cpp
+++ b/src/result.cpp
@@ -458,8 +458,7 @@ size_t ParsedResult::textLength() const {
 }
 
 void ParsedResult::setTag(utils::Modifiers tag_name) {
-    if(tags.count(tag_name) < 1)
-        this->tags.insert({tag_name, true});
+    tags[tag_name] = true;
 }
 
 bool ParsedResult::isEmpty() const {
-- 
2.43.0


From 9f90e0eebf5fbf73943cd3cd2f6ef573884a3713 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:48:59 +0000
Subject: [PATCH 04/43] fix: timezone of a range was never given to its end

---
 src/refiners/ExtractTimeZoneAbbreviation.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/refiners/ExtractTimeZoneAbbreviation.hpp b/src/refiners/ExtractTimeZoneAbbreviation.hpp
index 065690c..787b00a 100644
--- a/src/refiners/ExtractTimeZoneAbbreviation.hpp
+++ b/src/refiners/ExtractTimeZoneAbbreviation.hpp
@@ -35,7 +35,7 @@ public:
                         }
 
                         if(res.end() and !res.endDate.isCertain("tzoffset")) {
-                            res.startDate.setTimeZoneOffset(offset);
+                            res.endDate.setTimeZoneOffset(offset);
                         }
 
                         res.setText(match[1].str());
-- 
2.43.0


From e48e65af471c2600c1d0e68c22aa3e23bdeaa2f3 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:48:59 +0000
Subject: [PATCH 05/43] fix: swapping the ends of a merged range lost the
 earlier one

---
 src/refiners/en/ENMergeDateRangeRefiner.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/refiners/en/ENMergeDateRangeRefiner.hpp b/src/refiners/en/ENMergeDateRangeRefiner.hpp
index b1803f7..be47b9d 100644
--- a/src/refiners/en/ENMergeDateRangeRefiner.hpp
+++ b/src/refiners/en/ENMergeDateRangeRefiner.hpp
@@ -53,8 +53,8 @@ parse::ParsedResult ENMergeDateRange::mergeResult(std::string text,
      */
     if(fromResult.startDate.date() > toResult.startDate.date()) {
         parse::ParsedResult tmp = fromResult;
-        toResult = fromResult;
-        fromResult = tmp;
+        fromResult = toResult;
+        toResult = tmp;
     }
     fromResult.endDate = toResult.startDate;
     fromResult.makeEndDateValid();
-- 
2.43.0


From e84d81812dcf067235c3d89060e235f942f78adc Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:48:59 +0000
Subject: [PATCH 06/43] fix: text of a merged range ran one character past its
 end

---
 src/refiners/en/ENMergeDateRangeRefiner.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/refiners/en/ENMergeDateRangeRefiner.hpp b/src/refiners/en/ENMergeDateRangeRefiner.hpp
index be47b9d..4dfe014 100644
--- a/src/refiners/en/ENMergeDateRangeRefiner.hpp
+++ b/src/refiners/en/ENMergeDateRangeRefiner.hpp
@@ -64,7 +64,7 @@ parse::ParsedResult ENMergeDateRange::mergeResult(std::string text,
                                    toResult.getIndex() + toResult.textLength());
 
     fromResult.setIndex(static_cast<int>(startIndex));
-    fromResult.setText(text.substr(startIndex, endIndex - startIndex + 1));
+    fromResult.setText(text.substr(startIndex, endIndex - startIndex));
 
     for(const auto& mod: utils::ModList) {
         if(toResult.getTag(mod))
-- 
2.43.0


From 6302abdfc37fcac7071f8059c0dd8ebb4219c5cb Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:48:59 +0000
Subject: [PATCH 07/43] fix: range refiner repeated one result and dropped
 another at the end of the list

---
 src/refiners/en/ENMergeDateRangeRefiner.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/refiners/en/ENMergeDateRangeRefiner.hpp b/src/refiners/en/ENMergeDateRangeRefiner.hpp
index 4dfe014..5f36e2c 100644
--- a/src/refiners/en/ENMergeDateRangeRefiner.hpp
+++ b/src/refiners/en/ENMergeDateRangeRefiner.hpp
@@ -29,13 +29,13 @@ public:
 
             if(!prev.end() and !curr.end() and isAbleToMerge(t, prev, curr)) {
                 prev = mergeResult(t, prev, curr);
-                curr = tmp;
+                curr = i + 1 < r.size() ? r[i + 1] : tmp;
                 i++;
             }
             merged_result.push_back(prev);
         }
-        if(!prev.isEmpty()) {
-            merged_result.push_back(prev);  // if prev != null add to list of results
+        if(!curr.isEmpty()) {
+            merged_result.push_back(curr);  // if curr != null add to list of results
         }
 
         return merged_result;
-- 
2.43.0


From d727543ac583cf1926e1c7a9a3f3b349a21cd4d6 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:48:59 +0000
Subject: [PATCH 08/43] fix: second half of a merged pair was emitted again at
 the end of the list

---
 src/refiners/en/ENMergeDateAndTimeRefiner.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/refiners/en/ENMergeDateAndTimeRefiner.hpp b/src/refiners/en/ENMergeDateAndTimeRefiner.hpp
index 1ebce82..1f39c2d 100644
--- a/src/refiners/en/ENMergeDateAndTimeRefiner.hpp
+++ b/src/refiners/en/ENMergeDateAndTimeRefiner.hpp
@@ -123,6 +123,7 @@ public:
                 }
                 catch (std::out_of_range& e) {
                     std::cerr << e.what() << " at ENMergeDateAndTimeRefiner" << std::endl;
+                    curr = tmp; // nothing follows the merged pair
                 }
                 i++;
             }
@@ -133,6 +134,7 @@ public:
                 }
                 catch (std::out_of_range& e) {
                     std::cerr << e.what() << " at ENMergeDateAndTimeRefiner" << std::endl;
+                    curr = tmp; // nothing follows the merged pair
                 }
                 i++;
             }
-- 
2.43.0


From 12cda08a60a0d2d316de7c85fb40e22df9911e07 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:48:59 +0000
Subject: [PATCH 09/43] fix: an overnight range that starts on the last day of
 a month ended on an impossible date

---
 src/refiners/en/ENMergeDateAndTimeRefiner.hpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/refiners/en/ENMergeDateAndTimeRefiner.hpp b/src/refiners/en/ENMergeDateAndTimeRefiner.hpp
index 1f39c2d..c748381 100644
--- a/src/refiners/en/ENMergeDateAndTimeRefiner.hpp
+++ b/src/refiners/en/ENMergeDateAndTimeRefiner.hpp
@@ -74,10 +74,19 @@ public:
 
             if(!dateResult.end() and endDateTime.date() < startDateTime.date()) {
                 // Ex. 9pm - 1am
-                if(endDateTime.isCertain("mday"))
-                    endDateTime.set_mDay(endDateTime.get_mDay() + 1);
-                else
-                    endDateTime.implyComponent("mday", endDateTime.get_mDay() + 1);
+                gregorian::date next(endDateTime.getYear(), endDateTime.getMonth(), endDateTime.get_mDay());
+                next += gregorian::days(1);
+
+                if(endDateTime.isCertain("mday")) {
+                    endDateTime.set_mDay(next.day());
+                    endDateTime.setMonth(next.month());
+                    endDateTime.setYear(next.year());
+                }
+                else {
+                    endDateTime.implyComponent("mday", next.day());
+                    endDateTime.implyComponent("month", next.month());
+                    endDateTime.implyComponent("year", next.year());
+                }
             }
             dateResult.endDate = endDateTime;
             dateResult.makeEndDateValid();
-- 
2.43.0


From a00c3053227a772e3d0b4aa22ddc5a2c419b35b5 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:49:28 +0000
Subject: [PATCH 10/43] fix: meridiem of a time range was read uninitialised or
 through a dangling reference

---
 src/parsers/en/ENTimeExpressionParser.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parsers/en/ENTimeExpressionParser.hpp b/src/parsers/en/ENTimeExpressionParser.hpp
index eaad3f3..a851298 100644
--- a/src/parsers/en/ENTimeExpressionParser.hpp
+++ b/src/parsers/en/ENTimeExpressionParser.hpp
@@ -42,7 +42,7 @@
             }
 
             int hour{0}, minute{0};// tz{-1}, meridian{-1};
-            char ampm_s;
+            char ampm_s{0};
 
             //------------Seconds------------------
             if(!match.str(SECOND_GROUP).empty()) {
@@ -160,7 +160,7 @@
                     if(to_hour > 12)
                         return result;
 
-                    char &ampm = match.str(TO_MERIDIEM_GROUP)[0];
+                    char ampm = match.str(TO_MERIDIEM_GROUP)[0];
                     if(ampm == 'a')
                         if(to_hour == 12)
                             to_hour = 0;
-- 
2.43.0


From dd00aca2c056c28d83fb5e5e40bb36c46e55e0e6 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:49:28 +0000
Subject: [PATCH 11/43] fix: meridiem implied across a time range pushed
 24-hour times past midnight

---
 src/parsers/en/ENTimeExpressionParser.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parsers/en/ENTimeExpressionParser.hpp b/src/parsers/en/ENTimeExpressionParser.hpp
index a851298..186bdb7 100644
--- a/src/parsers/en/ENTimeExpressionParser.hpp
+++ b/src/parsers/en/ENTimeExpressionParser.hpp
@@ -169,7 +169,7 @@
                         if(to_hour != 12)
                             to_hour += 12;
                         if(match.str(AM_PM_HOUR_GROUP).empty()) {
-                            if(hour != 12) {
+                            if(hour < 12) {
                                 hour += 12;
                                 result.startDate.setHour(hour);
                             }
@@ -182,7 +182,7 @@
                         if(to_hour == 12)
                             to_hour = 0;
                     if(ampm_s == 'p')
-                        if(to_hour != 12)
+                        if(to_hour < 12)
                             to_hour += 12;
                 }
 
-- 
2.43.0


From 5270d34d651ab4e249b10e5cbf80ceecdddef7dc Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:49:28 +0000
Subject: [PATCH 12/43] fix: weekday pattern had unbalanced parentheses and
 never compiled

---
 src/parsers/en/ENDayOfTheWeekParser.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parsers/en/ENDayOfTheWeekParser.hpp b/src/parsers/en/ENDayOfTheWeekParser.hpp
index 3f314c7..06e3888 100644
--- a/src/parsers/en/ENDayOfTheWeekParser.hpp
+++ b/src/parsers/en/ENDayOfTheWeekParser.hpp
@@ -23,10 +23,10 @@
             static const std::regex PATTERN {
                 R"((\b))"
                     R"((earl(?:ier|y)|late)?)"
-                        R"((?:\s*(this|last|next)\s*)?))"
+                        R"((?:\s*(this|last|next)\s*)?)"
                             R"((Sun(?:day)?|Mon(?:day)?|Tue(?:s(?:day)?)?|Wed(?:nesday)?|Thu(?:r(?:s(?:day)?)?)?|Fri(?:day)?|Sat(?:urday)?))"
                                 R"((?:\s*(this|last|next)\s*)?(?:(week)\s*)?)"
-                R"((\b)", /* part of pattern (on\s*)?*/
+                R"((\b))", /* part of pattern (on\s*)?*/
             std::regex::icase};
 
             return PATTERN;
-- 
2.43.0


From 5a9ee33c7ce6078e80f5b2d1017b80c90f4104b9 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:49:28 +0000
Subject: [PATCH 13/43] fix: holiday pattern required literal backslashes and
 trailing space

---
 src/parsers/en/ENUSHolidaysParser.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parsers/en/ENUSHolidaysParser.hpp b/src/parsers/en/ENUSHolidaysParser.hpp
index 675d353..7635a34 100644
--- a/src/parsers/en/ENUSHolidaysParser.hpp
+++ b/src/parsers/en/ENUSHolidaysParser.hpp
@@ -13,8 +13,8 @@
                     R"((\b))"
                         R"((Independence|President\'s|New\s*Year\'s(?:\s*eve)?|)"
                         R"(Columbus|MLK|Martin\s*Luther\s*King\s*(?:Junior|Jr|Jnr)|)"
-                        R"(Thanksgiving|Memorial|Labor|Veteran(?:s|\\'s)|Christmas\\s*(?:eve)?|)"
-                        R"(black\s*Friday)\s+)"
+                        R"(Thanksgiving|Memorial|Labor|Veteran(?:s|\'s)|Christmas\s*(?:eve)?|)"
+                        R"(black\s*Friday)\s*)"
                             R"((?:day)?)"
                     R"((\b))", std::regex::icase};
 
-- 
2.43.0


From c1906cb9ed88fe8839fd2a0a97bc91685ad3dbe0 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:49:28 +0000
Subject: [PATCH 14/43] fix: black friday was given as the second day after
 thanksgiving

---
 src/parsers/en/ENUSHolidaysParser.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parsers/en/ENUSHolidaysParser.hpp b/src/parsers/en/ENUSHolidaysParser.hpp
index 7635a34..0decf23 100644
--- a/src/parsers/en/ENUSHolidaysParser.hpp
+++ b/src/parsers/en/ENUSHolidaysParser.hpp
@@ -109,8 +109,8 @@
 
                 result.startDate.setYear(day.year());
                 result.startDate.setMonth(day.month());
-                result.startDate.set_mDay(day.day() + 1);
-                result.startDate.set_wDay(day.day_of_week() + 1);
+                result.startDate.set_mDay(day.day());
+                result.startDate.set_wDay(day.day_of_week());
             }
             else if (text.find("memorial") != std::string::npos) {
                 // Memorial day is observed on the last Monday of May
-- 
2.43.0


From 5bf050e6c648053897103096eee7ce56b009c52a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:49:28 +0000
Subject: [PATCH 15/43] fix: unknown words counted as zero weeks and were added
 to the vocabulary

---
 src/parsers/en/ENWeekExperessionParser.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parsers/en/ENWeekExperessionParser.hpp b/src/parsers/en/ENWeekExperessionParser.hpp
index 4d6e13e..3cd19be 100644
--- a/src/parsers/en/ENWeekExperessionParser.hpp
+++ b/src/parsers/en/ENWeekExperessionParser.hpp
@@ -30,10 +30,10 @@
                 numberOfWeeks = std::stoi(match.str(3));
             }
             else if(!match.str(4).empty()) {
-                numberOfWeeks = utils::INTEGER_WORDS[match.str(4)];
-                if(numberOfWeeks < 0) {
+                if(utils::INTEGER_WORDS.find(match.str(4)) == utils::INTEGER_WORDS.end()) {
                     return result;
                 }
+                numberOfWeeks = utils::INTEGER_WORDS[match.str(4)];
             }
             if(match.str(2).find("last") != std::string::npos) {
                 tmp -= gregorian::weeks(numberOfWeeks);
-- 
2.43.0


From 60cba99be1877cf035354c42c5923bc0cc0b6a8c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:49:28 +0000
Subject: [PATCH 16/43] fix: looking up an unknown ordinal added it to the
 vocabulary

---
 src/utils/utils.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utils/utils.cpp b/src/utils/utils.cpp
index 1c00386..98874b8 100644
--- a/src/utils/utils.cpp
+++ b/src/utils/utils.cpp
@@ -15,7 +15,8 @@ unsigned utils::argToOrdinalValue(const std::string &arg) {
     std::string value{std::regex_replace(arg, std::regex("-"), " ")};
     value = std::regex_replace(value, std::regex("^ +| +$|( ) +"), "$1");
     std::transform(value.begin(), value.end(), value.begin(), ::tolower);
-    return utils::ORDINAL_WORDS[value];
+    auto ordinal = utils::ORDINAL_WORDS.find(value);
+    return ordinal == utils::ORDINAL_WORDS.end() ? 0 : ordinal->second;
 };
 
 std::string utils::keysToString(std::map<std::string, unsigned> arg) {
-- 
2.43.0


From d0183978b1052c4e968ef8357e964b3ede85de18 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:49:28 +0000
Subject: [PATCH 17/43] fix: "may." was accepted by the month patterns but had
 no month number

---
 src/utils/utils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/utils.hpp b/src/utils/utils.hpp
index 16f2002..6cfcb45 100644
--- a/src/utils/utils.hpp
+++ b/src/utils/utils.hpp
@@ -105,7 +105,7 @@ namespace utils {
             {"february",   2}, {"feb", 2},  {"feb.",  2},
             {"march",      3}, {"mar", 3},  {"mar.",  3},
             {"april",      4}, {"apr", 4},  {"apr.",  4},
-            {"may",        5},
+            {"may",        5}, {"may.", 5},
             {"june",       6}, {"jun", 6},  {"jun.",  6},
             {"july",       7}, {"jul", 7},  {"jul.",  7},
             {"august",     8}, {"aug", 8},  {"aug.",  8},
-- 
2.43.0


From 93f5b8f909d3b28a622416345f8e4ae8cb7e86fe Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:49:28 +0000
Subject: [PATCH 18/43] fix: time unit scan advanced by the length of a match
 regardless of its position

---
 src/utils/utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/utils.cpp b/src/utils/utils.cpp
index 98874b8..a99e431 100644
--- a/src/utils/utils.cpp
+++ b/src/utils/utils.cpp
@@ -41,7 +41,7 @@ std::map<std::string, float> utils::extractDateTimeUnitFragments(std::string tim
 
     while (res) {
         fragments = utils::collectDateTimeFragment(match, fragments);
-        remainingText = remainingText.substr(match[0].str().length());
+        remainingText = match.suffix().str();
         res = std::regex_search(remainingText, match, utils::PATTERN_TIME_UNIT);
     }
     return fragments;
-- 
2.43.0


From 010874d4ae1ad12d68eb6a265ec6a91d189de601 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:50:49 +0000
Subject: [PATCH 19/43] fix: "ago" and "from now" patterns required stray
 characters and never matched

---
 src/parsers/en/ENTimeAgoFormatParser.hpp | 2 +-
 src/parsers/en/ENTimeLaterParser.hpp     | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parsers/en/ENTimeAgoFormatParser.hpp b/src/parsers/en/ENTimeAgoFormatParser.hpp
index 22d6a8d..68c0bec 100644
--- a/src/parsers/en/ENTimeAgoFormatParser.hpp
+++ b/src/parsers/en/ENTimeAgoFormatParser.hpp
@@ -13,7 +13,7 @@
             static const std::regex PATTERN = std::regex(
                     R"((\b)(?:within\s*)?((?:((?:one|two|three|four|five|six|seven|eight|nine|)"
                     R"(ten|eleven|twelve)|[0-9]+|an?(?:\s*few)?|half(?:\s*an?)?)\s*(sec(?:onds?)?|)"
-                    R"(min(?:ute)?s?|hours?|weeks?|days?|months?|years?)\\s*)+)(?:ago|before|earlier))"
+                    R"(min(?:ute)?s?|hours?|weeks?|days?|months?|years?)\s*)+)(?:ago|before|earlier))"
                     R"((\b))", std::regex::icase);
             return PATTERN;
         }
diff --git a/src/parsers/en/ENTimeLaterParser.hpp b/src/parsers/en/ENTimeLaterParser.hpp
index 30fed1f..a22cf1f 100644
--- a/src/parsers/en/ENTimeLaterParser.hpp
+++ b/src/parsers/en/ENTimeLaterParser.hpp
@@ -17,8 +17,8 @@
                         R"(((?:one|two|three|four|five|six|seven|eight|nine|ten|eleven|twelve)|)"
                         R"([0-9]+)"
                         R"(|an?(?:\s*few)?|half(?:\s+an?)?)"
-                    R"(")\s+)"
-                    R"((sec(?:onds?)?|min(?:ute)?s?|hours?|weeks?|days?|months?|years?)\\s*)+))"
+                    R"()\s+)"
+                    R"((sec(?:onds?)?|min(?:ute)?s?|hours?|weeks?|days?|months?|years?)\s*)+))"
                         R"((?:later|after|from now|henceforth|forward|out))"
                 R"((\b))", std::regex::icase};
             return PATTERN;
-- 
2.43.0


From 69eeee821443c62a5ac739eccdce93e77dcb110a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:50:49 +0000
Subject: [PATCH 20/43] fix: "ago" and "from now" phrases threw unless they
 started the text

---
 src/parsers/en/ENTimeAgoFormatParser.hpp | 2 +-
 src/parsers/en/ENTimeLaterParser.hpp     | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parsers/en/ENTimeAgoFormatParser.hpp b/src/parsers/en/ENTimeAgoFormatParser.hpp
index 68c0bec..2e0022d 100644
--- a/src/parsers/en/ENTimeAgoFormatParser.hpp
+++ b/src/parsers/en/ENTimeAgoFormatParser.hpp
@@ -24,7 +24,7 @@
             std::string text = match.str(FULL_MATCH);
             parse::ParsedResult result = parse::ParsedResult(ref, idx, text);
 
-            if(match.position(0) > 0 and std::regex_match(text.substr(match.position(0) - 1), std::regex("\\w"))) {
+            if(match.position(0) > 0 and std::regex_match(tx.substr(match.position(0) - 1), std::regex("\\w"))) {
                 return result;
             }
 
diff --git a/src/parsers/en/ENTimeLaterParser.hpp b/src/parsers/en/ENTimeLaterParser.hpp
index a22cf1f..326ff05 100644
--- a/src/parsers/en/ENTimeLaterParser.hpp
+++ b/src/parsers/en/ENTimeLaterParser.hpp
@@ -24,12 +24,12 @@
             return PATTERN;
         }
 
-        parse::ParsedResult extract(std::string&, const std::smatch& match, const posix_time::ptime& ref, long idx)
+        parse::ParsedResult extract(std::string& tx, const std::smatch& match, const posix_time::ptime& ref, long idx)
         override {
             std::string text = match.str(FULL_MATCH).substr(match.length(1));
             parse::ParsedResult result = parse::ParsedResult(ref, idx, text);
 
-            if (match.position(0) > 0 and std::regex_match(text.substr(match.position(0) - 1), std::regex("\\w")))
+            if (match.position(0) > 0 and std::regex_match(tx.substr(match.position(0) - 1), std::regex("\\w")))
                 return result;
 
             std::map<std::string, float> fragments = utils::extractDateTimeUnitFragments(match.str(2));
-- 
2.43.0


From 83ab39fc4230c67c86017d7a09bc88a51aaf46e3 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:50:49 +0000
Subject: [PATCH 21/43] fix: time units of an ago/later phrase did not carry
 over midnight into its date units

---
 src/parsers/en/ENTimeAgoFormatParser.hpp | 10 +++++-----
 src/parsers/en/ENTimeLaterParser.hpp     | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/parsers/en/ENTimeAgoFormatParser.hpp b/src/parsers/en/ENTimeAgoFormatParser.hpp
index 2e0022d..b887123 100644
--- a/src/parsers/en/ENTimeAgoFormatParser.hpp
+++ b/src/parsers/en/ENTimeAgoFormatParser.hpp
@@ -30,20 +30,19 @@
 
             std::map<std::string, float> fragments = utils::extractDateTimeUnitFragments(match.str(2));
 
-            gregorian::date date{ref.date()};
             posix_time::ptime date_t{ref};
 
             // subtract each of the elements in fragments to the date/ptinme object
             for(const auto& a : fragments) {
                 try {
                     if(a.first == "year")
-                        date -= gregorian::years(static_cast<int> (a.second));
+                        date_t -= gregorian::years(static_cast<int> (a.second));
                     else if(a.first == "month")
-                        date -= gregorian::months(static_cast<int> (a.second));
+                        date_t -= gregorian::months(static_cast<int> (a.second));
                     else if(a.first == "week")            // this did not mean a literal week but rather a weekday
-                        date -= gregorian::weeks(a.second);
+                        date_t -= gregorian::weeks(a.second);
                     else if(a.first == "day")
-                        date -= gregorian::days(
+                        date_t -= gregorian::days(
                                 static_cast<int> (a.second)); // you sure you wanna cast these bad boys?
                     else if(a.first == "hour")
                         date_t -= posix_time::hours(static_cast<int> (a.second));
@@ -58,6 +57,7 @@
                 }
             }
 
+            gregorian::date date{date_t.date()};
             if(fragments["hour"] > 0 or fragments["minute"] > 0 or fragments["second"] > 0) {
                 result.startDate.setHour(date_t.time_of_day().hours());
                 result.startDate.setMinute(date_t.time_of_day().minutes());
diff --git a/src/parsers/en/ENTimeLaterParser.hpp b/src/parsers/en/ENTimeLaterParser.hpp
index 326ff05..d302d69 100644
--- a/src/parsers/en/ENTimeLaterParser.hpp
+++ b/src/parsers/en/ENTimeLaterParser.hpp
@@ -35,22 +35,21 @@
             std::map<std::string, float> fragments = utils::extractDateTimeUnitFragments(match.str(2));
 
             // tricky here turning the floats to ints
-            gregorian::date date{ref.date()};
             posix_time::ptime date_t{ref};
 
             // add each of the elements in fragments to the date/ptime object
             for(auto a : fragments) {
                 if(a.first == "year") {
-                    date += gregorian::years(static_cast<int> (a.second));
+                    date_t += gregorian::years(static_cast<int> (a.second));
                 }
                 else if(a.first == "month") {
-                    date += gregorian::months(static_cast<int> (a.second));
+                    date_t += gregorian::months(static_cast<int> (a.second));
                 }
                 else if(a.first == "week") {            // this did not mean a literal week but rather a weekday
-                    date += gregorian::weeks(a.second);
+                    date_t += gregorian::weeks(a.second);
                 }
                 else if(a.first == "day") {
-                    date += gregorian::days(static_cast<int> (a.second)); // you sure you wanna cast these bad boys?
+                    date_t += gregorian::days(static_cast<int> (a.second)); // you sure you wanna cast these bad boys?
                 }
                 else if(a.first == "hour") {
                     date_t += posix_time::hours(static_cast<int> (a.second));
@@ -63,6 +62,7 @@
                 }
             }
 
+            gregorian::date date{date_t.date()};
             if(fragments["hour"] > 0 or fragments["minute"] > 0 or fragments["second"] > 0) {
                 result.startDate.setHour(date_t.time_of_day().hours());
                 result.startDate.setMinute(date_t.time_of_day().minutes());
-- 
2.43.0


From 7a6b6a4c98b600781b887fa00e8ba3224a71717a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:50:49 +0000
Subject: [PATCH 22/43] fix: an ago phrase reaching outside the calendar was
 silently resolved to the reference date

---
 src/parsers/en/ENTimeAgoFormatParser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/en/ENTimeAgoFormatParser.hpp b/src/parsers/en/ENTimeAgoFormatParser.hpp
index b887123..67aa60d 100644
--- a/src/parsers/en/ENTimeAgoFormatParser.hpp
+++ b/src/parsers/en/ENTimeAgoFormatParser.hpp
@@ -53,7 +53,7 @@
                 }
                 catch (std::out_of_range &e) {
                     std::cerr << e.what() << " at ENTimeAgoFormatParser" << std::endl;
-                    continue;
+                    return result;
                 }
             }
 
-- 
2.43.0


From a93a23fb7375c46a3911819043152329444da70c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:50:49 +0000
Subject: [PATCH 23/43] fix: "in N hours" kept the reference date after passing
 midnight

---
 src/parsers/en/ENDeadlineFormatParser.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parsers/en/ENDeadlineFormatParser.hpp b/src/parsers/en/ENDeadlineFormatParser.hpp
index 94257d3..fbd6f67 100644
--- a/src/parsers/en/ENDeadlineFormatParser.hpp
+++ b/src/parsers/en/ENDeadlineFormatParser.hpp
@@ -128,9 +128,9 @@
             } else if (!match.str(4).find("second")) {
                 tmpTime += posix_time::seconds(static_cast<int>(ceil(num)));
             }
-            result.startDate.implyComponent("year", tmpDate.year());
-            result.startDate.implyComponent("month", tmpDate.month());
-            result.startDate.implyComponent("mday", tmpDate.day());
+            result.startDate.implyComponent("year", tmpTime.date().year());
+            result.startDate.implyComponent("month", tmpTime.date().month());
+            result.startDate.implyComponent("mday", tmpTime.date().day());
             result.startDate.implyComponent("hour", tmpTime.time_of_day().hours());
             result.startDate.implyComponent("min", tmpTime.time_of_day().minutes());
             result.startDate.implyComponent("sec", tmpTime.time_of_day().seconds());
-- 
2.43.0


From b9d005261792dbee49a8dc362d35c0bbed9ff8e2 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:50:49 +0000
Subject: [PATCH 24/43] fix: abbreviated units of a deadline phrase were
 matched but not applied

---
 src/parsers/en/ENDeadlineFormatParser.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/parsers/en/ENDeadlineFormatParser.hpp b/src/parsers/en/ENDeadlineFormatParser.hpp
index fbd6f67..2983c42 100644
--- a/src/parsers/en/ENDeadlineFormatParser.hpp
+++ b/src/parsers/en/ENDeadlineFormatParser.hpp
@@ -61,7 +61,7 @@
              * so to support half (when num == 0.5) use lower time field
              * i.e: instead of hours(0.5) use minutes(30) e.t.c
              */
-            std::regex dwmy(("day|week|month|year"));
+            std::regex dwmy(("day|w(ee)?k|month|y(ea)?r"));
             if(std::regex_search(match.str(4), dwmy)) {
                 if(match.str(4).find("day") != std::string::npos) {
                     if(floor(num) == num) {
@@ -80,7 +80,7 @@
                         return result;
                     }
                 }
-                else if(match.str(4).find("week") != std::string::npos) {
+                else if(match.str(4).find("w") != std::string::npos) {
                     if(floor(num) == num) {
                         tmpDate += gregorian::weeks(num);
                     }
@@ -96,7 +96,7 @@
                         tmpDate += gregorian::days(15);
                     }
                 }
-                else if(match.str(4).find("year") != std::string::npos) {
+                else if(match.str(4).find("y") != std::string::npos) {
                     if(floor(num) == num) {
                         tmpDate += gregorian::years(num);
                     }
@@ -112,7 +112,7 @@
                 return result;
             }
 
-            if(!match.str(4).find("hour")) {
+            if(!match.str(4).find("h")) {
                 if(floor(num) == num) {
                     tmpTime += posix_time::hours(static_cast<int>(num));
                 }
@@ -120,12 +120,12 @@
                     tmpTime += posix_time::minutes(30);
                 }
             }
-            else if(!match.str(4).find("minute")) {
+            else if(!match.str(4).find("min")) {
                 if(floor(num) == num)
                     tmpTime += posix_time::minutes(static_cast<int>(num));
                 else
                     tmpTime += posix_time::seconds(30);
-            } else if (!match.str(4).find("second")) {
+            } else if (!match.str(4).find("sec")) {
                 tmpTime += posix_time::seconds(static_cast<int>(ceil(num)));
             }
             result.startDate.implyComponent("year", tmpTime.date().year());
-- 
2.43.0


From 21ca366861c93c3173e1c00b8d8add6937b4c7d8 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:50:49 +0000
Subject: [PATCH 25/43] fix: negative ISO offset of less than an hour lost its
 sign

---
 src/parsers/en/ENISOFormatParser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/en/ENISOFormatParser.hpp b/src/parsers/en/ENISOFormatParser.hpp
index 0b88a6a..c1ff82f 100644
--- a/src/parsers/en/ENISOFormatParser.hpp
+++ b/src/parsers/en/ENISOFormatParser.hpp
@@ -64,7 +64,7 @@
                     }
 
                     int offset = hourOffset * 60;
-                    if(offset < 0) {
+                    if(match.str(TZD_HOUR_OFFSET_GROUP)[0] == '-') {
                         offset -= minuteOffset;
                     }
                     else {
-- 
2.43.0


From f987751ed37fbe7546a954bddb2af44564d16c6e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:50:49 +0000
Subject: [PATCH 26/43] fix: month-day pattern required trailing whitespace

---
 src/parsers/en/ENMonthNameMiddleEndianParser.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parsers/en/ENMonthNameMiddleEndianParser.hpp b/src/parsers/en/ENMonthNameMiddleEndianParser.hpp
index 3ee34d6..1930b2c 100644
--- a/src/parsers/en/ENMonthNameMiddleEndianParser.hpp
+++ b/src/parsers/en/ENMonthNameMiddleEndianParser.hpp
@@ -42,18 +42,18 @@
                                             R"(|thirty[ -]first)"
                                         R"())"
                                         R"((?!\s*)"
-                                        R"((?:am|pm))\s+)"
+                                        R"((?:am|pm))\s*)"
                             R"((?:)"
                                 R"((?:to|\-)\s*)"
                                     R"((([0-9]{1,2}))"
                                         R"((?:st|nd|rd|th)?|)"
                                             R"(first|second|third|fourth|fifth|sixth|seventh|eighth|ninth|tenth|)"
-                                            R"(eleventh|twelfth|thirteenth|fourteenth|fifteenth|sixteenth|seventheenth|eighteenth|nineteenth|twentieth|)"
+                                            R"(eleventh|twelfth|thirteenth|fourteenth|fifteenth|sixteenth|seventeenth|eighteenth|nineteenth|twentieth|)"
                                             R"(twenty[ -]first|twenty[ -]second|twenty[ -]third|twenty[ -]fourth|twenty[ -]fifth|twenty[ -]sixth|twenty[ -]seventh|twenty[ -]eighth|twenty[ -]ninth|)"
                                             R"(thirtieth|thirty[ -]first)\s*)"
                                         R"()?)"
                                         R"((?:)"
-                                            R"((?:-|\/|\s*,?\s*)(?:([0-9]{4})\s*(BE|AD|BC)?|([0-9]{1,4})\s*(AD|BC))\s+)"
+                                            R"((?:-|\/|\s*,?\s*)(?:([0-9]{4})\s*(BE|AD|BC)?|([0-9]{1,4})\s*(AD|BC))\s*)"
                                         R"()?)"
                                     R"((\b)(?!\:\d))" , std::regex::icase};
             return PATTERN;
-- 
2.43.0


From 90299fb24a6f5098ca35ff09c46555b631ff31ef Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:50:49 +0000
Subject: [PATCH 27/43] fix: a spelled out end day of a date range was read
 from an empty group

---
 src/parsers/en/ENMonthNameMiddleEndianParser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/en/ENMonthNameMiddleEndianParser.hpp b/src/parsers/en/ENMonthNameMiddleEndianParser.hpp
index 1930b2c..5f65945 100644
--- a/src/parsers/en/ENMonthNameMiddleEndianParser.hpp
+++ b/src/parsers/en/ENMonthNameMiddleEndianParser.hpp
@@ -144,7 +144,7 @@
             if(!match.str(DATE_TO_GROUP).empty()) {
                 int endDate;
                 match.str(DATE_TO_NUM_GROUP).empty() ?
-                        endDate = utils::argToOrdinalValue(match.str(DATE_TO_NUM_GROUP)) :
+                        endDate = utils::argToOrdinalValue(match.str(DATE_TO_GROUP)) :
                         endDate = std::stoi(match.str(DATE_TO_NUM_GROUP));
 
                 parse::ParsedComponents tmp{result.startDate};
-- 
2.43.0


From 12a960281daec184337815d3cf3ebc3820689f1f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:50:49 +0000
Subject: [PATCH 28/43] fix: year 1 BC was taken for a missing year

---
 src/parsers/en/ENMonthNameMiddleEndianParser.hpp | 2 +-
 src/parsers/en/ENMonthNameParser.hpp             | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parsers/en/ENMonthNameMiddleEndianParser.hpp b/src/parsers/en/ENMonthNameMiddleEndianParser.hpp
index 5f65945..ad8e3d2 100644
--- a/src/parsers/en/ENMonthNameMiddleEndianParser.hpp
+++ b/src/parsers/en/ENMonthNameMiddleEndianParser.hpp
@@ -111,7 +111,7 @@
                 }
             }
 
-            if(year != -1) {
+            if(year_s != "-1") {
                 result.startDate.set_mDay(day);
                 result.startDate.setMonth(month);
                 result.startDate.setYear(year);
diff --git a/src/parsers/en/ENMonthNameParser.hpp b/src/parsers/en/ENMonthNameParser.hpp
index 7d896e8..9cadbe3 100644
--- a/src/parsers/en/ENMonthNameParser.hpp
+++ b/src/parsers/en/ENMonthNameParser.hpp
@@ -61,7 +61,7 @@
                     year += 2000;
                 }
             }
-            if(year != -1) {
+            if(!match.str(YEAR__GROUP).empty()) {
                 result.startDate.implyComponent("mday", day);
                 result.startDate.setMonth(month);
                 result.startDate.setYear(year);
-- 
2.43.0


From 66a1a016bf203143ca12ba15843b1fb8bf91709b Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:50:49 +0000
Subject: [PATCH 29/43] fix: month name pattern rejected "jun" with a dot and
 misplaced the era

---
 src/parsers/en/ENMonthNameParser.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parsers/en/ENMonthNameParser.hpp b/src/parsers/en/ENMonthNameParser.hpp
index 9cadbe3..707a3fa 100644
--- a/src/parsers/en/ENMonthNameParser.hpp
+++ b/src/parsers/en/ENMonthNameParser.hpp
@@ -21,9 +21,9 @@
 
         std::regex getPattern() const override {
             std::regex PATTERN = std::regex(R"((^|\D\s+|[^\w\s])(Jan\.?|January|Feb\.?|February|Mar\.?|March|)"
-                                    R"(Apr\.?|April|May\.?|Jun\\.?|June|Jul\.?|July|Aug\.?|August|Sep\.?|)"
+                                    R"(Apr\.?|April|May\.?|Jun\.?|June|Jul\.?|July|Aug\.?|August|Sep\.?|)"
                                     R"(Sept\.?|September|Oct\.?|October|Nov\.?|November|Dec\.?|December)\s*)"
-                                    R"((?:[,-]?\s*([0-9]{4})(\s*BE|AD|BC)?)?(?=[^\s\w]|\s+[^0-9]|\s+$|$))",
+                                    R"((?:[,-]?\s*([0-9]{4})(\s*(?:BE|AD|BC))?)?(?=[^\s\w]|\s+[^0-9]|\s+$|$))",
                                     std::regex::icase);
 
             return PATTERN;
-- 
2.43.0


From ddae8d9b65b95d57ed5dd27c9dbacf4e8e9a76c2 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:50:49 +0000
Subject: [PATCH 30/43] fix: number words of a relative date were captured with
 a leading space and not recognised

---
 src/parsers/en/ENRelativeDateFormatParser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/en/ENRelativeDateFormatParser.hpp b/src/parsers/en/ENRelativeDateFormatParser.hpp
index f8277bb..160afcf 100644
--- a/src/parsers/en/ENRelativeDateFormatParser.hpp
+++ b/src/parsers/en/ENRelativeDateFormatParser.hpp
@@ -16,7 +16,7 @@
 
         std::regex getPattern() const override {
             static const std::regex PATTERN = std::regex(
-                    R"((\b)(this|next|last|past)\s*( (?:one|two|three|four|five|six|seven|)"
+                    R"((\b)(this|next|last|past)\s*((?:one|two|three|four|five|six|seven|)"
                     R"(eight|nine|ten|eleven|twelve)|[0-9]+|few|half(?:\s*an?)?)?\s*(seconds?|)"
                     R"(min(?:ute)?s?|hour(?:s)?|day(?:s)?|week(?:s)?|month(?:s)?|year(?:s)?)(?=\s*))"
                     R"((\b))", std::regex::icase);
-- 
2.43.0


From ab8337159c36e625ba89adafbc254be07de64348 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:50:49 +0000
Subject: [PATCH 31/43] fix: "mins" in a relative date resolved to the
 reference time

---
 src/parsers/en/ENRelativeDateFormatParser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/en/ENRelativeDateFormatParser.hpp b/src/parsers/en/ENRelativeDateFormatParser.hpp
index 160afcf..0e0ac40 100644
--- a/src/parsers/en/ENRelativeDateFormatParser.hpp
+++ b/src/parsers/en/ENRelativeDateFormatParser.hpp
@@ -232,7 +232,7 @@
                         tmpTime -= posix_time::minutes(30);
                     }
                 }
-            } else if (match.str(RELATIVE_WORD_GROUP).find("minute") != std::string::npos) {
+            } else if (match.str(RELATIVE_WORD_GROUP).find("min") != std::string::npos) {
                 if(std::floor(num) == num) {
                     if (!match.str(MODIFIER_WORD_GROUP).compare("next")) {
                         tmpTime += posix_time::minutes(static_cast<int>(num));
-- 
2.43.0


From f82a7691c1b6a3533c5db219d1d64de410c09ad7 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:52:18 +0000
Subject: [PATCH 32/43] fix: counts above 2^24 lost precision in a float

---
 src/parsers/en/ENDeadlineFormatParser.hpp     | 2 +-
 src/parsers/en/ENRelativeDateFormatParser.hpp | 4 ++--
 src/parsers/en/ENTimeAgoFormatParser.hpp      | 2 +-
 src/parsers/en/ENTimeLaterParser.hpp          | 2 +-
 src/utils/utils.cpp                           | 8 ++++----
 src/utils/utils.hpp                           | 4 ++--
 6 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/parsers/en/ENDeadlineFormatParser.hpp b/src/parsers/en/ENDeadlineFormatParser.hpp
index 2983c42..d71a263 100644
--- a/src/parsers/en/ENDeadlineFormatParser.hpp
+++ b/src/parsers/en/ENDeadlineFormatParser.hpp
@@ -33,7 +33,7 @@
             parse::ParsedResult result = parse::ParsedResult(ref, idx, text);
 
             std::string tmp = match.str(3);
-            float num;
+            double num;
             // check if integer is in integer_words
             if(utils::INTEGER_WORDS.find(tmp) != utils::INTEGER_WORDS.end()) {
                 num = utils::INTEGER_WORDS[tmp];
diff --git a/src/parsers/en/ENRelativeDateFormatParser.hpp b/src/parsers/en/ENRelativeDateFormatParser.hpp
index 0e0ac40..5b62702 100644
--- a/src/parsers/en/ENRelativeDateFormatParser.hpp
+++ b/src/parsers/en/ENRelativeDateFormatParser.hpp
@@ -33,7 +33,7 @@
             std::regex dwmy(("day|week|month|year"), std::regex::icase);
 
             std::string num_label{match.str(MULTIPLIER_WORD_GROUP)};
-            float num{-1};
+            double num{-1};
 
             if(utils::INTEGER_WORDS.find(num_label) != utils::INTEGER_WORDS.end()) {
                 num = utils::INTEGER_WORDS[num_label];
@@ -49,7 +49,7 @@
             }
             else {
                 try {
-                    num = std::stof(num_label);
+                    num = std::stod(num_label);
                 }
                 catch (std::logic_error &l) {
                     std::cerr << l.what() << " :at ENRelativeDateFormatParser" << std::endl;
diff --git a/src/parsers/en/ENTimeAgoFormatParser.hpp b/src/parsers/en/ENTimeAgoFormatParser.hpp
index 67aa60d..15ff643 100644
--- a/src/parsers/en/ENTimeAgoFormatParser.hpp
+++ b/src/parsers/en/ENTimeAgoFormatParser.hpp
@@ -28,7 +28,7 @@
                 return result;
             }
 
-            std::map<std::string, float> fragments = utils::extractDateTimeUnitFragments(match.str(2));
+            std::map<std::string, double> fragments = utils::extractDateTimeUnitFragments(match.str(2));
 
             posix_time::ptime date_t{ref};
 
diff --git a/src/parsers/en/ENTimeLaterParser.hpp b/src/parsers/en/ENTimeLaterParser.hpp
index d302d69..3ccbaaf 100644
--- a/src/parsers/en/ENTimeLaterParser.hpp
+++ b/src/parsers/en/ENTimeLaterParser.hpp
@@ -32,7 +32,7 @@
             if (match.position(0) > 0 and std::regex_match(tx.substr(match.position(0) - 1), std::regex("\\w")))
                 return result;
 
-            std::map<std::string, float> fragments = utils::extractDateTimeUnitFragments(match.str(2));
+            std::map<std::string, double> fragments = utils::extractDateTimeUnitFragments(match.str(2));
 
             // tricky here turning the floats to ints
             posix_time::ptime date_t{ref};
diff --git a/src/utils/utils.cpp b/src/utils/utils.cpp
index a99e431..048b626 100644
--- a/src/utils/utils.cpp
+++ b/src/utils/utils.cpp
@@ -32,8 +32,8 @@ std::string utils::keysToString(std::map<std::string, unsigned> arg) {
     return result;
 }
 
-std::map<std::string, float> utils::extractDateTimeUnitFragments(std::string timeunitText) {
-    std::map<std::string, float> fragments;// = {};
+std::map<std::string, double> utils::extractDateTimeUnitFragments(std::string timeunitText) {
+    std::map<std::string, double> fragments;// = {};
     std::string remainingText{timeunitText};
     std::smatch match;
 
@@ -47,9 +47,9 @@ std::map<std::string, float> utils::extractDateTimeUnitFragments(std::string tim
     return fragments;
 };
 
-std::map<std::string, float> utils::collectDateTimeFragment(std::smatch match, std::map<std::string, float>& fragments) {
+std::map<std::string, double> utils::collectDateTimeFragment(std::smatch match, std::map<std::string, double>& fragments) {
     std::string _num = utils::toLowerCase(match[1].str());
-    float num;
+    double num;
 
     if (utils::INTEGER_WORDS.count(_num) > 0) {
         num = utils::INTEGER_WORDS[_num];
diff --git a/src/utils/utils.hpp b/src/utils/utils.hpp
index 6cfcb45..07b3a85 100644
--- a/src/utils/utils.hpp
+++ b/src/utils/utils.hpp
@@ -194,9 +194,9 @@ namespace utils {
 
     static std::regex PATTERN_TIME_UNIT(TIME_UNIT, std::regex::icase);
 
-    std::map<std::string, float> extractDateTimeUnitFragments(std::string);
+    std::map<std::string, double> extractDateTimeUnitFragments(std::string);
 
-    std::map<std::string, float> collectDateTimeFragment(std::smatch , std::map<std::string, float>& );
+    std::map<std::string, double> collectDateTimeFragment(std::smatch , std::map<std::string, double>& );
 }
 
 
-- 
2.43.0


From 3f0ed9a2691be2387c572da9f5d70238fe10878e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:52:18 +0000
Subject: [PATCH 33/43] fix: half a unit was truncated to none in ago/later
 phrases

---
 src/utils/utils.cpp | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/utils/utils.cpp b/src/utils/utils.cpp
index 048b626..f620e56 100644
--- a/src/utils/utils.cpp
+++ b/src/utils/utils.cpp
@@ -64,6 +64,25 @@ std::map<std::string, double> utils::collectDateTimeFragment(std::smatch match,
     }
 
     std::string element{match[2].str()};
+    if(num == 0.5) {
+        // boost only counts whole units, so give half a unit in the next smaller one
+        std::string unit{utils::toLowerCase(element)};
+        if(unit.find("hour") == 0)
+            fragments["minute"] = 30;
+        else if(unit.find("min") == 0)
+            fragments["second"] = 30;
+        else if(unit.find("sec") == 0)
+            fragments["second"] = 1;
+        else if(unit.find("week") == 0)
+            fragments["day"] = 3;
+        else if(unit.find("day") == 0)
+            fragments["hour"] = 12;
+        else if(unit.find("month") == 0)
+            fragments["day"] = 15;
+        else if(unit.find("year") == 0)
+            fragments["month"] = 6;
+        return fragments;
+    }
     if(std::regex_search(element, std::regex("hour", std::regex::icase)))
         fragments["hour"] = num;
     else if(std::regex_search(element, std::regex("min", std::regex::icase)))
-- 
2.43.0


From 899b569636c4602842618553bc4b96468b03120e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:52:18 +0000
Subject: [PATCH 34/43] fix: a phrase outside the calendar or integer range
 aborted the whole scan

---
 src/parsers/parsers.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/parsers/parsers.cpp b/src/parsers/parsers.cpp
index a4056df..96d2c20 100644
--- a/src/parsers/parsers.cpp
+++ b/src/parsers/parsers.cpp
@@ -42,7 +42,12 @@ Result Parser::execute(std::string& text, posix_time::ptime& ref) {
         idx = match.position(0) + text.length() - remainingText.length();
 
         parse::ParsedResult res{};
-        res = extract(remainingText, match, ref, idx);
+        try {
+            res = extract(remainingText, match, ref, idx);
+        } // the phrase names no date that can be represented
+        catch (std::logic_error& err) {
+            std::cerr << err.what() << std::endl;
+        }
 
         if(/*!strictMode or */res.hasPossibleDates()) {
             results.push_back(res);
-- 
2.43.0


From f71c3bdb8da3635e9551d24735eda5ec8ee47ebe Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:52:18 +0000
Subject: [PATCH 35/43] fix: impossible dates and times were reported as
 results

---
 src/result.cpp | 40 ++++++++--------------------------------
 1 file changed, 8 insertions(+), 32 deletions(-)

diff --git a/src/result.cpp b/src/result.cpp
index 4af9c15..491e865 100644
--- a/src/result.cpp
+++ b/src/result.cpp
@@ -289,36 +289,13 @@ bool ParsedComponents::isCertain(std::string comp) {
 }
 
 bool ParsedComponents::isPossibleDate() {
-    // needs implementation
-    // std::time_t tmp = std::time(nullptr);
-    std::tm tmp, tmp1; // = std::gmtime(&tmp);
-
-    tmp1.tm_year = getYear();
-    tmp1.tm_mon  = getMonth()-1;
-    tmp1.tm_mday = get_mDay();
-    tmp1.tm_hour = getHour();
-    tmp1.tm_min  = getMinute();
-    tmp1.tm_sec  = getSeconds();
-
-    posix_time::ptime tmp2 = posix_time::ptime_from_tm(tmp1);
-    tmp = posix_time::to_tm(tmp2);
-
-    if(tmp.tm_year != getYear())    return false;
-    if(tmp.tm_mon  != getMonth()-1) return false;
-    if(tmp.tm_mday != get_mDay())   return false;
-    if(tmp.tm_wday != get_wDay())   return false;
-    if(tmp.tm_hour != getHour())    return false;
-    if(tmp.tm_min  != getMinute())  return false;
-
-    /*
-    if(knownValues["year"].first  == false and
-       knownValues["month"].first == false and
-       knownValues["mday"].first  == false and
-       knownValues["wday"].first  == false and
-       knownValues["hour"].first  == false and
-       knownValues["min"].first   == false and
-       knownValues["sec"].first   == false)
-        return false;*/
+    if(getYear() < 1400 or getYear() > 9999)  return false; // range of boost's calendar
+    if(getMonth() < 1 or getMonth() > 12)     return false;
+    if(get_mDay() < 1 or get_mDay() > gregorian::gregorian_calendar::end_of_month_day(getYear(), getMonth()))
+        return false;
+    if(getHour() < 0 or getHour() > 24)       return false;
+    if(getMinute() < 0 or getMinute() > 59)   return false;
+    if(getSeconds() < 0 or getSeconds() > 59) return false;
 
     return true;
 }
@@ -393,8 +370,7 @@ bool ParsedResult::hasPossibleDates() {
        startDate.getSeconds() == 0 and end() == false)
         return false;
 
-    //return startDate.isPossibleDate() and (!end() or endDate.isPossibleDate());
-    return true;
+    return startDate.isPossibleDate() and (!end() or endDate.isPossibleDate());
 }
 
 ParsedResult::~ParsedResult() { }
-- 
2.43.0


From 12a5cbfd229340f51d766316dc8361c7e58a6334 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:52:18 +0000
Subject: [PATCH 36/43] fix: very large counts wrapped around to a wrong date

---
 src/parsers/en/ENDeadlineFormatParser.hpp     | 10 +++----
 src/parsers/en/ENRelativeDateFormatParser.hpp | 28 +++++++++----------
 src/parsers/en/ENTimeAgoFormatParser.hpp      | 11 ++++----
 src/parsers/en/ENTimeLaterParser.hpp          | 11 ++++----
 src/parsers/en/ENWeekExperessionParser.hpp    |  4 +--
 src/utils/utils.cpp                           |  6 ++++
 src/utils/utils.hpp                           |  5 ++++
 7 files changed, 44 insertions(+), 31 deletions(-)

diff --git a/src/parsers/en/ENDeadlineFormatParser.hpp b/src/parsers/en/ENDeadlineFormatParser.hpp
index d71a263..97e8558 100644
--- a/src/parsers/en/ENDeadlineFormatParser.hpp
+++ b/src/parsers/en/ENDeadlineFormatParser.hpp
@@ -65,7 +65,7 @@
             if(std::regex_search(match.str(4), dwmy)) {
                 if(match.str(4).find("day") != std::string::npos) {
                     if(floor(num) == num) {
-                        tmpDate += gregorian::days(num);
+                        tmpDate += gregorian::days(utils::checkedCount(num, utils::MAX_DAYS));
                     }
                     else {
                         tmpTime += posix_time::hours(12);
@@ -82,7 +82,7 @@
                 }
                 else if(match.str(4).find("w") != std::string::npos) {
                     if(floor(num) == num) {
-                        tmpDate += gregorian::weeks(num);
+                        tmpDate += gregorian::weeks(utils::checkedCount(num, utils::MAX_WEEKS));
                     }
                     else {
                         tmpDate += gregorian::days(3);
@@ -90,7 +90,7 @@
                 }
                 else if(match.str(4).find("month") != std::string::npos) {
                     if(floor(num) == num) {
-                        tmpDate += gregorian::months(num);
+                        tmpDate += gregorian::months(utils::checkedCount(num, utils::MAX_MONTHS));
                     }
                     else{
                         tmpDate += gregorian::days(15);
@@ -98,7 +98,7 @@
                 }
                 else if(match.str(4).find("y") != std::string::npos) {
                     if(floor(num) == num) {
-                        tmpDate += gregorian::years(num);
+                        tmpDate += gregorian::years(utils::checkedCount(num, utils::MAX_YEARS));
                     }
                     else {
                         tmpDate += gregorian::months(6);
@@ -114,7 +114,7 @@
 
             if(!match.str(4).find("h")) {
                 if(floor(num) == num) {
-                    tmpTime += posix_time::hours(static_cast<int>(num));
+                    tmpTime += posix_time::hours(utils::checkedCount(num, utils::MAX_HOURS));
                 }
                 else {
                     tmpTime += posix_time::minutes(30);
diff --git a/src/parsers/en/ENRelativeDateFormatParser.hpp b/src/parsers/en/ENRelativeDateFormatParser.hpp
index 5b62702..bd64a10 100644
--- a/src/parsers/en/ENRelativeDateFormatParser.hpp
+++ b/src/parsers/en/ENRelativeDateFormatParser.hpp
@@ -126,10 +126,10 @@
                 if(match.str(RELATIVE_WORD_GROUP).find("day") != std::string::npos) {
                     if(std::floor(num) == num) {
                         if(!match.str(MODIFIER_WORD_GROUP).compare("next")) {
-                            tmpDate += gregorian::days(static_cast<int>(num));
+                            tmpDate += gregorian::days(utils::checkedCount(num, utils::MAX_DAYS));
                         }
                         else{
-                            tmpDate -= gregorian::days(static_cast<int>(num));
+                            tmpDate -= gregorian::days(utils::checkedCount(num, utils::MAX_DAYS));
                         }
                     }
                     else {
@@ -153,10 +153,10 @@
                 else if(match.str(RELATIVE_WORD_GROUP).find("week") != std::string::npos) {
                     if(std::floor(num) == num) {
                         if (!match.str(MODIFIER_WORD_GROUP).compare("next")) {
-                            tmpDate += gregorian::weeks(static_cast<int>(num));
+                            tmpDate += gregorian::weeks(utils::checkedCount(num, utils::MAX_WEEKS));
                         }
                         else {
-                            tmpDate -= gregorian::weeks(static_cast<int>(num));
+                            tmpDate -= gregorian::weeks(utils::checkedCount(num, utils::MAX_WEEKS));
                         }
                     }
                     else {
@@ -172,10 +172,10 @@
                 else if(match.str(RELATIVE_WORD_GROUP).find("month") != std::string::npos) {
                     if(std::floor(num) == num) {
                         if(!match.str(MODIFIER_WORD_GROUP).compare("next")) {
-                            tmpDate += gregorian::months(static_cast<int>(num));
+                            tmpDate += gregorian::months(utils::checkedCount(num, utils::MAX_MONTHS));
                         }
                         else {
-                            tmpDate -= gregorian::months(static_cast<int>(num));
+                            tmpDate -= gregorian::months(utils::checkedCount(num, utils::MAX_MONTHS));
                         }
                     }
                     else {
@@ -191,10 +191,10 @@
                 else if(match.str(RELATIVE_WORD_GROUP).find("year") != std::string::npos) {
                     if(std::floor(num) == num) {
                         if(!match.str(MODIFIER_WORD_GROUP).compare("next")) {
-                            tmpDate += gregorian::years(static_cast<int>(num));
+                            tmpDate += gregorian::years(utils::checkedCount(num, utils::MAX_YEARS));
                         }
                         else {
-                            tmpDate -= gregorian::years(static_cast<int>(num));
+                            tmpDate -= gregorian::years(utils::checkedCount(num, utils::MAX_YEARS));
                         }
                     }
                     else {
@@ -218,10 +218,10 @@
             if (match.str(RELATIVE_WORD_GROUP).find("hour") != std::string::npos) {
                 if (std::floor(num) == num) {
                     if (!match.str(MODIFIER_WORD_GROUP).compare("next")) {
-                        tmpTime += posix_time::hours(static_cast<int>(num));
+                        tmpTime += posix_time::hours(utils::checkedCount(num, utils::MAX_HOURS));
                     }
                     else {
-                        tmpTime -= posix_time::hours(static_cast<int>(num));
+                        tmpTime -= posix_time::hours(utils::checkedCount(num, utils::MAX_HOURS));
                     }
                 }
                 else {
@@ -235,10 +235,10 @@
             } else if (match.str(RELATIVE_WORD_GROUP).find("min") != std::string::npos) {
                 if(std::floor(num) == num) {
                     if (!match.str(MODIFIER_WORD_GROUP).compare("next")) {
-                        tmpTime += posix_time::minutes(static_cast<int>(num));
+                        tmpTime += posix_time::minutes(utils::checkedCount(num, std::numeric_limits<int>::max()));
                     }
                     else {
-                        tmpTime -= posix_time::minutes(static_cast<int>(num));
+                        tmpTime -= posix_time::minutes(utils::checkedCount(num, std::numeric_limits<int>::max()));
                     }
                 }
                 else {
@@ -252,10 +252,10 @@
             }
             else if(match.str(RELATIVE_WORD_GROUP).find("second") != std::string::npos) {
                 if(!match.str(MODIFIER_WORD_GROUP).compare("next")) {
-                    tmpTime += posix_time::seconds(static_cast<int>(num));
+                    tmpTime += posix_time::seconds(utils::checkedCount(num, std::numeric_limits<int>::max()));
                 }
                 else{
-                    tmpTime -= posix_time::seconds(static_cast<int>(num));
+                    tmpTime -= posix_time::seconds(utils::checkedCount(num, std::numeric_limits<int>::max()));
                 }
             }
 
diff --git a/src/parsers/en/ENTimeAgoFormatParser.hpp b/src/parsers/en/ENTimeAgoFormatParser.hpp
index 15ff643..a81e8e4 100644
--- a/src/parsers/en/ENTimeAgoFormatParser.hpp
+++ b/src/parsers/en/ENTimeAgoFormatParser.hpp
@@ -36,20 +36,21 @@
             for(const auto& a : fragments) {
                 try {
                     if(a.first == "year")
-                        date_t -= gregorian::years(static_cast<int> (a.second));
+                        date_t -= gregorian::years(utils::checkedCount(a.second, utils::MAX_YEARS));
                     else if(a.first == "month")
-                        date_t -= gregorian::months(static_cast<int> (a.second));
+                        date_t -= gregorian::months(utils::checkedCount(a.second, utils::MAX_MONTHS));
                     else if(a.first == "week")            // this did not mean a literal week but rather a weekday
-                        date_t -= gregorian::weeks(a.second);
+                        date_t -= gregorian::weeks(utils::checkedCount(a.second, utils::MAX_WEEKS));
                     else if(a.first == "day")
                         date_t -= gregorian::days(
-                                static_cast<int> (a.second)); // you sure you wanna cast these bad boys?
+                                utils::checkedCount(a.second, utils::MAX_DAYS)); // you sure you wanna cast these bad boys?
                     else if(a.first == "hour")
-                        date_t -= posix_time::hours(static_cast<int> (a.second));
+                        date_t -= posix_time::hours(utils::checkedCount(a.second, utils::MAX_HOURS));
                     else if(a.first == "minute")
                         date_t -= posix_time::minutes(static_cast<int> (a.second));
                     else if(a.first == "second")
                         date_t -= posix_time::seconds(static_cast<int> (a.second));
+                    date_t.date().year(); // throws if the calendar has been left
                 }
                 catch (std::out_of_range &e) {
                     std::cerr << e.what() << " at ENTimeAgoFormatParser" << std::endl;
diff --git a/src/parsers/en/ENTimeLaterParser.hpp b/src/parsers/en/ENTimeLaterParser.hpp
index 3ccbaaf..c2b718f 100644
--- a/src/parsers/en/ENTimeLaterParser.hpp
+++ b/src/parsers/en/ENTimeLaterParser.hpp
@@ -40,19 +40,19 @@
             // add each of the elements in fragments to the date/ptime object
             for(auto a : fragments) {
                 if(a.first == "year") {
-                    date_t += gregorian::years(static_cast<int> (a.second));
+                    date_t += gregorian::years(utils::checkedCount(a.second, utils::MAX_YEARS));
                 }
                 else if(a.first == "month") {
-                    date_t += gregorian::months(static_cast<int> (a.second));
+                    date_t += gregorian::months(utils::checkedCount(a.second, utils::MAX_MONTHS));
                 }
                 else if(a.first == "week") {            // this did not mean a literal week but rather a weekday
-                    date_t += gregorian::weeks(a.second);
+                    date_t += gregorian::weeks(utils::checkedCount(a.second, utils::MAX_WEEKS));
                 }
                 else if(a.first == "day") {
-                    date_t += gregorian::days(static_cast<int> (a.second)); // you sure you wanna cast these bad boys?
+                    date_t += gregorian::days(utils::checkedCount(a.second, utils::MAX_DAYS)); // you sure you wanna cast these bad boys?
                 }
                 else if(a.first == "hour") {
-                    date_t += posix_time::hours(static_cast<int> (a.second));
+                    date_t += posix_time::hours(utils::checkedCount(a.second, utils::MAX_HOURS));
                 }
                 else if(a.first == "minute") {
                     date_t += posix_time::minutes(static_cast<int> (a.second));
@@ -60,6 +60,7 @@
                 else if(a.first == "second") {
                     date_t += posix_time::seconds(static_cast<int> (a.second));
                 }
+                date_t.date().year(); // throws if the calendar has been left
             }
 
             gregorian::date date{date_t.date()};
diff --git a/src/parsers/en/ENWeekExperessionParser.hpp b/src/parsers/en/ENWeekExperessionParser.hpp
index 3cd19be..e63e540 100644
--- a/src/parsers/en/ENWeekExperessionParser.hpp
+++ b/src/parsers/en/ENWeekExperessionParser.hpp
@@ -36,10 +36,10 @@
                 numberOfWeeks = utils::INTEGER_WORDS[match.str(4)];
             }
             if(match.str(2).find("last") != std::string::npos) {
-                tmp -= gregorian::weeks(numberOfWeeks);
+                tmp -= gregorian::weeks(utils::checkedCount(numberOfWeeks, utils::MAX_WEEKS));
             }
             else if(match.str(2).find("next") != std::string::npos) {
-                tmp += gregorian::weeks(numberOfWeeks);
+                tmp += gregorian::weeks(utils::checkedCount(numberOfWeeks, utils::MAX_WEEKS));
             }
 
             result.startDate.implyComponent("year", tmp.year());
diff --git a/src/utils/utils.cpp b/src/utils/utils.cpp
index f620e56..85354db 100644
--- a/src/utils/utils.cpp
+++ b/src/utils/utils.cpp
@@ -11,6 +11,12 @@ std::string utils::toUpperCase(std::string text) {
     return text;
 }
 
+int utils::checkedCount(double count, int limit) {
+    if(count > limit)
+        throw std::out_of_range("count is too large");
+    return static_cast<int>(count);
+}
+
 unsigned utils::argToOrdinalValue(const std::string &arg) {
     std::string value{std::regex_replace(arg, std::regex("-"), " ")};
     value = std::regex_replace(value, std::regex("^ +| +$|( ) +"), "$1");
diff --git a/src/utils/utils.hpp b/src/utils/utils.hpp
index 07b3a85..977506f 100644
--- a/src/utils/utils.hpp
+++ b/src/utils/utils.hpp
@@ -179,6 +179,11 @@ namespace utils {
         return retVal;
     }(ORDINAL_WORDS);
 
+    // boost narrows or wraps larger counts without complaint
+    enum CountLimit { MAX_YEARS = 2730, MAX_MONTHS = 32767, MAX_WEEKS = 285000, MAX_DAYS = 2000000, MAX_HOURS = 48000000 };
+
+    int checkedCount(double, int);
+
     std::string toLowerCase(std::string);
     std::string toUpperCase(std::string);
 
-- 
2.43.0


From 87ae1eb3c37a05976274b23a473805dcefbb2191 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:54:53 +0000
Subject: [PATCH 37/43] fix: nearest year of February 28 was off by a day next
 to leap years

---
 src/parsers/en/ENMonthNameMiddleEndianParser.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/parsers/en/ENMonthNameMiddleEndianParser.hpp b/src/parsers/en/ENMonthNameMiddleEndianParser.hpp
index ad8e3d2..dc85de3 100644
--- a/src/parsers/en/ENMonthNameMiddleEndianParser.hpp
+++ b/src/parsers/en/ENMonthNameMiddleEndianParser.hpp
@@ -118,8 +118,11 @@
             }
             else {
                 gregorian::date dRef{ref.date().year(), month, day};
-                gregorian::date prevY{dRef - gregorian::years(1)},
-                        nextY{dRef + gregorian::years(1)};
+                // boost would move the last day of February along with the leap year
+                typedef gregorian::gregorian_calendar calendar;
+                short unsigned prev = dRef.year() - 1, next = dRef.year() + 1;
+                gregorian::date prevY{prev, month, std::min(day, calendar::end_of_month_day(prev, month))},
+                        nextY{next, month, std::min(day, calendar::end_of_month_day(next, month))};
 
                 if(std::abs((nextY - ref.date()).days()) < std::abs((dRef - ref.date()).days())) {
                     // compare the durations returned
-- 
2.43.0


From b4147d8ee48a7e1e317245e83d8c1ced7de23c20 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:10:28 +0000
Subject: [PATCH 38/43] fix: recognise new year's with any blanks between its
 words

---
 src/parsers/en/ENUSHolidaysParser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/en/ENUSHolidaysParser.hpp b/src/parsers/en/ENUSHolidaysParser.hpp
index 0decf23..d970ae1 100644
--- a/src/parsers/en/ENUSHolidaysParser.hpp
+++ b/src/parsers/en/ENUSHolidaysParser.hpp
@@ -33,7 +33,7 @@
                 result.startDate.setMonth(7);
                 result.startDate.set_mDay(4);
             }
-            else if(text.find("new year") != std::string::npos) {
+            else if(text.find("year") != std::string::npos) {
                 result.startDate.setYear(ref.date().year());
                 result.startDate.setMonth(1);
                 result.startDate.set_mDay(1);
-- 
2.43.0


From cd873a9d64894b56cdddfae037af9d97e8cf86d4 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:10:28 +0000
Subject: [PATCH 39/43] fix: recognise Martin Luther King day with any blanks
 between its words

---
 src/parsers/en/ENUSHolidaysParser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/en/ENUSHolidaysParser.hpp b/src/parsers/en/ENUSHolidaysParser.hpp
index d970ae1..657dcd2 100644
--- a/src/parsers/en/ENUSHolidaysParser.hpp
+++ b/src/parsers/en/ENUSHolidaysParser.hpp
@@ -60,7 +60,7 @@
                 }
             }
             else if(text.find("mlk") != std::string::npos or
-                       text.find(utils::toLowerCase("Martin Luther King")) != std::string::npos) {
+                       text.find("martin") != std::string::npos) {
                 //MLK day is the third Monday in Jan
                 utils::ndow thirdMondayOfJan(utils::ndow::third, gregorian::Monday, gregorian::Jan);
                 day = thirdMondayOfJan.get_date(ref.date().year());
-- 
2.43.0


From 933ff73c253fb342fa79cd4f58077454485caec9 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:03:50 +0000
Subject: [PATCH 40/43] fix: last/next weekday within a week of either end of
 the calendar

---
 src/parsers/en/ENDayOfTheWeekParser.hpp | 23 +++--------------------
 1 file changed, 3 insertions(+), 20 deletions(-)

diff --git a/src/parsers/en/ENDayOfTheWeekParser.hpp b/src/parsers/en/ENDayOfTheWeekParser.hpp
index 06e3888..33ca0f5 100644
--- a/src/parsers/en/ENDayOfTheWeekParser.hpp
+++ b/src/parsers/en/ENDayOfTheWeekParser.hpp
@@ -41,29 +41,12 @@
             gregorian::first_day_of_the_week_after fdaf{offset};
 
             if(!modifier.compare("last") or !modifier.compare("past")) {
-                gregorian::date tmp = start - gregorian::weeks(1);
-                if(offset < start.day_of_week().as_number()) {
-                    resOffset = fdbf.get_date(tmp);
-                }
-                else if(offset > start.day_of_week().as_number()) {
-                    resOffset = fdaf.get_date(tmp);
-                }
-                else {
-                    resOffset = tmp;
-                }
+                // one step, so that a week partly outside of the calendar is no obstacle
+                resOffset = start + gregorian::days(offset - start.day_of_week().as_number() - 7);
                 start_fixed = true;
             }
             else if(!modifier.compare("next")) {
-                gregorian::date tmp = start + gregorian::weeks(1);
-                if(offset < start.day_of_week().as_number()) {
-                    resOffset = fdbf.get_date(tmp);
-                }
-                else if(offset > start.day_of_week().as_number()) {
-                    resOffset = fdaf.get_date(tmp);
-                }
-                else {
-                    resOffset = tmp;
-                }
+                resOffset = start + gregorian::days(offset - start.day_of_week().as_number() + 7);
                 start_fixed = true;
 
             }
-- 
2.43.0


From e6ef3d3bd4214e9bae71831d735c89a8027d2130 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 03:02:33 +0000
Subject: [PATCH 41/43] fix: merging a time range that ends after midnight of
 the calendar's last day threw

---
 src/refiners/en/ENMergeDateAndTimeRefiner.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/refiners/en/ENMergeDateAndTimeRefiner.hpp b/src/refiners/en/ENMergeDateAndTimeRefiner.hpp
index c748381..62a8466 100644
--- a/src/refiners/en/ENMergeDateAndTimeRefiner.hpp
+++ b/src/refiners/en/ENMergeDateAndTimeRefiner.hpp
@@ -72,10 +72,14 @@ public:
 
             endDateTime = mergeDateTimeComponent(endDate, endTime);
 
+            bool endExists{true};
             if(!dateResult.end() and endDateTime.date() < startDateTime.date()) {
                 // Ex. 9pm - 1am
                 gregorian::date next(endDateTime.getYear(), endDateTime.getMonth(), endDateTime.get_mDay());
-                next += gregorian::days(1);
+                if(next == gregorian::date(gregorian::max_date_time))
+                    endExists = false; // no day follows the last one of the calendar
+                else
+                    next += gregorian::days(1);
 
                 if(endDateTime.isCertain("mday")) {
                     endDateTime.set_mDay(next.day());
@@ -88,8 +92,10 @@ public:
                     endDateTime.implyComponent("year", next.year());
                 }
             }
-            dateResult.endDate = endDateTime;
-            dateResult.makeEndDateValid();
+            if(endExists) {
+                dateResult.endDate = endDateTime;
+                dateResult.makeEndDateValid();
+            }
         }
 
         dateResult.startDate = startDateTime;
-- 
2.43.0


From 19b8bdf28644a60646bacd524c71f46c88d67d5c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 03:02:33 +0000
Subject: [PATCH 42/43] fix: command line tool: a date moved past the ends of
 the calendar aborted the program

---
 time.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/time.cpp b/time.cpp
index 9e578a0..e9dd800 100644
--- a/time.cpp
+++ b/time.cpp
@@ -87,10 +87,19 @@ int main(int argc, char* argv[]) {
         results = refiner->refine(results, str);
     }
 
-    if(results.empty())
+    string date;
+    try {
+        if(!results.empty())
+            date = results.at(0).toDate();
+    }
+    catch(const std::out_of_range&) {
+        // a midnight or a timezone may move the date past the ends of the calendar
+    }
+
+    if(date.empty())
         cout << "[???] -- Invalid date" << endl;
     else
-        cout << "Date:\t"  << results.at(0).toDate() << endl;
+        cout << "Date:\t"  << date << endl;
 
     return 0;
 }
\ No newline at end of file
-- 
2.43.0


From 06bbcd1f9621010f5063f6eb559a1bfa019f7c43 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 08:55:55 +0000
Subject: [PATCH 43/43] fix: match the five-letter timezone abbreviations of
 the table

---
 src/refiners/ExtractTimeZoneAbbreviation.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/refiners/ExtractTimeZoneAbbreviation.hpp b/src/refiners/ExtractTimeZoneAbbreviation.hpp
index 787b00a..432424e 100644
--- a/src/refiners/ExtractTimeZoneAbbreviation.hpp
+++ b/src/refiners/ExtractTimeZoneAbbreviation.hpp
@@ -3,7 +3,7 @@
 
 #include "refiner.hpp"
 
-#define TIMEZONE_NAME_PATTERN "^\\s*\\(?([A-Z]{2,4})\\)?(?=\\W|$)"
+#define TIMEZONE_NAME_PATTERN "^\\s*\\(?([A-Z]{2,5})\\)?(?=\\W|$)"
 
 class ExtractTimeZoneAbbreviation : public refiners::Refiner {
 public:
-- 
2.43.0

