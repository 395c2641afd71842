From cad322a967aa83088158b78ab2eb0857c18d6e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:32 +0000
Subject: [PATCH 1/8] fix: $ no longer reads or consumes the byte after the
 query

At the end of the query the anchor dereferenced query.end() and, if a newline
happened to follow in memory, moved the match end outside the query.
---
 src/terminals/anchors/end.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/terminals/anchors/end.hpp b/src/terminals/anchors/end.hpp
index 4bfe158..0357fcf 100644
--- a/src/terminals/anchors/end.hpp
+++ b/src/terminals/anchors/end.hpp
@@ -34,7 +34,7 @@ namespace e_regex::terminals::anchors
                     = (result.actual_iterator_end == result.query.end())
                       || *result.actual_iterator_end == '\n';
 
-                if (*result.actual_iterator_end == '\n')
+                if (result && result.actual_iterator_end != result.query.end())
                 {
                     result.actual_iterator_end++;
                 }
-- 
2.43.0


From c0be1acec567b391a172c480bc4cfee37e3ac1d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:32 +0000
Subject: [PATCH 2/8] fix: multi-character literals stop at the end of the
 query

Only the first character was checked against query.end(): \x{4141}, \o{...}
and optimised literals read, and could match, bytes behind the query.
---
 src/terminals/exact_matcher.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/terminals/exact_matcher.hpp b/src/terminals/exact_matcher.hpp
index f9ec4e4..6a41a63 100644
--- a/src/terminals/exact_matcher.hpp
+++ b/src/terminals/exact_matcher.hpp
@@ -35,7 +35,8 @@ namespace e_regex::terminals
                 for (const auto c:
                      pack_string<identifier, identifiers...>::string.to_view())
                 {
-                    if (c != *result.actual_iterator_end)
+                    if (result.actual_iterator_end == result.query.end()
+                        || c != *result.actual_iterator_end)
                     {
                         result.actual_iterator_end = start;
                         result.accepted            = false;
-- 
2.43.0


From b0ec4472b4dcffa081d6673694cb1c1c47d00126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:32 +0000
Subject: [PATCH 3/8] fix: \s consumes a character only if it matches

A failing \s left the position one character further, so [^\s] consumed two
and could end behind the query.
---
 src/terminals/space_characters.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/terminals/space_characters.hpp b/src/terminals/space_characters.hpp
index 4ed983e..7b8ffbb 100644
--- a/src/terminals/space_characters.hpp
+++ b/src/terminals/space_characters.hpp
@@ -29,7 +29,10 @@ namespace e_regex::terminals
                                    *result.actual_iterator_end)
                          != matched.end();
 
-                result.actual_iterator_end++;
+                if (result)
+                {
+                    result.actual_iterator_end++;
+                }
 
                 return result;
             }
-- 
2.43.0


From a039ef0ec625fb68fcb9c86fe2c11f73b56492ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:34 +0000
Subject: [PATCH 4/8] fix: an optional terminal that did not match is not taken
 back

The position was moved back by the size of the optional terminal even if it
had consumed nothing (or if what follows had moved it), so a match could be
retried before its own beginning and even before the query.
---
 src/nodes/greedy.hpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/nodes/greedy.hpp b/src/nodes/greedy.hpp
index 3dcb5f3..ee4f932 100644
--- a/src/nodes/greedy.hpp
+++ b/src/nodes/greedy.hpp
@@ -150,18 +150,19 @@ namespace e_regex::nodes
                                           == matcher::meta.maximum_match_size)
                 {
                     // Optional node with a terminal matcher
-                    matcher::match(result);
+                    const auto begin = result.actual_iterator_end;
 
-                    if (!backtrack<injected_children...>(result)
-                        && result.actual_iterator_end
-                               > result.actual_iterator_start)
+                    if (matcher::match(result)
+                        && backtrack<injected_children...>(result))
                     {
-                        result.actual_iterator_end
-                            -= matcher::meta.minimum_match_size;
-                        backtrack<injected_children...>(result);
+                        return result;
                     }
 
-                    return result;
+                    // Go on without the optional terminal
+                    result.actual_iterator_end = begin;
+                    result                     = true;
+
+                    return backtrack<injected_children...>(result);
                 }
                 else
                 {
-- 
2.43.0


From 1dd623359ffb80bd8f9f3e0f72b2d4aa32ec5491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:34 +0000
Subject: [PATCH 5/8] fix: repetitions of something empty end

(?:a*)* and the like repeated an empty match 2^32 times. A repetition that
consumes nothing is the last one now.
---
 src/nodes/greedy.hpp     | 8 ++++++++
 src/nodes/lazy.hpp       | 8 ++++++++
 src/nodes/possessive.hpp | 6 ++++++
 3 files changed, 22 insertions(+)

diff --git a/src/nodes/greedy.hpp b/src/nodes/greedy.hpp
index ee4f932..076b0ca 100644
--- a/src/nodes/greedy.hpp
+++ b/src/nodes/greedy.hpp
@@ -185,6 +185,8 @@ namespace e_regex::nodes
 
                     while (repetitions < repetitions_max)
                     {
+                        const auto last = result.actual_iterator_end;
+
                         if (!matcher::match(result))
                         {
                             // Restore last good match
@@ -192,6 +194,12 @@ namespace e_regex::nodes
                             break;
                         }
 
+                        if (result.actual_iterator_end == last)
+                        {
+                            // Nothing consumed, it would never end
+                            break;
+                        }
+
                         repetitions++;
                     }
 
diff --git a/src/nodes/lazy.hpp b/src/nodes/lazy.hpp
index aa309a2..abb726c 100644
--- a/src/nodes/lazy.hpp
+++ b/src/nodes/lazy.hpp
@@ -150,9 +150,17 @@ namespace e_regex::nodes
 
                         if (!result)
                         {
+                            const auto last = result.actual_iterator_end;
+
                             matcher::match(result);
                             matches++;
 
+                            if (result.actual_iterator_end == last)
+                            {
+                                // Nothing consumed, it would never end
+                                result = false;
+                            }
+
                             if (!result)
                             {
                                 result.actual_iterator_end = start;
diff --git a/src/nodes/possessive.hpp b/src/nodes/possessive.hpp
index a625909..dc8deca 100644
--- a/src/nodes/possessive.hpp
+++ b/src/nodes/possessive.hpp
@@ -119,6 +119,12 @@ namespace e_regex::nodes
                         break;
                     }
 
+                    if (result.actual_iterator_end == end)
+                    {
+                        // Nothing consumed, it would never end
+                        break;
+                    }
+
 		  end = result.actual_iterator_end;
                 }
 
-- 
2.43.0


From 38df2d7f447771af2c4ce813def9ffc34cceae43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:34 +0000
Subject: [PATCH 6/8] fix: next() never repeats an empty match nor skips
 positions

After an empty match the iteration found the same one forever. After a failed
attempt the next one began where the attempt had given up instead of one
character further, and captures of failed attempts survived.
---
 src/match_result.hpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/match_result.hpp b/src/match_result.hpp
index fe5e0ba..7f566e7 100644
--- a/src/match_result.hpp
+++ b/src/match_result.hpp
@@ -57,6 +57,7 @@ namespace e_regex
                 data = matcher::match(data);
                 if (!data)
                 {
+                    data.actual_iterator_end = data.actual_iterator_start;
                     next();
                 }
             }
@@ -176,11 +177,20 @@ namespace e_regex
              */
             constexpr __attribute__((always_inline)) auto next() noexcept
             {
-                data.match_groups = {};
+                if (data.accepted
+                    && data.actual_iterator_end == data.actual_iterator_start
+                    && data.actual_iterator_end < data.query.end())
+                {
+                    // Do not find the same empty match again
+                    ++data.actual_iterator_end;
+                }
+
                 data.actual_iterator_start = data.actual_iterator_end;
 
                 while (data.actual_iterator_start < data.query.end())
                 {
+                    data.match_groups = {};
+                    data.accepted     = true;
                     matcher::match(data);
 
                     if (data.accepted)
@@ -188,11 +198,11 @@ namespace e_regex
                         return true;
                     }
 
-                    data.actual_iterator_start
-                        = ++data.actual_iterator_end;
+                    data.actual_iterator_end = ++data.actual_iterator_start;
                 }
 
-                data.accepted = false;
+                data.match_groups = {};
+                data.accepted     = false;
                 return false;
             }
     };
-- 
2.43.0


From f589c1ee4cbf57c3ce1a42209bd984fe525ee18b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:34 +0000
Subject: [PATCH 7/8] fix: anchor tokens and separators that are alternations

Only the first alternative of a token such as "a|b" was anchored, so the
others were found further on, leaving a gap.
---
 src/tokenization/iterator.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tokenization/iterator.hpp b/src/tokenization/iterator.hpp
index fb16900..e75d549 100644
--- a/src/tokenization/iterator.hpp
+++ b/src/tokenization/iterator.hpp
@@ -40,7 +40,7 @@ namespace e_regex::tokenization
                         token.type,
                         // Adding ^ to alway match the beginning of
                         // current
-                        e_regex::regex<static_string {"^"} + token.matcher> {}}),
+                        e_regex::regex<static_string {"^(?:"} + token.matcher + ")"> {}}),
                     rec::tokens);
                 static constexpr auto separators = rec::separators;
         };
@@ -53,7 +53,7 @@ namespace e_regex::tokenization
                 static constexpr auto tokens     = rec::tokens;
                 static constexpr auto separators = std::tuple_cat(
                     std::make_tuple(
-                        e_regex::regex<static_string {"^"} + token.matcher> {}),
+                        e_regex::regex<static_string {"^(?:"} + token.matcher + ")"> {}),
                     rec::separators);
         };
 
-- 
2.43.0


From 72a09b2dbb53ef52b20eaeb754e1fc3702cfcd7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:59 +0000
Subject: [PATCH 8/8] fix: captures that take no part can be read in constant
 expressions

With GCC 13 the elements of an array assigned from {} in a constant expression
have no value: get_group() of a group that takes no part, or of a failed match,
did not compile in a constant expression although it works at run time.
---
 src/match_result.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/match_result.hpp b/src/match_result.hpp
index 7f566e7..19c05bf 100644
--- a/src/match_result.hpp
+++ b/src/match_result.hpp
@@ -15,8 +15,7 @@ namespace e_regex
             literal_string_view<Char_Type> query;
             typename literal_string_view<Char_Type>::iterator actual_iterator_start;
             typename literal_string_view<Char_Type>::iterator actual_iterator_end;
-            std::array<literal_string_view<Char_Type>, groups> match_groups
-                = {};
+            std::array<literal_string_view<Char_Type>, groups> match_groups;
             bool accepted = true;
 
             constexpr auto __attribute__((always_inline))
@@ -189,7 +188,7 @@ namespace e_regex
 
                 while (data.actual_iterator_start < data.query.end())
                 {
-                    data.match_groups = {};
+                    data.match_groups.fill({});
                     data.accepted     = true;
                     matcher::match(data);
 
@@ -201,7 +200,7 @@ namespace e_regex
                     data.actual_iterator_end = ++data.actual_iterator_start;
                 }
 
-                data.match_groups = {};
+                data.match_groups.fill({});
                 data.accepted     = false;
                 return false;
             }
-- 
2.43.0

