From de59f00567463722c822e67183fac7df6b74ec82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:23 +0000
Subject: [PATCH 001/162] fix: array_tree move constructor leaves the source
 without its nil node

---
 include/neolib/core/array_tree.hpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/include/neolib/core/array_tree.hpp b/include/neolib/core/array_tree.hpp
index aabab03..e2bd233 100644
--- a/include/neolib/core/array_tree.hpp
+++ b/include/neolib/core/array_tree.hpp
@@ -237,11 +237,7 @@ namespace neolib
             set_root_node(iNil);
         }
         array_tree(array_tree&& other) :
-            iAllocator{ std::move(other.iAllocator) },
-            iRoot{ nullptr },
-            iFront{ nullptr },
-            iBack{ nullptr },
-            iNil{ nullptr }
+            array_tree{ std::move(other.iAllocator) }
         {
             std::swap(iRoot, other.iRoot);
             std::swap(iFront, other.iFront);
-- 
2.43.0


From 006db791b895f2b95c99c9c909ca296c87b3aff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:00 +0000
Subject: [PATCH 002/162] fix: segmented_array insert overflows the next
 segment when the tail does not fit in it

---
 include/neolib/core/segmented_array.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/neolib/core/segmented_array.hpp b/include/neolib/core/segmented_array.hpp
index 1e28731..476e2e1 100644
--- a/include/neolib/core/segmented_array.hpp
+++ b/include/neolib/core/segmented_array.hpp
@@ -733,8 +733,8 @@ namespace neolib
             if (aCount == 0)
                 return aPosition.iNode;
             node* lastNode = nullptr;
-            if (aCount > 0 && aPosition.iNode && aPosition.iNode->next() != nullptr && aCount <= 
-                available(static_cast<node*>(aPosition.iNode->next())->segment()))
+            if (aCount > 0 && aPosition.iNode && aPosition.iNode->next() != nullptr && 
+                std::max(aCount, aPosition.iNode->segment().size() - aPosition.iSegmentPosition) <= available(static_cast<node*>(aPosition.iNode->next())->segment()))
             {
                 lastNode = static_cast<node*>(aPosition.iNode->next());
                 aCount -= std::min(aCount, available(lastNode->segment()));
-- 
2.43.0


From 9889aab2d3223de04b93ad02c2f237d79f263629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:00 +0000
Subject: [PATCH 003/162] fix: segmented_array insert of a value that is one of
 its own elements

---
 include/neolib/core/segmented_array.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/neolib/core/segmented_array.hpp b/include/neolib/core/segmented_array.hpp
index 476e2e1..b9ca138 100644
--- a/include/neolib/core/segmented_array.hpp
+++ b/include/neolib/core/segmented_array.hpp
@@ -521,9 +521,10 @@ namespace neolib
         iterator insert(const_iterator aPosition, size_type aCount, const value_type& aValue)
         {
             auto pos = aPosition.iContainerPosition;
+            const value_type value{ aValue }; // aValue may be one of our own elements
             while (aCount > 0)
             {
-                aPosition = insert(aPosition, &aValue, &aValue+1);
+                aPosition = insert(aPosition, &value, &value+1);
                 ++aPosition;
                 --aCount;
             }
-- 
2.43.0


From 6cf904621ffda60e55b4a3a2be05109bff6fca66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:18 +0000
Subject: [PATCH 004/162] fix: gap_vector iterator arithmetic, distance and
 end() around the gap

---
 include/neolib/core/gap_vector.hpp | 47 +++++++-----------------------
 1 file changed, 11 insertions(+), 36 deletions(-)

diff --git a/include/neolib/core/gap_vector.hpp b/include/neolib/core/gap_vector.hpp
index 396d8bb..435477a 100644
--- a/include/neolib/core/gap_vector.hpp
+++ b/include/neolib/core/gap_vector.hpp
@@ -149,37 +149,14 @@ namespace neolib
             {
                 if (aDifference == 0)
                     return *this;
-                else if (aDifference < 0)
-                    return (*this -= -aDifference);
-                auto const current = iBase;
-                auto const next = current + aDifference;
-                auto const gapActive = c().gap_active();
-                auto const currentBeforeGap = (current < c().iGapStart);
-                auto const nextBeforeGap = (next < c().iGapStart);
-                auto const nextEndAtGapStart = (c().iGapEnd == c().iDataEnd && next == c().iGapStart);
-                auto const nextAfterGap = (next > c().iGapEnd);
-                if (!gapActive || nextBeforeGap || nextEndAtGapStart || (nextAfterGap && !currentBeforeGap))
-                    iBase += aDifference;
-                else
-                    iBase += (aDifference + c().gap_size());
+                iBase = c().iData + c().adjusted_index(c().unadjusted_index(iBase) + aDifference);
                 return *this;
             }
             iterator_impl& operator-=(difference_type aDifference)
             {
                 if (aDifference == 0)
                     return *this;
-                else if (aDifference < 0)
-                    return (*this += -aDifference);
-                auto const current = iBase;
-                auto const prev = current - aDifference;
-                auto const gapActive = c().gap_active();
-                auto const currentBeforeGap = (current <= c().iGapStart);
-                auto const currentAfterGap = (current >= c().iGapEnd);
-                auto const prevAfterGap = (prev >= c().iGapEnd);
-                if (!gapActive || currentBeforeGap || (currentAfterGap && prevAfterGap))
-                    iBase -= aDifference;
-                else
-                    iBase -= (aDifference + c().gap_size());
+                iBase = c().iData + c().adjusted_index(c().unadjusted_index(iBase) - aDifference);
                 return *this;
             }
             iterator_impl operator+(difference_type aDifference) const
@@ -202,15 +179,7 @@ namespace neolib
         public:
             difference_type operator-(const iterator_impl& aOther) const
             {
-                auto result = iBase - aOther.base();
-                if (c().gap_active())
-                {
-                    if (c().before_gap(aOther.base()) && c().after_gap(iBase))
-                        result -= c().gap_size();
-                    else if (c().before_gap(iBase) && c().after_gap(aOther.base()))
-                        result += c().gap_size();
-                }
-                return result;
+                return static_cast<difference_type>(c().unadjusted_index(iBase)) - static_cast<difference_type>(c().unadjusted_index(aOther.base()));
             }
         public:
             template <typename U2>
@@ -403,7 +372,7 @@ namespace neolib
         }
         constexpr const_iterator end() const noexcept
         {
-            return const_iterator{ *this, !gap_active() || iDataEnd != iGapEnd ? iDataEnd : iData == iGapStart ? iGapEnd : iGapStart };
+            return const_iterator{ *this, iDataEnd };
         }
         constexpr const_iterator cend() const noexcept
         {
@@ -411,7 +380,7 @@ namespace neolib
         }
         constexpr iterator end() noexcept
         {
-            return iterator{ *this, !gap_active() || iDataEnd != iGapEnd ? iDataEnd : iData == iGapStart ? iGapEnd : iGapStart };
+            return iterator{ *this, iDataEnd };
         }
         constexpr const_reverse_iterator rbegin() const noexcept
         {
@@ -655,6 +624,12 @@ namespace neolib
                 return pos;
             return pos + gap_size();
         }
+        constexpr size_type unadjusted_index(const_pointer aPosition) const noexcept
+        {
+            if (!after_gap(aPosition))
+                return aPosition - iData;
+            return aPosition - iData - gap_size();
+        }
         constexpr bool gap_active() const noexcept
         {
             return iGapStart != iGapEnd;
-- 
2.43.0


From eda92db61f9814c29525b5192e437dec745ddb0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:41 +0000
Subject: [PATCH 005/162] fix: gap_vector gap smaller than the insertion,
 leaked and overwritten elements when opening a gap

---
 include/neolib/core/gap_vector.hpp | 37 +++++++++++++++---------------
 1 file changed, 18 insertions(+), 19 deletions(-)

diff --git a/include/neolib/core/gap_vector.hpp b/include/neolib/core/gap_vector.hpp
index 435477a..441ffc0 100644
--- a/include/neolib/core/gap_vector.hpp
+++ b/include/neolib/core/gap_vector.hpp
@@ -667,6 +667,8 @@ namespace neolib
         }
         constexpr pointer allocate_from_gap(const_iterator aPosition, size_type aCount)
         {
+            if (aCount == 0)
+                return std::next(begin(), std::distance(cbegin(), aPosition)).base();
             if (near_gap(aPosition) && aCount <= gap_size())
             {
                 auto const posIndex = std::distance(cbegin(), aPosition);
@@ -688,29 +690,26 @@ namespace neolib
                     iGapStart += aCount;
                     return pos;
                 }
-                else if (after_gap(aPosition))
+                else if (pos != iGapEnd)
                 {
-                    if (pos != iGapEnd)
+                    auto dest = std::prev(iGapEnd, aCount);
+                    auto src = iGapEnd;
+                    do
                     {
-                        auto dest = std::prev(iGapEnd, aCount);
-                        auto src = iGapEnd;
-                        do
-                        {
-                            if (dest < iGapEnd)
-                                std::allocator_traits<allocator_type>::construct(iAlloc, dest++, std::move(*src));
-                            else
-                                *dest++ = std::move(*src);
-                            if (src >= pos - aCount)
-                                std::allocator_traits<allocator_type>::destroy(iAlloc, src);
-                            ++src;
-                        } while (src != pos);
-                    }
+                        if (dest < iGapEnd)
+                            std::allocator_traits<allocator_type>::construct(iAlloc, dest++, std::move(*src));
+                        else
+                            *dest++ = std::move(*src);
+                        if (src >= pos - aCount)
+                            std::allocator_traits<allocator_type>::destroy(iAlloc, src);
+                        ++src;
+                    } while (src != pos);
                     iGapEnd -= aCount;
                     return pos - aCount;
                 }
-                // pos should be iGapStart
+                auto const result = iGapStart;
                 iGapStart += aCount;
-                return pos;
+                return result;
             }
             else
             {
@@ -720,7 +719,7 @@ namespace neolib
                 if (room() < aCount)
                     grow(aCount);
                 auto const pos = std::next(iData, posIndex);
-                auto const initialGapSize = std::min(room(), DefaultGapSize);
+                auto const initialGapSize = std::max(aCount, std::min(room(), DefaultGapSize));
                 auto src = iDataEnd;
                 auto dest = std::next(iDataEnd, initialGapSize);
                 while (src != pos)
@@ -732,7 +731,7 @@ namespace neolib
                     else
                         *dest = std::move(*src);
                 };
-                auto const garbageCount = std::min<size_type>(aCount, iDataEnd - pos);
+                auto const garbageCount = std::min<size_type>(initialGapSize, iDataEnd - pos);
                 for (auto garbage = std::next(pos, garbageCount); garbage != pos;)
                     std::allocator_traits<allocator_type>::destroy(iAlloc, --garbage);
                 std::advance(iDataEnd, initialGapSize);
-- 
2.43.0


From 4ab37a9cda1bd9088158344ec6df204d7b2fcf87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:41 +0000
Subject: [PATCH 006/162] fix: gap_vector reserve leaks the elements it moved
 from

---
 include/neolib/core/gap_vector.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/neolib/core/gap_vector.hpp b/include/neolib/core/gap_vector.hpp
index 441ffc0..d4f88bb 100644
--- a/include/neolib/core/gap_vector.hpp
+++ b/include/neolib/core/gap_vector.hpp
@@ -440,6 +440,8 @@ namespace neolib
                 iStorageEnd = newStorage + aNewCapacity;
 
                 iDataEnd = std::uninitialized_move(existingData, existingDataEnd, iData);
+                for (auto garbage = existingData; garbage != existingDataEnd; ++garbage)
+                    std::allocator_traits<allocator_type>::destroy(iAlloc, garbage);
 
                 std::allocator_traits<allocator_type>::deallocate(iAlloc, existingData, existingCapacity);
             }
-- 
2.43.0


From 2d3a3d17a82f459e65938364cff5b8e330d7ba40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:41 +0000
Subject: [PATCH 007/162] fix: gap_vector self assignment empties the container

---
 include/neolib/core/gap_vector.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/neolib/core/gap_vector.hpp b/include/neolib/core/gap_vector.hpp
index d4f88bb..e345ee7 100644
--- a/include/neolib/core/gap_vector.hpp
+++ b/include/neolib/core/gap_vector.hpp
@@ -263,6 +263,8 @@ namespace neolib
     public:
         constexpr gap_vector& operator=(const gap_vector& other)
         {
+            if (&other == this)
+                return *this;
             assign(other.begin(), other.end());
             return *this;
         }
-- 
2.43.0


From 873bd65395fc10284bb5da813fba7fefb145378c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:13 +0000
Subject: [PATCH 008/162] fix: gap_vector range insert drops elements of a
 single-pass range

---
 include/neolib/core/gap_vector.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/neolib/core/gap_vector.hpp b/include/neolib/core/gap_vector.hpp
index e345ee7..24d1ec0 100644
--- a/include/neolib/core/gap_vector.hpp
+++ b/include/neolib/core/gap_vector.hpp
@@ -560,7 +560,8 @@ namespace neolib
             {
                 auto const nextPos = std::next(cbegin(), nextPosIndex);
                 auto const memory = allocate_from_gap(nextPos, 1);
-                std::uninitialized_copy_n(first++, 1, memory);
+                std::allocator_traits<allocator_type>::construct(iAlloc, memory, *first);
+                ++first;
             }
             return std::next(begin(), insertPosIndex);
         }
-- 
2.43.0


From 3528a7fd04abe6ffb5dfa7e093b492780b939b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:13 +0000
Subject: [PATCH 009/162] fix: gap_vector insert of a value that is one of its
 own elements

---
 include/neolib/core/gap_vector.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/neolib/core/gap_vector.hpp b/include/neolib/core/gap_vector.hpp
index 24d1ec0..1d19a5b 100644
--- a/include/neolib/core/gap_vector.hpp
+++ b/include/neolib/core/gap_vector.hpp
@@ -536,8 +536,9 @@ namespace neolib
         }
         constexpr iterator insert(const_iterator pos, value_type const& value)
         {
+            value_type copy{ value }; // value may be one of our own elements
             auto const memory = allocate_from_gap(pos, 1);
-            std::allocator_traits<allocator_type>::construct(iAlloc, memory, value);
+            std::allocator_traits<allocator_type>::construct(iAlloc, memory, std::move(copy));
             return iterator{ *this, memory };
         }
         constexpr iterator insert(const_iterator pos, value_type&& value)
@@ -548,8 +549,9 @@ namespace neolib
         }
         constexpr iterator insert(const_iterator pos, size_type count, value_type const& value)
         {
+            value_type const copy{ value }; // value may be one of our own elements
             auto const memory = allocate_from_gap(pos, count);
-            std::uninitialized_fill_n(memory, count, value);
+            std::uninitialized_fill_n(memory, count, copy);
             return iterator{ *this, memory };
         }
         template<class InputIt>
-- 
2.43.0


From ef52a92e225601621468a64580873db16e076b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:27 +0000
Subject: [PATCH 010/162] fix: replace_string with an empty search string never
 terminates

---
 include/neolib/core/string_utils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/neolib/core/string_utils.hpp b/include/neolib/core/string_utils.hpp
index 5198ddb..0af0678 100644
--- a/include/neolib/core/string_utils.hpp
+++ b/include/neolib/core/string_utils.hpp
@@ -244,7 +244,7 @@ namespace neolib
     template <typename CharT, typename Traits, typename Alloc>
     inline bool replace_string(std::basic_string<CharT, Traits, Alloc>& aString, const std::basic_string<CharT, Traits, Alloc>& aSearch, const std::basic_string<CharT, Traits, Alloc>& aReplace, string_spans* aSpans, const string_span::type* aNewSpanType)
     {
-        if (aString.empty())
+        if (aString.empty() || aSearch.empty())
             return false;
         typedef std::basic_string<CharT, Traits, Alloc> string;
         typename string::size_type pos = 0;
-- 
2.43.0


From 509ead4790180608b86781346c8296d77a0fbbf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:27 +0000
Subject: [PATCH 011/162] fix: tokens returns more than the requested maximum
 when it stops at an empty token

---
 include/neolib/core/string_utils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/neolib/core/string_utils.hpp b/include/neolib/core/string_utils.hpp
index 0af0678..49499e7 100644
--- a/include/neolib/core/string_utils.hpp
+++ b/include/neolib/core/string_utils.hpp
@@ -164,7 +164,7 @@ namespace neolib
             aTokens.push_back(value_type{ b, e });
             b = e;
         }
-        else if (b == e && last && last.value() != e && !aSkipEmptyTokens)
+        else if (b == e && last && last.value() != e && !aSkipEmptyTokens && (aMaxTokens == 0 || tokens < aMaxTokens))
             aTokens.push_back(value_type{ e, e });
         return b;
     }
-- 
2.43.0


From ab14595bdfc18a63c7c93a408b5aa054650b3905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:27 +0000
Subject: [PATCH 012/162] fix: UTF-8 sequences beyond U+10FFFF are accepted and
 corrupt the UTF-16 conversion

---
 include/neolib/core/string_utf.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/neolib/core/string_utf.hpp b/include/neolib/core/string_utf.hpp
index 1a7eaaf..566817c 100644
--- a/include/neolib/core/string_utf.hpp
+++ b/include/neolib/core/string_utf.hpp
@@ -246,7 +246,7 @@ namespace neolib
                 }
             }
             static const unicode_char_t sMaxCodePoint[] = { 0x7F, 0x7FF, 0xFFFF, 0x10FFFF };
-            if (unicodeChar <= sMaxCodePoint[aCount - 1]) // overlong sequences
+            if (unicodeChar <= sMaxCodePoint[aCount - 1] || unicodeChar > sMaxCodePoint[3]) // overlong sequences, beyond Unicode
             {
                 aCurrent = start;
                 return INVALID_CHAR32;
-- 
2.43.0


From 1876aba57b199b8df3d2d27499b496b603f3e5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:27 +0000
Subject: [PATCH 013/162] fix: check_utf8 rejects a well-formed U+FFFD

---
 include/neolib/core/string_utf.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/neolib/core/string_utf.hpp b/include/neolib/core/string_utf.hpp
index 566817c..4aeadc7 100644
--- a/include/neolib/core/string_utf.hpp
+++ b/include/neolib/core/string_utf.hpp
@@ -422,7 +422,7 @@ namespace neolib
                     uch = detail::next_utf_bits(static_cast<unicode_char_t>(nch & ~0xF8), 3, i, end);
                 else
                     uch = INVALID_CHAR32;
-                if (i == old || uch == INVALID_CHAR32)
+                if (i == old)
                     return false;
             }
         }
-- 
2.43.0


From 734eca0f1b6afa1141d76da4c6c5d280f3d2133e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:28 +0000
Subject: [PATCH 014/162] fix: wildcard_match fails to match when the last part
 of the pattern also occurs earlier, matches any text with an empty pattern
 and does not compile for strings

---
 include/neolib/core/string_utils.hpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/include/neolib/core/string_utils.hpp b/include/neolib/core/string_utils.hpp
index 49499e7..8d6d0c3 100644
--- a/include/neolib/core/string_utils.hpp
+++ b/include/neolib/core/string_utils.hpp
@@ -533,19 +533,25 @@ namespace neolib
         CharT any_string = detail::wildcard_match_any_string<CharT>();
         neolib::tokens(aPatternBegin, aPatternEnd, &any_string, &any_string + 1, substrings);
 
+        if (aPatternBegin == aPatternEnd)
+            return aTextBegin == aTextEnd;
         FwdIter previousMatch = aTextBegin;
         for (typename substrings_t::const_iterator i = substrings.begin(); i != substrings.end();)
         {
             substring_t theSubstring = *i++;
+            if (theSubstring.second == aPatternEnd)
+            {
+                // nothing follows the last substring so it has to match the end of the text
+                auto const length = theSubstring.second - theSubstring.first;
+                if (theSubstring.first == aPatternBegin ? aTextEnd - previousMatch != length : aTextEnd - previousMatch < length)
+                    return false;
+                return std::equal(aTextEnd - length, aTextEnd, theSubstring.first, detail::wildcard_compare<Traits>());
+            }
             FwdIter nextMatch = std::search(previousMatch, aTextEnd, theSubstring.first, theSubstring.second, detail::wildcard_compare<Traits>());
             if (nextMatch == aTextEnd)
                 return false;
             if (theSubstring.first == aPatternBegin && nextMatch != aTextBegin)
                 return false;
-            if (theSubstring.second == aPatternEnd && !std::equal(aTextEnd - (theSubstring.second - theSubstring.first), aTextEnd, theSubstring.first, detail::wildcard_compare<Traits>()))
-                return false;
-            if (theSubstring.second == aPatternEnd && aTextEnd - nextMatch != theSubstring.second - theSubstring.first)
-                return false;
             previousMatch = nextMatch + (theSubstring.second - theSubstring.first);
         }
         return true;
@@ -560,7 +566,7 @@ namespace neolib
     template <typename CharT, typename Traits, typename Alloc>
     inline bool wildcard_match(const std::basic_string<CharT, Traits, Alloc>& aText, const std::basic_string<CharT, Traits, Alloc>& aPattern)
     {
-        return do_wildcard_match<CharT, Traits, std::basic_string<CharT, Traits, Alloc>::const_iterator>(aText.begin(), aText.end(), aPattern.begin(), aPattern.end());
+        return do_wildcard_match<CharT, Traits, typename std::basic_string<CharT, Traits, Alloc>::const_iterator>(aText.begin(), aText.end(), aPattern.begin(), aPattern.end());
     }
 
     class string_search_fsa
-- 
2.43.0


From cd427022b693019f25a799a3dca43defe91d39c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:23 +0000
Subject: [PATCH 015/162] fix: string_search_fsa never reports a pattern that
 is the start of another one

---
 src/core/string_utils.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/core/string_utils.cpp b/src/core/string_utils.cpp
index 818186f..b543d70 100644
--- a/src/core/string_utils.cpp
+++ b/src/core/string_utils.cpp
@@ -82,9 +82,12 @@ namespace neolib
         if (aNext == aEnd)
         {
             auto wildcard = aState.match.find('*');
-            if (wildcard != aState.match.end() && wildcard->second.match.empty())
+            if (wildcard != aState.match.end())
+            {
                 for (auto const& action : wildcard->second.actions)
                     aResults.insert(std::make_tuple(&action, aStart, aEnd));
+                search(wildcard->second, aStart, aNext, aEnd, false, aResults);
+            }
             return;
         }
         auto const nonWildcardSearch = { aState.match.find(*aNext), aState.match.find('?'), aState.match.find('*') };
@@ -93,7 +96,7 @@ namespace neolib
             if (existing != aState.match.end())
             {
                 bool const wildcard = (existing->first == '*');
-                if (!wildcard && existing->second.match.empty())
+                if (!wildcard)
                     for (auto const& action : existing->second.actions)
                         aResults.insert(std::make_tuple(&action, aStart, std::next(aNext)));
                 search(existing->second, aStart == nullptr ? aNext : aStart, std::next(aNext), aEnd, false, aResults);
-- 
2.43.0


From 606c9270c4d84fe463fdd08338e25069763dff3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:23 +0000
Subject: [PATCH 016/162] fix: string_search_fsa reports a null start for a
 match found by a leading wildcard

---
 src/core/string_utils.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/string_utils.cpp b/src/core/string_utils.cpp
index b543d70..13b2ec8 100644
--- a/src/core/string_utils.cpp
+++ b/src/core/string_utils.cpp
@@ -55,7 +55,7 @@ namespace neolib
         auto const end = aText.data() + aText.size();
         results_t results;
         for (auto i = begin; i != end; ++i)
-            search(iRoot, nullptr, i, end, false, results);
+            search(iRoot, i, i, end, false, results);
         if (results.empty())
             return;
         if (aRemoveSubmatches)
@@ -99,7 +99,7 @@ namespace neolib
                 if (!wildcard)
                     for (auto const& action : existing->second.actions)
                         aResults.insert(std::make_tuple(&action, aStart, std::next(aNext)));
-                search(existing->second, aStart == nullptr ? aNext : aStart, std::next(aNext), aEnd, false, aResults);
+                search(existing->second, aStart, std::next(aNext), aEnd, false, aResults);
                 if (wildcard)
                 {
                     if (!aSearchingWildcard)
-- 
2.43.0


From 48866c305511cc14e84e6a9b526314d562333aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:39 +0000
Subject: [PATCH 017/162] fix: string_to_number discards the fraction and
 exponent of a real number

---
 include/neolib/core/string_numeric.hpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/include/neolib/core/string_numeric.hpp b/include/neolib/core/string_numeric.hpp
index 2f941cd..97c7a67 100644
--- a/include/neolib/core/string_numeric.hpp
+++ b/include/neolib/core/string_numeric.hpp
@@ -120,24 +120,31 @@ namespace neolib
     inline number_t string_to_number(const std::basic_string_view<CharT, Traits>& aStringView)
     {
         namespace qi = boost::spirit::qi;
+        auto const end = aStringView.end();
+        auto parse_integer = [&](auto const& aParser, auto& aResult)
+        {
+            auto next = aStringView.begin();
+            // the integer part of a real number isn't an integer
+            return qi::parse(next, end, aParser, aResult) && (next == end || (*next != '.' && *next != 'e' && *next != 'E'));
+        };
         {
             std::int32_t result = 0;
-            if (qi::parse(aStringView.begin(), aStringView.end(), qi::int_, result))
+            if (parse_integer(qi::int_, result))
                 return result;
         }
         {
             std::uint32_t result = 0u;
-            if (qi::parse(aStringView.begin(), aStringView.end(), qi::uint_, result))
+            if (parse_integer(qi::uint_, result))
                 return result;
         }
         {
             std::int64_t result = 0ll;
-            if (qi::parse(aStringView.begin(), aStringView.end(), qi::long_long, result))
+            if (parse_integer(qi::long_long, result))
                 return result;
         }
         {
             std::uint64_t result = 0ull;
-            if (qi::parse(aStringView.begin(), aStringView.end(), qi::ulong_long, result))
+            if (parse_integer(qi::ulong_long, result))
                 return result;
         }
         {
-- 
2.43.0


From 1b92a6921671af45609c01e5ad4719efe7a669d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:43 +0000
Subject: [PATCH 018/162] fix: JSON parser accepts mismatched or unclosed
 brackets, pops an empty stack on a stray one

---
 include/neolib/file/json.inl | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/neolib/file/json.inl b/include/neolib/file/json.inl
index 15b3593..cb95b70 100644
--- a/include/neolib/file/json.inl
+++ b/include/neolib/file/json.inl
@@ -1332,7 +1332,7 @@ namespace neolib
                     create_parse_error();
                     return false;
                 case json_detail::state::EndOfParse:
-                    if (nextInputCh != &iDocumentText.back())
+                    if (nextInputCh != &iDocumentText.back() || !iCompositeValueStack.empty())
                     {
                         create_parse_error();
                         return false;
@@ -1446,7 +1446,14 @@ namespace neolib
                         break;
                     }
                     if (nextState == json_detail::state::Close)
+                    {
+                        if (context() != (*nextInputCh == '}' ? json_type::Object : json_type::Array) || !std::holds_alternative<std::monostate>(currentElement.name))
+                        {
+                            create_parse_error();
+                            return false;
+                        }
                         iCompositeValueStack.pop_back();
+                    }
                     switch (context())
                     {
                     case json_type::Object:
-- 
2.43.0


From 50f93395b00e589a1d66f82d684718f5e11c23fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:43 +0000
Subject: [PATCH 019/162] fix: JSON parser accepts further values after the
 root value

---
 include/neolib/file/json.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/neolib/file/json.inl b/include/neolib/file/json.inl
index cb95b70..9345be1 100644
--- a/include/neolib/file/json.inl
+++ b/include/neolib/file/json.inl
@@ -1492,7 +1492,7 @@ namespace neolib
                         break;
                     default:
                         if (nextState == json_detail::state::Close)
-                            nextState = json_detail::state::Value;
+                            nextState = json_detail::state::Element;
                         break;
                     }
                     currentElement.type = element::Unknown;
-- 
2.43.0


From badb48ba504d199c9f70c23f90382c15a92b3e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:44 +0000
Subject: [PATCH 020/162] fix: a JSON document object keeps the previous
 document's root and open brackets when it is read again

---
 include/neolib/file/json.inl | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/neolib/file/json.inl b/include/neolib/file/json.inl
index 9345be1..74de670 100644
--- a/include/neolib/file/json.inl
+++ b/include/neolib/file/json.inl
@@ -1108,6 +1108,9 @@ namespace neolib
     {
         iCursor = decltype(iCursor){};
         document().clear();
+        iErrorText.clear();
+        iRoot = std::nullopt;
+        iCompositeValueStack.clear();
         iUtf16HighSurrogate = std::nullopt;
     }
 
-- 
2.43.0


From 0098880a5ce172ea41d8e039782dd1474d4a8388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:43 +0000
Subject: [PATCH 021/162] fix: JSON \u escapes leave stray text at the start of
 a string, break field names and combine distant surrogates

---
 include/neolib/file/json.inl | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/include/neolib/file/json.inl b/include/neolib/file/json.inl
index 74de670..815a505 100644
--- a/include/neolib/file/json.inl
+++ b/include/neolib/file/json.inl
@@ -1557,7 +1557,7 @@ namespace neolib
                     }
                     break;
                 case json_detail::state::Escaped:
-                    if (nextOutputCh == currentElement.start)
+                    if (nextOutputCh == currentElement.start && currentElement.auxType != element::EscapedUnicode && iUtf16HighSurrogate == std::nullopt)
                         nextOutputCh = (currentState != json_detail::state::EscapingUnicode ? nextInputCh - 1 : nextInputCh - 2);
                     if (currentState == json_detail::state::Escaping)
                     {
@@ -1594,7 +1594,6 @@ namespace neolib
                     }
                     else if (currentState == json_detail::state::EscapingUnicode)
                     {
-                        // todo throw an error if there are invalid surrogate pairs
                         if (currentElement.auxType != element::EscapedUnicode)
                         {
                             currentElement.auxType = element::EscapedUnicode;
@@ -1604,12 +1603,17 @@ namespace neolib
                         {
                             string_type s{ currentElement.auxStart, nextInputCh + 1 };
                             char16_t u16ch = static_cast<char16_t>(std::stoul(s, nullptr, 16));
+                            if (utf16::is_low_surrogate(u16ch) != (iUtf16HighSurrogate != std::nullopt) ||
+                                (utf16::is_high_surrogate(u16ch) && !(nextInputCh[1] == '\\' && nextInputCh[2] == 'u')))
+                            {
+                                create_parse_error("invalid surrogate pair");
+                                return false;
+                            }
                             if (utf16::is_high_surrogate(u16ch))
                             {
                                 iUtf16HighSurrogate = u16ch;
                                 currentElement.auxType = element::Unknown;
-                                currentElement.type = element::String;
-                                nextState = json_detail::state::String;
+                                nextState = currentElement.type == element::String ? json_detail::state::String : json_detail::state::Name;
                                 break;
                             }
                             else if (utf16::is_low_surrogate(u16ch) && iUtf16HighSurrogate != std::nullopt)
@@ -1663,7 +1667,7 @@ namespace neolib
                                 }
                             }
                             currentElement.auxType = element::Unknown;
-                            nextState = json_detail::state::String;
+                            nextState = currentElement.type == element::String ? json_detail::state::String : json_detail::state::Name;
                         }
                         else
                         {
-- 
2.43.0


From 4cbea7d9dae392b715fc4f38435997b48180c246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:43 +0000
Subject: [PATCH 022/162] fix: JSON parser accepts misplaced commas before a
 field or a closing bracket

---
 include/neolib/file/json.inl | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/neolib/file/json.inl b/include/neolib/file/json.inl
index 815a505..80dba4a 100644
--- a/include/neolib/file/json.inl
+++ b/include/neolib/file/json.inl
@@ -255,7 +255,16 @@ namespace neolib
         template <json_syntax Syntax>
         constexpr inline std::array<state, TOKEN_COUNT> object_state()
         {
-            if constexpr (Syntax != json_syntax::Functional)
+            if constexpr (Syntax == json_syntax::Standard)
+            {
+                return
+                    // state::Object
+                    std::array<state, TOKEN_COUNT>
+                    {{//TXXX  TOBJ  TCLO  TARR  TCLA  TCOL  TCOM  TQOT  TCHA  TESC  TESU  TECH  TPLU  TMIN  TDIG  THEX  TEHX  TDEC  TEXP  TAST  TFWD  TSYM  TSPA  TWSP  TZZZ
+                        SXXX, SXXX, SCLO, SXXX, SXXX, SXXX, SXXX, SNAM, SKEY, SXXX, SKEY, SKEY, SXXX, SXXX, SXXX, SKEY, SKEY, SXXX, SKEY, SXXX, SXXX, SXXX, SIGN, SIGN, SXXX
+                    }};
+            }
+            else if constexpr (Syntax != json_syntax::Functional)
             {
                 return
                     // state::Object
@@ -416,7 +425,7 @@ namespace neolib
             // state::NeedValueSeparator
             std::array<state, TOKEN_COUNT>
             {{//TXXX  TOBJ  TCLO  TARR  TCLA  TCOL  TCOM  TQOT  TCHA  TESC  TESU  TECH  TPLU  TMIN  TDIG  THEX  TEHX  TDEC  TEXP  TAST  TFWD  TSYM  TSPA  TWSP  TZZZ
-                SXXX, SXXX, SCLO, SXXX, SCLO, SXXX, SVAL, SXXX, SXXX, SXXX, SXXX, SXXX, SXXX, SXXX, SXXX, SXXX, SXXX, SXXX, SXXX, SXXX, SXXX, SXXX, SIGN, SIGN, SXXX
+                SXXX, SXXX, SCLO, SXXX, SCLO, SXXX, SNVA, SXXX, SXXX, SXXX, SXXX, SXXX, SXXX, SXXX, SXXX, SXXX, SXXX, SXXX, SXXX, SXXX, SXXX, SXXX, SIGN, SIGN, SXXX
             }},
             // state::NeedValue
             need_value_state<Syntax>(),
-- 
2.43.0


From 9aea3f7718ed1e164d4ecf19ae4da87a3875efc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:41 +0000
Subject: [PATCH 023/162] fix: JSON parser accepts a bare field name without
 its colon and a colon after a bare value, rejects a space before the colon

---
 include/neolib/file/json.inl | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/neolib/file/json.inl b/include/neolib/file/json.inl
index 80dba4a..0235371 100644
--- a/include/neolib/file/json.inl
+++ b/include/neolib/file/json.inl
@@ -1466,6 +1466,14 @@ namespace neolib
                         }
                         iCompositeValueStack.pop_back();
                     }
+                    else if constexpr (syntax == json_syntax::Standard)
+                    {
+                        if (!std::holds_alternative<std::monostate>(currentElement.name) ? *nextInputCh == ',' : *nextInputCh == ':')
+                        {
+                            create_parse_error();
+                            return false;
+                        }
+                    }
                     switch (context())
                     {
                     case json_type::Object:
@@ -1481,7 +1489,7 @@ namespace neolib
                                     nextState = json_detail::state::NeedObjectValueSeparator;
                             }
                             else
-                                nextState = json_detail::state::NeedValue;
+                                nextState = *nextInputCh != ':' ? json_detail::state::EndName : json_detail::state::NeedValue;
                         }
                         else
                         {
-- 
2.43.0


From 1c2d7f7a983feeed17146ca1a76bdca9e6f7c757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:41 +0000
Subject: [PATCH 024/162] fix: JSON parser accepts numbers with leading zeros
 and blank documents, reads an out of range real as zero

---
 include/neolib/core/string_numeric.hpp |  3 ++-
 include/neolib/file/json.inl           | 14 ++++++++++++++
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/include/neolib/core/string_numeric.hpp b/include/neolib/core/string_numeric.hpp
index 97c7a67..ceb7cbb 100644
--- a/include/neolib/core/string_numeric.hpp
+++ b/include/neolib/core/string_numeric.hpp
@@ -160,7 +160,8 @@ namespace neolib
     {
         namespace qi = boost::spirit::qi;
         double result = 0.0;
-        qi::parse(aStringView.begin(), aStringView.end(), qi::double_, result);
+        if (!qi::parse(aStringView.begin(), aStringView.end(), qi::double_, result))
+            result = std::strtod(std::string(aStringView.begin(), aStringView.end()).c_str(), nullptr);
         return result;
     }
 
diff --git a/include/neolib/file/json.inl b/include/neolib/file/json.inl
index 0235371..2cb049c 100644
--- a/include/neolib/file/json.inl
+++ b/include/neolib/file/json.inl
@@ -1349,6 +1349,11 @@ namespace neolib
                         create_parse_error();
                         return false;
                     }
+                    if (!has_root())
+                    {
+                        iErrorText = "empty document";
+                        return false;
+                    }
                     return true;
                 default:
                     if (currentState == nextState)
@@ -1396,6 +1401,15 @@ namespace neolib
                     case element::Number:
                         {
                             json_string newNumber{ currentElement.start, currentElement.start == nextOutputCh ? nextInputCh : nextOutputCh };
+                            if constexpr (syntax == json_syntax::Standard)
+                            {
+                                auto const digits = newNumber.to_std_string_view().substr(newNumber[0] == '-' ? 1 : 0);
+                                if (digits.size() > 1 && digits[0] == '0' && digits[1] >= '0' && digits[1] <= '9')
+                                {
+                                    create_parse_error("leading zero");
+                                    return false;
+                                }
+                            }
                             if (currentState == json_detail::state::NumberInt)
                             {
                                 std::visit([this, &currentElement](auto&& arg)
-- 
2.43.0


From 225968c425c1e0f8e6fca6a991a40b019aca430c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:07 +0000
Subject: [PATCH 025/162] fix: JSON writer truncates reals to six digits,
 writes integers in hexadecimal after a control character and leaves field
 names unescaped

---
 include/neolib/file/json.inl | 79 ++++++++++++++++++++----------------
 1 file changed, 45 insertions(+), 34 deletions(-)

diff --git a/include/neolib/file/json.inl b/include/neolib/file/json.inl
index 2cb049c..302c0f4 100644
--- a/include/neolib/file/json.inl
+++ b/include/neolib/file/json.inl
@@ -1742,6 +1742,41 @@ namespace neolib
         static const string_type falseString = "false";
         static const string_type nullString = "null";
         int32_t level = 0;
+        auto const write_text = [&aOutput](const json_string& aText)
+        {
+            aOutput << '\"';
+            for (auto const& ch : aText)
+                switch (ch)
+                {
+                case '\"':
+                    aOutput << "\\\"";
+                    break;
+                case '\\':
+                    aOutput << "\\\\";
+                    break;
+                case '\b':
+                    aOutput << "\\b";
+                    break;
+                case '\f':
+                    aOutput << "\\f";
+                    break;
+                case '\n':
+                    aOutput << "\\n";
+                    break;
+                case '\r':
+                    aOutput << "\\r";
+                    break;
+                case '\t':
+                    aOutput << "\\t";
+                    break;
+                default:
+                    if (static_cast<std::uint32_t>(ch) >= 32u)
+                        aOutput << ch;
+                    else
+                        aOutput << "\\u" << std::hex << std::setw(4) << std::setfill('0') << (int)ch << std::dec << std::setfill(static_cast<Elem>(' '));
+                }
+            aOutput << '\"';
+        };
         auto end = cend();
         auto indent = [&aOutput, &aIndent, &level]() 
         {
@@ -1755,7 +1790,10 @@ namespace neolib
             if (i.value().has_name())
             {
                 if (!i.value().name_is_keyword())
-                    aOutput << '\"' << i.value().name() << "\": ";
+                {
+                    write_text(i.value().name());
+                    aOutput << ": ";
+                }
                 else
                     aOutput << i.value().name() << ": ";
             }
@@ -1782,7 +1820,11 @@ namespace neolib
                     aOutput << ']';
                 break;
             case json_type::Double:
-                aOutput << std::get<json_double>(v);
+                {
+                    auto const previousPrecision = aOutput.precision(std::numeric_limits<json_double>::max_digits10);
+                    aOutput << std::get<json_double>(v);
+                    aOutput.precision(previousPrecision);
+                }
                 break;
             case json_type::Int64:
                 aOutput << std::get<json_int64>(v);
@@ -1797,38 +1839,7 @@ namespace neolib
                 aOutput << std::get<json_uint>(v);
                 break;
             case json_type::String:
-                aOutput << '\"';
-                for (auto const& ch : std::get<json_string>(v))
-                    switch (ch)
-                    {
-                    case '\"':
-                        aOutput << "\\\"";
-                        break;
-                    case '\\':
-                        aOutput << "\\\\";
-                        break;
-                    case '\b':
-                        aOutput << "\\b";
-                        break;
-                    case '\f':
-                        aOutput << "\\f";
-                        break;
-                    case '\n':
-                        aOutput << "\\n";
-                        break;
-                    case '\r':
-                        aOutput << "\\r";
-                        break;
-                    case '\t':
-                        aOutput << "\\t";
-                        break;
-                    default:
-                        if (static_cast<std::uint32_t>(ch) >= 32u)
-                            aOutput << ch;
-                        else
-                            aOutput << "\\u" << std::hex << std::setw(4) << std::setfill('0') << (int)ch;
-                    }
-                aOutput << '\"';
+                write_text(std::get<json_string>(v));
                 break;
             case json_type::Bool:
                 aOutput << (std::get<json_bool>(v) ? trueString : falseString);
-- 
2.43.0


From e096004862e7a2bdab24ae9308c36b373fb37408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:45 +0000
Subject: [PATCH 026/162] fix: JSON number text runs from its first character
 to a stale output position

---
 include/neolib/file/json.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/neolib/file/json.inl b/include/neolib/file/json.inl
index 302c0f4..5456025 100644
--- a/include/neolib/file/json.inl
+++ b/include/neolib/file/json.inl
@@ -1553,13 +1553,13 @@ namespace neolib
                     break;
                 case json_detail::state::NumberIntNeedDigit:
                     currentElement.type = element::Number;
-                    currentElement.start = nextInputCh;
+                    currentElement.start = (nextOutputCh = nextInputCh);
                     break;
                 case json_detail::state::NumberInt:
                     if (currentElement.type != element::Number)
                     {
                         currentElement.type = element::Number;
-                        currentElement.start = nextInputCh;
+                        currentElement.start = (nextOutputCh = nextInputCh);
                     }
                     break;
                 case json_detail::state::Array:
-- 
2.43.0


From 1fa188367ce395623e4d8773fa7b5a445703a8d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:07 +0000
Subject: [PATCH 027/162] fix: RJSON parser treats comment delimiters inside
 strings as comments

---
 include/neolib/file/json.inl | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/neolib/file/json.inl b/include/neolib/file/json.inl
index 5456025..c3778af 100644
--- a/include/neolib/file/json.inl
+++ b/include/neolib/file/json.inl
@@ -630,6 +630,9 @@ namespace neolib
                     else if (token == json_detail::token::EndOfInput)
                         return state::Error;
                     return state::CStyleComment;
+                case state::String:
+                case state::Name:
+                    break;
                 default:
                     if (token == json_detail::token::ForwardSlash)
                     {
-- 
2.43.0


From 144cbc7a0c9299ab06eebfb163db22ce04e9dab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:07 +0000
Subject: [PATCH 028/162] fix: RJSON parser rejects a comma that follows a
 space or a closed array or object

---
 include/neolib/file/json.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/neolib/file/json.inl b/include/neolib/file/json.inl
index c3778af..d98a992 100644
--- a/include/neolib/file/json.inl
+++ b/include/neolib/file/json.inl
@@ -348,7 +348,7 @@ namespace neolib
                     // state::Value
                     std::array<state, TOKEN_COUNT>
                     {{//TXXX  TOBJ  TCLO  TARR  TCLA  TCOL  TCOM  TQOT  TCHA  TESC  TESU  TECH  TPLU  TMIN  TDIG  THEX  TEHX  TDEC  TEXP  TAST  TFWD  TSYM  TSPA  TWSP  TZZZ
-                        SXXX, SOBJ, SCLO, SARR, SCLO, SXXX, SXXX, SSTR, SKEY, SXXX, SKEY, SKEY, SKEY, SNU1, SNU2, SKEY, SKEY, SKEY, SKEY, SKEY, SKEY, SKEY, SIGN, SIGN, SZZZ
+                        SXXX, SOBJ, SCLO, SARR, SCLO, SXXX, SIGN, SSTR, SKEY, SXXX, SKEY, SKEY, SKEY, SNU1, SNU2, SKEY, SKEY, SKEY, SKEY, SKEY, SKEY, SKEY, SIGN, SIGN, SZZZ
                     }};
             }
         }
-- 
2.43.0


From c3ee11662264bebee93075446ba4737785d5e981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:07 +0000
Subject: [PATCH 029/162] fix: RJSON parser drops or rejects a quote character
 of another kind inside a quoted string or field name

---
 include/neolib/file/json.inl | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/include/neolib/file/json.inl b/include/neolib/file/json.inl
index d98a992..81a8c0b 100644
--- a/include/neolib/file/json.inl
+++ b/include/neolib/file/json.inl
@@ -1544,6 +1544,17 @@ namespace neolib
                     currentElement.start = (nextOutputCh = nextInputCh + 1);
                     break;
                 case json_detail::state::EndName:
+                    if constexpr (syntax == json_syntax::Relaxed)
+                    {
+                        // relaxed: support for three different quote characters
+                        if (*nextInputCh != *(currentElement.start - 1))
+                        {
+                            if (currentElement.start != nextOutputCh)
+                                *nextOutputCh++ = *nextInputCh;
+                            nextState = json_detail::state::Name;
+                            break;
+                        }
+                    }
                     if (std::holds_alternative<std::monostate>(currentElement.name))
                     {
                         json_string newName
@@ -1587,7 +1598,11 @@ namespace neolib
                     {
                         // relaxed: support for three different quote characters
                         if (*nextInputCh != *(currentElement.start - 1))
+                        {
+                            if (currentElement.start != nextOutputCh)
+                                *nextOutputCh++ = *nextInputCh;
                             nextState = json_detail::state::String;
+                        }
                     }
                     break;
                 case json_detail::state::Escaped:
-- 
2.43.0


From 6dc6748c6bed2fba4bbddf79543567b894d59a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:22 +0000
Subject: [PATCH 030/162] fix: JSON object and array views keep stale or
 duplicate entries after their value is edited

---
 include/neolib/file/json.hpp | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/include/neolib/file/json.hpp b/include/neolib/file/json.hpp
index 895e832..73d007f 100644
--- a/include/neolib/file/json.hpp
+++ b/include/neolib/file/json.hpp
@@ -400,8 +400,10 @@ namespace neolib
             auto existing = cache().find(aKey);
             if (existing != cache().end())
                 return *existing->second;
+            auto dictionary = std::move(iLazyDictionary); // only gains an entry here
             auto& newChild = contents().emplace_back(value_type{});
             newChild.set_name(aKey.to_std_string());
+            iLazyDictionary = std::move(dictionary);
             cache().emplace(newChild.name(), &newChild);
             return newChild;
         }
@@ -490,13 +492,19 @@ namespace neolib
     public:
         json_value& push_back(const value_type& aValue)
         {
+            cache();
+            auto array = std::move(iLazyArray); // only gains an entry here
             auto& newChild = contents().emplace_back(aValue);
+            iLazyArray = std::move(array);
             cache().emplace_back(&newChild);
             return back();
         }
         json_value& push_back(value_type&& aValue)
         {
+            cache();
+            auto array = std::move(iLazyArray); // only gains an entry here
             auto& newChild = contents().emplace_back(std::move(aValue));
+            iLazyArray = std::move(array);
             cache().emplace_back(&newChild);
             return back();
         }
@@ -728,10 +736,14 @@ namespace neolib
         void set_name(const json_string& aName)
         {
             iName = aName;
+            if (has_parent())
+                parent().children_changed();
         }
         void set_name(const json_keyword& aName)
         {
             iName = aName;
+            if (has_parent())
+                parent().children_changed();
         }
     public:
         bool is_root() const
@@ -865,6 +877,7 @@ namespace neolib
         }
         void clear(bool aUnlink = false)
         {
+            children_changed();
             auto previous = iNode.previous_sibling();
             auto next = iNode.next_sibling();
             if (has_parent())
@@ -888,15 +901,18 @@ namespace neolib
         template <typename... Args>
         reference emplace_back(Args&&... aArguments)
         {
+            children_changed();
             return *buy_child(std::forward<Args>(aArguments)...);
         }
         template <typename T>
         void push_back(T&& aValue)
         {
+            children_changed();
             buy_child(std::forward<T>(aValue));
         }
         void pop_back()
         {
+            children_changed();
             iNode.destruct_child(last_child());
         }
     public:
@@ -914,6 +930,13 @@ namespace neolib
         {
             return iNode.buy_child(*this, std::forward<Args>(aArguments)...);
         }
+        void children_changed()
+        {
+            if (type() == json_type::Object)
+                std::get<json_object>(iValue).iLazyDictionary = nullptr;
+            else if (type() == json_type::Array)
+                std::get<json_array>(iValue).iLazyArray = nullptr;
+        }
         void update_contents()
         {
             if (type() == json_type::Object)
-- 
2.43.0


From 60531c26b4815f2b88685222cb239606795b40b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:41 +0000
Subject: [PATCH 031/162] fix: JSON parser accepts a comma or colon after a
 root value

---
 include/neolib/file/json.inl | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/neolib/file/json.inl b/include/neolib/file/json.inl
index 81a8c0b..ef0c8fc 100644
--- a/include/neolib/file/json.inl
+++ b/include/neolib/file/json.inl
@@ -1485,6 +1485,11 @@ namespace neolib
                     }
                     else if constexpr (syntax == json_syntax::Standard)
                     {
+                        if (context() == json_type::Unknown && (*nextInputCh == ',' || *nextInputCh == ':'))
+                        {
+                            create_parse_error();
+                            return false;
+                        }
                         if (!std::holds_alternative<std::monostate>(currentElement.name) ? *nextInputCh == ',' : *nextInputCh == ':')
                         {
                             create_parse_error();
-- 
2.43.0


From a2dc98f11c8fec3e19c154aa01b398774d5bce80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:09 +0000
Subject: [PATCH 032/162] fix: basic_json_value::pop_back does not compile

---
 include/neolib/file/json.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/neolib/file/json.hpp b/include/neolib/file/json.hpp
index 73d007f..5e2b574 100644
--- a/include/neolib/file/json.hpp
+++ b/include/neolib/file/json.hpp
@@ -295,6 +295,7 @@ namespace neolib
                 }
                 return &child;
             }
+        public:
             void destruct_child(json_value* aAddress)
             {
                 json_value& child = *aAddress;
-- 
2.43.0


From 92cec4023861769574a7d99f6c228fe17b8e6808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:17 +0000
Subject: [PATCH 033/162] fix: RJSON comment between two values joins them, and
 one at the end of the text loses the value

---
 include/neolib/file/json.inl | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/neolib/file/json.inl b/include/neolib/file/json.inl
index ef0c8fc..60f02c0 100644
--- a/include/neolib/file/json.inl
+++ b/include/neolib/file/json.inl
@@ -1228,7 +1228,7 @@ namespace neolib
             }
         }
 
-        if (json_detail::next_state<syntax>(json_detail::state::Value, document().back()) != json_detail::state::Ignore)
+        if (document().back() != character_type{ '\n' })
             document().push_back(character_type{ '\n' });
         document().push_back(character_type{ '\0' });
 
@@ -1247,7 +1247,6 @@ namespace neolib
         static constexpr bool usePreviousState = (Syntax == json_syntax::Relaxed || Syntax == json_syntax::Functional || json_detail::debug);
 
         json_detail::state currentState = json_detail::state::Value;
-        json_detail::state previousState = currentState;
         json_detail::state nextState;
         element currentElement = {};
 
@@ -1298,7 +1297,7 @@ namespace neolib
                     bool skippingComment = false;
                     auto tempState = currentState;
                     do {
-                        nextState = json_detail::next_state<syntax>(tempState, previousState, *nextInputCh, nextInputCh != &iDocumentText.back() ? *(nextInputCh + 1) : '\0');
+                        nextState = json_detail::next_state<syntax>(tempState, currentState, *nextInputCh, nextInputCh != &iDocumentText.back() ? *(nextInputCh + 1) : '\0');
                         skippingComment = (nextState == json_detail::state::CppStyleComment || nextState == json_detail::state::CStyleComment);
                         if (skippingComment)
                         {
-- 
2.43.0


From a51552dc0a15018d86dc9eaa1accf2327cfcfa0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:17 +0000
Subject: [PATCH 034/162] fix: RJSON parser takes an escaped slash and asterisk
 inside a string for a comment

---
 include/neolib/file/json.inl | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/neolib/file/json.inl b/include/neolib/file/json.inl
index 60f02c0..9b95ab0 100644
--- a/include/neolib/file/json.inl
+++ b/include/neolib/file/json.inl
@@ -632,6 +632,9 @@ namespace neolib
                     return state::CStyleComment;
                 case state::String:
                 case state::Name:
+                case state::Escaping:
+                case state::Escaped:
+                case state::EscapingUnicode:
                     break;
                 default:
                     if (token == json_detail::token::ForwardSlash)
-- 
2.43.0


From 95a08e7d34c2a606da82e20b5c642e32973cacaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:17 +0000
Subject: [PATCH 035/162] fix: RJSON parser takes a comment after an empty
 string for its text

---
 include/neolib/file/json.hpp | 1 +
 include/neolib/file/json.inl | 4 +++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/neolib/file/json.hpp b/include/neolib/file/json.hpp
index 5e2b574..f15e3bb 100644
--- a/include/neolib/file/json.hpp
+++ b/include/neolib/file/json.hpp
@@ -1002,6 +1002,7 @@ namespace neolib
             type_e type;
             type_e auxType;
             character_type* start;
+            character_type* end;
             character_type* auxStart;
             typename json_value::name_t name;
         };
diff --git a/include/neolib/file/json.inl b/include/neolib/file/json.inl
index 9b95ab0..dbebb2d 100644
--- a/include/neolib/file/json.inl
+++ b/include/neolib/file/json.inl
@@ -1392,7 +1392,7 @@ namespace neolib
                         break;
                     case element::String:
                         {
-                            json_string newString{ currentElement.start, currentElement.start == nextOutputCh ? nextInputCh - 1 : nextOutputCh };
+                            json_string newString{ currentElement.start, currentElement.end };
                             buy_value(currentElement, newString);
                         }
                         break;
@@ -1609,8 +1609,10 @@ namespace neolib
                             if (currentElement.start != nextOutputCh)
                                 *nextOutputCh++ = *nextInputCh;
                             nextState = json_detail::state::String;
+                            break;
                         }
                     }
+                    currentElement.end = (currentElement.start == nextOutputCh ? nextInputCh : nextOutputCh);
                     break;
                 case json_detail::state::Escaped:
                     if (nextOutputCh == currentElement.start && currentElement.auxType != element::EscapedUnicode && iUtf16HighSurrogate == std::nullopt)
-- 
2.43.0


From 045325c3d4f06978b1ac9862b218755cf8418309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:14 +0000
Subject: [PATCH 036/162] fix: XML writer drops the character that follows text
 ending in a newline

---
 include/neolib/file/xml.hpp |  1 +
 include/neolib/file/xml.inl | 10 +++++++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/neolib/file/xml.hpp b/include/neolib/file/xml.hpp
index 69a371e..ce559fd 100644
--- a/include/neolib/file/xml.hpp
+++ b/include/neolib/file/xml.hpp
@@ -506,6 +506,7 @@ namespace neolib
             template <typename T>
             node_writer& operator<<(const T& aData);
             node_writer& operator<<(const string& aData);
+            node_writer& operator<<(std::basic_ostream<CharT>& (&aManipulator)(std::basic_ostream<CharT>&));
         private:
             node_writer& operator=(const node_writer&); // undefined
         };
diff --git a/include/neolib/file/xml.inl b/include/neolib/file/xml.inl
index a7e1d36..7a087ee 100644
--- a/include/neolib/file/xml.inl
+++ b/include/neolib/file/xml.inl
@@ -423,12 +423,20 @@ namespace neolib
     template <typename CharT, typename Alloc>
         template <typename T>
     typename basic_xml<CharT, Alloc>::node_writer& basic_xml<CharT, Alloc>::node_writer::operator<<(const T& aData)
+    {
+        iStream << aData;
+        iLastWasNewLine = false;
+        return *this;
+    }
+    template <typename CharT, typename Alloc>
+    typename basic_xml<CharT, Alloc>::node_writer& basic_xml<CharT, Alloc>::node_writer::operator<<(std::basic_ostream<CharT>& (&aManipulator)(std::basic_ostream<CharT>&))
     {
         if (!iLastWasNewLine)
-            iStream << aData;
+            iStream << aManipulator;
         iLastWasNewLine = false;
         return *this;
     }
+
     template <typename CharT, typename Alloc>
     typename basic_xml<CharT, Alloc>::node_writer& basic_xml<CharT, Alloc>::node_writer::operator<<(const string& aData)
     {
-- 
2.43.0


From af6e4d4355f4bd1a151d11cc47261a3ba3523d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:14 +0000
Subject: [PATCH 037/162] fix: XML reader reads past the end of a document that
 stops inside a tag

---
 include/neolib/file/xml.inl | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/neolib/file/xml.inl b/include/neolib/file/xml.inl
index 7a087ee..5e2be16 100644
--- a/include/neolib/file/xml.inl
+++ b/include/neolib/file/xml.inl
@@ -589,7 +589,13 @@ namespace neolib
                 }
                 element& theElement = aNode.type() == node::Element ? static_cast<element&>(aNode) : root();
 
-                /* get element name */
+                if (aStartTag.second == aDocumentEnd)
+            {
+                iError = true;
+                return aDocumentEnd;
+            }
+
+            /* get element name */
                 token elementName = next_token(sNameDelimeter, false, aStartTag.first, aStartTag.second);
                 if (elementName.first == aStartTag.second)
                 {
-- 
2.43.0


From c0738b9c8c24ba9394b26f8b2f85e6ebf6cad26d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:14 +0000
Subject: [PATCH 038/162] fix: XML reader accepts an end tag without a start
 tag and a document that ends inside an element

---
 include/neolib/file/xml.inl | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/neolib/file/xml.inl b/include/neolib/file/xml.inl
index 5e2be16..041d319 100644
--- a/include/neolib/file/xml.inl
+++ b/include/neolib/file/xml.inl
@@ -597,7 +597,7 @@ namespace neolib
 
             /* get element name */
                 token elementName = next_token(sNameDelimeter, false, aStartTag.first, aStartTag.second);
-                if (elementName.first == aStartTag.second)
+                if (elementName.first == elementName.second)
                 {
                     iError = true;
                     return aDocumentEnd;
@@ -659,7 +659,7 @@ namespace neolib
                     token contentToken = next_token(sTagDelimeter, true, next, aDocumentEnd);
                     next = contentToken.second;
                     if (next == aDocumentEnd)
-                        return next;
+                        break;
                     string content(contentToken.first, contentToken.second);
                     strip_if(content);
                     bool hasContent = false;
@@ -724,6 +724,7 @@ namespace neolib
                     }
                     next = parse(theElement.back(), nextTag, aDocumentEnd);
                 }
+                iError = true; // no end tag
                 return next;
             }
             // no break required here due to return above (warning dampening)
-- 
2.43.0


From dfe14ee44ee211a72902f89e4e35b98d617e2897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:12 +0000
Subject: [PATCH 039/162] fix: XML reader turns an empty comment or CDATA
 section into text

---
 include/neolib/file/xml.inl | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/neolib/file/xml.inl b/include/neolib/file/xml.inl
index 041d319..469dc1b 100644
--- a/include/neolib/file/xml.inl
+++ b/include/neolib/file/xml.inl
@@ -575,7 +575,7 @@ namespace neolib
     template <typename CharT, typename Alloc>
     typename basic_xml<CharT, Alloc>::string::view_const_iterator basic_xml<CharT, Alloc>::parse(node& aNode, const tag& aStartTag, typename basic_xml<CharT, Alloc>::string::view_const_iterator aDocumentEnd)
     {
-        if (aStartTag.first == aDocumentEnd || aStartTag.first >= aStartTag.second)
+        if (aStartTag.first == aDocumentEnd || aStartTag.first > aStartTag.second || (aStartTag.first == aStartTag.second && aStartTag.type() == node::Element))
             return aDocumentEnd;
 
         switch(aStartTag.type())
@@ -687,7 +687,7 @@ namespace neolib
                     tag nextTag = next_tag(next, aDocumentEnd); 
                     if (nextTag.first > nextTag.second)
                         return next;
-                    if (nextTag.first == nextTag.second)
+                    if (nextTag.first == aDocumentEnd || (nextTag.first == nextTag.second && nextTag.type() == node::Element))
                     {
                         next= nextTag.first;
                         continue;
@@ -801,7 +801,7 @@ namespace neolib
         tag nextTag = next_tag(document.cbegin(), document.cend());        
         while (nextTag.first != document.cend())
         {
-            while(nextTag.first != document.cend() && nextTag.first == nextTag.second)
+            while(nextTag.first != document.cend() && nextTag.first == nextTag.second && nextTag.type() == node::Element)
                 nextTag = next_tag(nextTag.first, document.cend());
             nextTag = next_tag(parse(iDocument, nextTag, document.cend()), document.cend());
         };
-- 
2.43.0


From 612670b79e7b95de3fa04eccd61a3845c8264831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:12 +0000
Subject: [PATCH 040/162] fix: XML reader rejects white space in an end tag

---
 include/neolib/file/xml.inl | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/neolib/file/xml.inl b/include/neolib/file/xml.inl
index 469dc1b..8111eba 100644
--- a/include/neolib/file/xml.inl
+++ b/include/neolib/file/xml.inl
@@ -697,7 +697,9 @@ namespace neolib
                     case node::Element:
                         if (*nextTag.first == characters<CharT>::sForwardSlashChar)
                         {
-                            if (theElement.name() != string(nextTag.first+1, nextTag.second))
+                            token endName = next_token(sNameDelimeter, false, nextTag.first + 1, nextTag.second);
+                            token afterName = next_token(sNameDelimeter, false, endName.second, nextTag.second);
+                            if (endName.first != nextTag.first + 1 || afterName.first != nextTag.second || theElement.name() != string(endName.first, endName.second))
                             {
                                 iError = true;
                                 return aDocumentEnd;
-- 
2.43.0


From 5fcf19d54c1fa023a8dca7d8a13d5d9af8e87bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:12 +0000
Subject: [PATCH 041/162] fix: XML reader mishandles '>' in text and attribute
 values

---
 include/neolib/file/xml.inl | 32 ++++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/include/neolib/file/xml.inl b/include/neolib/file/xml.inl
index 8111eba..4a4e7da 100644
--- a/include/neolib/file/xml.inl
+++ b/include/neolib/file/xml.inl
@@ -183,9 +183,9 @@ namespace neolib
         const parsing_bits<char>::character_map parsing_bits<char>::sNameDelimeter = std::string("<>/=\"\'");
         const parsing_bits<char>::character_map parsing_bits<char>::sNameBadDelimeter = std::string("<=\"\'");
         const parsing_bits<char>::character_map parsing_bits<char>::sAttributeValueDelimeter = std::string("\"\'");
-        const parsing_bits<char>::character_map parsing_bits<char>::sAttributeValueInvalidOne = std::string("<>\"");
-        const parsing_bits<char>::character_map parsing_bits<char>::sAttributeValueInvalidTwo = std::string("<>\'");
-        const parsing_bits<char>::character_map parsing_bits<char>::sTagDelimeter = std::string("<>");
+        const parsing_bits<char>::character_map parsing_bits<char>::sAttributeValueInvalidOne = std::string("<\"");
+        const parsing_bits<char>::character_map parsing_bits<char>::sAttributeValueInvalidTwo = std::string("<\'");
+        const parsing_bits<char>::character_map parsing_bits<char>::sTagDelimeter = std::string("<");
         const parsing_bits<char>::character_map parsing_bits<char>::sWhitespace = std::string(" \t\r\n");
         const parsing_bits<char>::string parsing_bits<char>::sCommentStart = "!--";
         const parsing_bits<char>::string parsing_bits<char>::sCommentEnd = "-->";
@@ -223,9 +223,9 @@ namespace neolib
         const parsing_bits<wchar_t>::character_map parsing_bits<wchar_t>::sNameDelimeter = std::wstring(L"<>/=\"\'");
         const parsing_bits<wchar_t>::character_map parsing_bits<wchar_t>::sNameBadDelimeter = std::wstring(L"<=\"\'");
         const parsing_bits<wchar_t>::character_map parsing_bits<wchar_t>::sAttributeValueDelimeter = std::wstring(L"\"\'");
-        const parsing_bits<wchar_t>::character_map parsing_bits<wchar_t>::sAttributeValueInvalidOne = std::wstring(L"<>\"");
-        const parsing_bits<wchar_t>::character_map parsing_bits<wchar_t>::sAttributeValueInvalidTwo = std::wstring(L"<>\'");
-        const parsing_bits<wchar_t>::character_map parsing_bits<wchar_t>::sTagDelimeter = std::wstring(L"<>");
+        const parsing_bits<wchar_t>::character_map parsing_bits<wchar_t>::sAttributeValueInvalidOne = std::wstring(L"<\"");
+        const parsing_bits<wchar_t>::character_map parsing_bits<wchar_t>::sAttributeValueInvalidTwo = std::wstring(L"<\'");
+        const parsing_bits<wchar_t>::character_map parsing_bits<wchar_t>::sTagDelimeter = std::wstring(L"<");
         const parsing_bits<wchar_t>::character_map parsing_bits<wchar_t>::sWhitespace = std::wstring(L" \t\r\n");
         const parsing_bits<wchar_t>::string parsing_bits<wchar_t>::sCommentStart = L"!--";
         const parsing_bits<wchar_t>::string parsing_bits<wchar_t>::sCommentEnd = L"-->";
@@ -569,6 +569,26 @@ namespace neolib
             if (nextTag.second == aDocumentEnd)
                 nextTag.first = aDocumentEnd;
         }
+        else
+        {
+            // a tag does not end inside a quoted attribute value
+            CharT quote{};
+            for (auto i = nextTag.first; i != aDocumentEnd; ++i)
+            {
+                if (quote != CharT{})
+                {
+                    if (*i == quote)
+                        quote = CharT{};
+                }
+                else if (*i == characters<CharT>::sQuoteChar || *i == characters<CharT>::sSingleQuoteChar)
+                    quote = *i;
+                else if (*i == characters<CharT>::sElementTagEnd)
+                {
+                    nextTag.second = i;
+                    break;
+                }
+            }
+        }
         return nextTag;
     }
 
-- 
2.43.0


From 47e749c6ec1f1d42fd0b22004d8b437e57ff93ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:12 +0000
Subject: [PATCH 042/162] fix: XML character references above 127 are truncated
 to a byte, malformed ones accepted

---
 include/neolib/file/xml.inl | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/include/neolib/file/xml.inl b/include/neolib/file/xml.inl
index 4a4e7da..85e0ee1 100644
--- a/include/neolib/file/xml.inl
+++ b/include/neolib/file/xml.inl
@@ -42,6 +42,7 @@
 #include <cstdlib>
 #include <cwchar>
 #include <neolib/core/quick_string.hpp>
+#include <neolib/core/string_utf.hpp>
 
 namespace neolib
 {
@@ -995,7 +996,7 @@ namespace neolib
             if (const_cast<const string&>(newString)[pos+1] == characters<CharT>::sHashChar)
             {
                 string characterValue = newString.substr(pos+2, endPos - (pos + 2));
-                string character;
+                std::basic_string<CharT> character;
                 struct converter
                 {
                     static long string_to_integer(const typename basic_xml<char>::string& aString, int aBase)
@@ -1007,15 +1008,25 @@ namespace neolib
                         return wcstol(aString.c_str(), 0, aBase);
                     }
                 };
-                if (characterValue[0] != characters<CharT>::sHexChar)
-                    character += static_cast<CharT>(converter::string_to_integer(characterValue, 10));
-                else
-                {
+                bool const isHex = (!characterValue.empty() && characterValue[0] == characters<CharT>::sHexChar);
+                if (isHex)
                     characterValue.erase(0, 1);
-                    character += static_cast<CharT>(converter::string_to_integer(characterValue, 16));
+                bool const allDigits = !characterValue.empty() && std::all_of(characterValue.cbegin(), characterValue.cend(), [isHex](CharT ch)
+                {
+                    return (ch >= CharT('0') && ch <= CharT('9')) || (isHex && ((ch >= CharT('a') && ch <= CharT('f')) || (ch >= CharT('A') && ch <= CharT('F'))));
+                });
+                long const codePoint = (allDigits ? converter::string_to_integer(characterValue, isHex ? 16 : 10) : 0);
+                if (codePoint <= 0 || codePoint > 0x10FFFF || (codePoint >= 0xD800 && codePoint <= 0xDFFF))
+                {
+                    iError = true;
+                    return aString;
                 }
-                newString.replace(pos, (endPos - pos) + 1, character);
-                ++pos;
+                if constexpr (std::is_same_v<CharT, char>)
+                    append_utf8(character, static_cast<unicode_char_t>(codePoint));
+                else
+                    character += static_cast<CharT>(codePoint);
+                newString.replace(pos, (endPos - pos) + 1, string{ character });
+                pos += character.size();
                 replaced = true;
             }
             else
-- 
2.43.0


From 38c0226d7a5687f0a3d86fbdbe1b202ae59d3e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:02 +0000
Subject: [PATCH 043/162] fix: XML element inserted by name keeps a reference
 to the caller's buffer

---
 include/neolib/file/xml.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/neolib/file/xml.inl b/include/neolib/file/xml.inl
index 85e0ee1..d280fa1 100644
--- a/include/neolib/file/xml.inl
+++ b/include/neolib/file/xml.inl
@@ -349,7 +349,7 @@ namespace neolib
         for (typename node::iterator i = begin(); i != end(); ++i)
             if (i->type() == node::Element && static_cast<xml_element<CharT, Alloc>&>(*i).name() == aName)
                 return i;
-        insert(end(), new xml_element<CharT, Alloc>(aName));
+        insert(end(), new xml_element<CharT, Alloc>(aName.to_std_string())); // aName may be a view of the caller's buffer
         typename node::iterator newNode = end();
         return --newNode;
     }
@@ -946,7 +946,7 @@ namespace neolib
     template <typename CharT, typename Alloc>
     typename basic_xml<CharT, Alloc>::node::iterator basic_xml<CharT, Alloc>::insert(node& aParent, typename node::iterator aPosition, const CharT* aName)
     {
-        return aParent.insert(aPosition, new element(aName));
+        return aParent.insert(aPosition, new element(typename string::string_type{ aName })); // not a view of the caller's buffer
     }
 
     template <typename CharT, typename Alloc>
-- 
2.43.0


From e08a182fe034d5abd6971c7212886beee9ab26da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:37 +0000
Subject: [PATCH 044/162] fix: XML reader accepts an unterminated end tag and
 reads past it

---
 include/neolib/file/xml.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/neolib/file/xml.inl b/include/neolib/file/xml.inl
index d280fa1..4e27db0 100644
--- a/include/neolib/file/xml.inl
+++ b/include/neolib/file/xml.inl
@@ -720,7 +720,7 @@ namespace neolib
                         {
                             token endName = next_token(sNameDelimeter, false, nextTag.first + 1, nextTag.second);
                             token afterName = next_token(sNameDelimeter, false, endName.second, nextTag.second);
-                            if (endName.first != nextTag.first + 1 || afterName.first != nextTag.second || theElement.name() != string(endName.first, endName.second))
+                            if (nextTag.second == aDocumentEnd || endName.first != nextTag.first + 1 || afterName.first != nextTag.second || theElement.name() != string(endName.first, endName.second))
                             {
                                 iError = true;
                                 return aDocumentEnd;
-- 
2.43.0


From 136d0d7e29862c2bdba9cddb90242f83eacf35cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:22 +0000
Subject: [PATCH 045/162] fix: ref_ptr move assignment leaks a reference to an
 object already held and touches a destroyed source

---
 include/neolib/core/reference_counted.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/neolib/core/reference_counted.hpp b/include/neolib/core/reference_counted.hpp
index 9c9dfc9..c8e68d2 100644
--- a/include/neolib/core/reference_counted.hpp
+++ b/include/neolib/core/reference_counted.hpp
@@ -311,8 +311,8 @@ namespace neolib
         {
             if (&aOther == this)
                 return *this;
-            reset(aOther.ptr(), aOther.managed_ptr(), aOther.reference_counted(), false);
-            aOther.detach();
+            ref_ptr other{ std::move(aOther) }; // aOther may be destroyed by the reset
+            reset(other.ptr(), other.managed_ptr(), other.reference_counted(), true);
             return *this;
         }
         ref_ptr& operator=(abstract_type const& aOther)
@@ -331,8 +331,8 @@ namespace neolib
         template <typename Interface2, typename = std::enable_if_t<std::is_base_of_v<Interface, Interface2>, sfinae>>
         ref_ptr& operator=(ref_ptr<Interface2>&& aOther)
         {
-            reset(aOther.ptr(), aOther.managed_ptr(), aOther.reference_counted(), false);
-            aOther.detach();
+            ref_ptr other{ std::move(aOther) }; // aOther may be destroyed by the reset
+            reset(other.ptr(), other.managed_ptr(), other.reference_counted(), true);
             return *this;
         }
         template <typename Interface2, typename = std::enable_if_t<std::is_base_of_v<Interface, Interface2>, sfinae>>
@@ -436,7 +436,7 @@ namespace neolib
         template <typename Interface2 = Interface, typename = std::enable_if_t<std::is_base_of_v<Interface2, Interface>, sfinae>>
         void reset(Interface2* aPtr, Interface2* aManagedPtr, bool aReferenceCounted, bool aAddRef)
         {
-            if (iPtr == aPtr && iManagedPtr == aManagedPtr)
+            if (iPtr == aPtr && iManagedPtr == aManagedPtr && iReferenceCounted == aReferenceCounted && aAddRef)
                 return;
             Interface* compatiblePtr = dynamic_cast<Interface*>(aPtr);
             if (aPtr != nullptr && compatiblePtr == nullptr)
-- 
2.43.0


From 9d4b2cdf1563361db0aa2b2f9d8d3c8e05522f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:52 +0000
Subject: [PATCH 046/162] fix: multiset cannot be instantiated and
 i_multiset::find returns nothing

---
 include/neolib/core/i_set.hpp | 2 +-
 include/neolib/core/set.hpp   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/neolib/core/i_set.hpp b/include/neolib/core/i_set.hpp
index 86374ef..ca044bc 100644
--- a/include/neolib/core/i_set.hpp
+++ b/include/neolib/core/i_set.hpp
@@ -83,7 +83,7 @@ namespace neolib
     public:
         iterator insert(const abstract_value_type& aValue) { return do_insert(aValue); }
         const_iterator find(const abstract_key_type& aKey) const { return do_find(aKey); }
-        iterator find(const abstract_key_type& aKey) { do_find(aKey); }
+        iterator find(const abstract_key_type& aKey) { return do_find(aKey); }
         // todo: equal_range, lower_bound, upper_bound
     private:
         virtual abstract_iterator* do_insert(const abstract_value_type& aValue) = 0;
diff --git a/include/neolib/core/set.hpp b/include/neolib/core/set.hpp
index dc27829..8f96a89 100644
--- a/include/neolib/core/set.hpp
+++ b/include/neolib/core/set.hpp
@@ -145,7 +145,7 @@ namespace neolib
         typedef Alloc allocator_type;
         typedef mutable_multiset<value_type, compare_type, allocator_type> std_type;
     private:
-        typedef typename abstract_type::base_type abstract_container;
+        typedef typename abstract_type::abstract_container abstract_container;
     public:
         typedef typename abstract_type::size_type size_type;
         typedef container::const_iterator<abstract_value_type, typename std_type::const_iterator> container_const_iterator;
-- 
2.43.0


From 0bc94a0f7f682260a7b56d2e9da772426c5b609a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:01 +0000
Subject: [PATCH 047/162] fix: decrementing a set iterator through its
 interface does nothing

---
 include/neolib/core/container_iterator.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/neolib/core/container_iterator.hpp b/include/neolib/core/container_iterator.hpp
index 855d6de..68f88b9 100644
--- a/include/neolib/core/container_iterator.hpp
+++ b/include/neolib/core/container_iterator.hpp
@@ -81,7 +81,7 @@ namespace neolib
             operator container_iterator() const { return iContainerIterator; }
         public:
             abstract_iterator& operator++() override { ++iContainerIterator; return *this; }
-            abstract_iterator& operator--() override { if constexpr(std::bidirectional_iterator<container_iterator>) --iContainerIterator; return *this; }
+            abstract_iterator& operator--() override { if constexpr (requires(container_iterator& aIterator) { --aIterator; }) --iContainerIterator; return *this; }
             reference operator*() const override { return to_abstract(*iContainerIterator); }
             pointer operator->() const override { return &(**this); }
             bool operator==(const abstract_base_iterator& aOther) const override { return iContainerIterator == static_cast<const const_iterator&>(aOther).iContainerIterator; }
@@ -168,7 +168,7 @@ namespace neolib
             operator container_iterator() const { return iContainerIterator; }
         public:
             abstract_iterator& operator++() override { ++iContainerIterator; return *this; }
-            abstract_iterator& operator--() override { if constexpr (std::bidirectional_iterator<container_iterator>) --iContainerIterator; return *this; }
+            abstract_iterator& operator--() override { if constexpr (requires(container_iterator& aIterator) { --aIterator; }) --iContainerIterator; return *this; }
             reference operator*() const override { return to_abstract(*iContainerIterator); }
             pointer operator->() const override { return &(**this); }
             bool operator==(const abstract_base_iterator& aOther) const override { return iContainerIterator == static_cast<const iterator&>(aOther).iContainerIterator; }
-- 
2.43.0


From 3a6b864bc4cf63106d83ce13c3716641cf5cf7c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:01 +0000
Subject: [PATCH 048/162] fix: iterators over a set of strings reinterpret an
 interface they do not implement

---
 include/neolib/core/set.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/neolib/core/set.hpp b/include/neolib/core/set.hpp
index 8f96a89..a2bf38d 100644
--- a/include/neolib/core/set.hpp
+++ b/include/neolib/core/set.hpp
@@ -60,8 +60,8 @@ namespace neolib
         typedef typename abstract_type::abstract_container abstract_container;
     public:
         typedef typename abstract_type::size_type size_type;
-        typedef container::const_iterator<value_type, typename std_type::const_iterator> container_const_iterator;
-        typedef container::iterator<value_type, typename std_type::iterator, typename std_type::const_iterator> container_iterator;
+        typedef container::const_iterator<abstract_value_type, typename std_type::const_iterator> container_const_iterator;
+        typedef container::iterator<abstract_value_type, typename std_type::iterator, typename std_type::const_iterator> container_iterator;
     protected:
         typedef typename abstract_type::abstract_const_iterator abstract_const_iterator;
         typedef typename abstract_type::abstract_iterator abstract_iterator;
-- 
2.43.0


From aea6ba7e2120864a392f7595994757988d6cc3a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:40 +0000
Subject: [PATCH 049/162] fix: post-increment and offset of abstract iterators
 do not compile or do not advance

---
 include/neolib/core/i_iterator.hpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/include/neolib/core/i_iterator.hpp b/include/neolib/core/i_iterator.hpp
index 6170ffc..6c34e7f 100644
--- a/include/neolib/core/i_iterator.hpp
+++ b/include/neolib/core/i_iterator.hpp
@@ -272,28 +272,28 @@ namespace neolib
     template <typename T, typename Category, typename Difference, typename Pointer, typename Reference>
     inline const_iterator<T, Category, Difference, Pointer, Reference> i_const_iterator<T, Category, Difference, Pointer, Reference>::operator++(int) 
     { 
-        const_iterator result = *this;
-        ++result;
+        const_iterator<T, Category, Difference, Pointer, Reference> result{ clone() };
+        ++*this;
         return result;
     }
     template <typename T, typename Category, typename Difference, typename Pointer, typename Reference>
     inline const_iterator<T, Category, Difference, Pointer, Reference> i_const_iterator<T, Category, Difference, Pointer, Reference>::operator--(int) 
     { 
-        const_iterator result = *this;
-        --result;
+        const_iterator<T, Category, Difference, Pointer, Reference> result{ clone() };
+        --*this;
         return result;
     }
     template <typename T, typename Category, typename Difference, typename Pointer, typename Reference>
     inline random_access_const_iterator<T, Category, Difference, Pointer, Reference> i_random_access_const_iterator<T, Category, Difference, Pointer, Reference>::operator+(difference_type aDifference) const
     {
-        random_access_const_iterator<T, Category, Difference, Pointer, Reference> result = *this;
+        random_access_const_iterator<T, Category, Difference, Pointer, Reference> result{ static_cast<i_random_access_const_iterator<T, Category, Difference, Pointer, Reference>*>(this->clone()) };
         result += aDifference;
         return result;
     }
     template <typename T, typename Category, typename Difference, typename Pointer, typename Reference>
     inline random_access_const_iterator<T, Category, Difference, Pointer, Reference> i_random_access_const_iterator<T, Category, Difference, Pointer, Reference>::operator-(difference_type aDifference) const
     {
-        random_access_const_iterator<T, Category, Difference, Pointer, Reference> result = *this;
+        random_access_const_iterator<T, Category, Difference, Pointer, Reference> result{ static_cast<i_random_access_const_iterator<T, Category, Difference, Pointer, Reference>*>(this->clone()) };
         result -= aDifference;
         return result;
     }
@@ -496,28 +496,28 @@ namespace neolib
     template <typename T, typename Category, typename Difference, typename Pointer, typename Reference>
     inline iterator<T, Category, Difference, Pointer, Reference> i_iterator<T, Category, Difference, Pointer, Reference>::operator++(int) 
     { 
-        iterator result = *this;
-        ++result;
+        iterator<T, Category, Difference, Pointer, Reference> result{ clone() };
+        ++*this;
         return result;
     }
     template <typename T, typename Category, typename Difference, typename Pointer, typename Reference>
     inline iterator<T, Category, Difference, Pointer, Reference> i_iterator<T, Category, Difference, Pointer, Reference>::operator--(int) 
     { 
-        iterator result = *this;
-        --result;
+        iterator<T, Category, Difference, Pointer, Reference> result{ clone() };
+        --*this;
         return result;
     }
     template <typename T, typename Category, typename Difference, typename Pointer, typename Reference>
     inline random_access_iterator<T, Category, Difference, Pointer, Reference> i_random_access_iterator<T, Category, Difference, Pointer, Reference>::operator+(difference_type aDifference) const 
     { 
-        random_access_iterator<T, Category, Difference, Pointer, Reference> result = *this;
+        random_access_iterator<T, Category, Difference, Pointer, Reference> result{ static_cast<i_random_access_iterator<T, Category, Difference, Pointer, Reference>*>(this->clone()) };
         result += aDifference;
         return result;
     }
     template <typename T, typename Category, typename Difference, typename Pointer, typename Reference>
     inline random_access_iterator<T, Category, Difference, Pointer, Reference> i_random_access_iterator<T, Category, Difference, Pointer, Reference>::operator-(difference_type aDifference) const 
     { 
-        random_access_iterator<T, Category, Difference, Pointer, Reference> result = *this;
+        random_access_iterator<T, Category, Difference, Pointer, Reference> result{ static_cast<i_random_access_iterator<T, Category, Difference, Pointer, Reference>*>(this->clone()) };
         result -= aDifference;
         return result;
     }
-- 
2.43.0


From fbf5e32ef4378e7c743a1465c7c28820feb6312e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:01 +0000
Subject: [PATCH 050/162] fix: comparing an abstract optional with a value does
 not compile

---
 include/neolib/core/i_optional.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/neolib/core/i_optional.hpp b/include/neolib/core/i_optional.hpp
index 2827497..62b22b7 100644
--- a/include/neolib/core/i_optional.hpp
+++ b/include/neolib/core/i_optional.hpp
@@ -120,7 +120,7 @@ namespace neolib
     {
         if (!lhs.has_value())
             return false;
-        return lhs.get() == rhs;
+        return lhs.value() == rhs;
     }
 
     template <typename T, typename U, typename = std::enable_if_t<!is_optional_v<U>, sfinae>>
@@ -128,7 +128,7 @@ namespace neolib
     {
         if (!rhs.has_value())
             return false;
-        return lhs == rhs.get();
+        return lhs == rhs.value();
     }
 
     template <typename T, typename U, typename = std::enable_if_t<!is_optional_v<U>, sfinae>>
@@ -136,7 +136,7 @@ namespace neolib
     {
         if (!lhs.has_value())
             return std::partial_ordering::less;
-        return lhs.get() <=> rhs;
+        return lhs.value() <=> rhs;
     }
 
     template <typename T, typename U, typename = std::enable_if_t<!is_optional_v<U>, sfinae>>
@@ -144,6 +144,6 @@ namespace neolib
     {
         if (!rhs.has_value())
             return std::partial_ordering::greater;
-        return lhs <=> rhs.get();
+        return lhs <=> rhs.value();
     }
 }
-- 
2.43.0


From 7ed947ea942486bce9b487bd749bfbfe1ca3e338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:01 +0000
Subject: [PATCH 051/162] fix: copying a non-const any nests it inside another
 any

---
 include/neolib/core/any.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/neolib/core/any.hpp b/include/neolib/core/any.hpp
index 250cc06..73ba91d 100644
--- a/include/neolib/core/any.hpp
+++ b/include/neolib/core/any.hpp
@@ -100,7 +100,7 @@ namespace neolib
             aOther.ptr = nullptr;
         }
         template <typename ValueType>
-        any(ValueType&& aValue, std::enable_if_t<!is_variant_v<std::decay_t<ValueType>>, sfinae> = {}) :
+        any(ValueType&& aValue, std::enable_if_t<!is_variant_v<std::decay_t<ValueType>> && !std::is_base_of_v<i_any, std::decay_t<ValueType>>, sfinae> = {}) :
             std::any{ std::decay_t<ValueType>{aValue} },
             cptr{ &any::do_cptr<std::decay_t<ValueType>> },
             ptr{ &any::do_ptr<std::decay_t<ValueType>> }
@@ -140,7 +140,7 @@ namespace neolib
             aRhs.ptr = nullptr;
             return *this;
         }
-        template<typename ValueType>
+        template<typename ValueType, typename = std::enable_if_t<!std::is_base_of_v<i_any, std::decay_t<ValueType>>, sfinae>>
         any& operator=(ValueType&& aRhs)
         {
             std::any::operator=(std::decay_t<ValueType>{aRhs});
-- 
2.43.0


From dd6f0b6888f2db7474ce9793e19776ad9029c5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:01 +0000
Subject: [PATCH 052/162] fix: any::emplace takes exactly one argument and
 pointer any_cast does not compile

---
 include/neolib/core/any.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/neolib/core/any.hpp b/include/neolib/core/any.hpp
index 73ba91d..01a96f0 100644
--- a/include/neolib/core/any.hpp
+++ b/include/neolib/core/any.hpp
@@ -152,7 +152,7 @@ namespace neolib
         template<class ValueType, class... Args>
         std::decay_t<ValueType>& emplace(Args&&... args)
         {
-            auto& result = std::any::emplace<ValueType>(std::forward<Args...>(args...));
+            auto& result = std::any::emplace<ValueType>(std::forward<Args>(args)...);
             cptr = &any::do_cptr<std::decay_t<ValueType>>;
             ptr = &any::do_ptr<std::decay_t<ValueType>>;
             return result;
@@ -160,7 +160,7 @@ namespace neolib
         template<class ValueType, class U, class... Args>
         std::decay_t<ValueType>& emplace(std::initializer_list<U> il, Args&&... args)
         {
-            auto& result = std::any::emplace<ValueType>(il, std::forward<Args...>(args...));
+            auto& result = std::any::emplace<ValueType>(il, std::forward<Args>(args)...);
             cptr = &any::do_cptr<std::decay_t<ValueType>>;
             ptr = &any::do_ptr<std::decay_t<ValueType>>;
             return result;
@@ -281,12 +281,12 @@ namespace neolib
     template<class T>
     inline const T* any_cast(const any* operand) noexcept
     {
-        return std::any_cast<const T*>(&operand->as_std_any());
+        return operand != nullptr ? std::any_cast<T>(&operand->as_std_any()) : nullptr;
     }
     template<class T>
     inline T* any_cast(any* operand) noexcept
     {
-        return std::any_cast<T*>(&operand->as_std_any());
+        return operand != nullptr ? std::any_cast<T>(&operand->as_std_any()) : nullptr;
     }
     template<class T>
     inline T unsafe_any_cast(const any& operand) noexcept
-- 
2.43.0


From e90160617eb8c04ef58f61a20af748ab6525019f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:02 +0000
Subject: [PATCH 053/162] fix: assigning an empty abstract variant keeps the
 old value and self assignment reads a destroyed one

---
 include/neolib/core/variant.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/neolib/core/variant.hpp b/include/neolib/core/variant.hpp
index c07587c..49376fc 100644
--- a/include/neolib/core/variant.hpp
+++ b/include/neolib/core/variant.hpp
@@ -284,7 +284,12 @@ namespace neolib
         };
         abstract_type& assign(std::size_t aIndex, void const* aPtr) final
         {
-            RuntimeTypeDispatchToEmplace<Types...>::assign(*this, aIndex, aPtr);
+            if (aPtr == ptr())
+                return *this;
+            if (aIndex == 0)
+                std_type::template emplace<0>();
+            else
+                RuntimeTypeDispatchToEmplace<Types...>::assign(*this, aIndex, aPtr);
             return *this;
         }
     };
-- 
2.43.0


From f83badb408aaf9bb0fe848012408e546c4af8ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:02 +0000
Subject: [PATCH 054/162] fix: reading an absent optional keeps the old value

---
 include/neolib/core/optional.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/neolib/core/optional.hpp b/include/neolib/core/optional.hpp
index 533428a..7ad6a47 100644
--- a/include/neolib/core/optional.hpp
+++ b/include/neolib/core/optional.hpp
@@ -365,6 +365,8 @@ namespace neolib
             aOptional.emplace();
             aStream >> aOptional.value();
         }
+        else
+            aOptional.reset();
         return aStream;
     }
 }
-- 
2.43.0


From 3a9cf2de4cdbb27bd44ae547fc5045e17a274315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:42 +0000
Subject: [PATCH 055/162] fix: assigning through the interface to a variant
 left valueless by an exception

---
 include/neolib/core/variant.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/neolib/core/variant.hpp b/include/neolib/core/variant.hpp
index 49376fc..6b5b3d9 100644
--- a/include/neolib/core/variant.hpp
+++ b/include/neolib/core/variant.hpp
@@ -284,7 +284,7 @@ namespace neolib
         };
         abstract_type& assign(std::size_t aIndex, void const* aPtr) final
         {
-            if (aPtr == ptr())
+            if (!std_type::valueless_by_exception() && aPtr == ptr())
                 return *this;
             if (aIndex == 0)
                 std_type::template emplace<0>();
-- 
2.43.0


From 9cc82d864f880aa80fe31ddf3fbb379e78f1a780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:48 +0000
Subject: [PATCH 056/162] fix: pairs holding fundamental types throw on
 assignment

---
 include/neolib/core/pair.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/neolib/core/pair.hpp b/include/neolib/core/pair.hpp
index 50e8f90..9455643 100644
--- a/include/neolib/core/pair.hpp
+++ b/include/neolib/core/pair.hpp
@@ -73,8 +73,8 @@ namespace neolib
             if constexpr (!std::is_const_v<first_type> && !std::is_const_v<second_type>)
             {
                 if constexpr (
-                    std::is_assignable_v<decltype(std_type::first), decltype(aOther.first())> &&
-                    std::is_assignable_v<decltype(std_type::second), decltype(aOther.second())>)
+                    std::is_assignable_v<first_type&, decltype(aOther.first())> &&
+                    std::is_assignable_v<second_type&, decltype(aOther.second())>)
                 {
                     std_type::first = aOther.first();
                     std_type::second = aOther.second();
-- 
2.43.0


From 134cb9b70e699caa68aa229d0faf3745f174d416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:45 +0000
Subject: [PATCH 057/162] fix: quick_string::find_last_not_of finds the last of
 instead

---
 include/neolib/core/quick_string.hpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/include/neolib/core/quick_string.hpp b/include/neolib/core/quick_string.hpp
index b6c6075..fa08db5 100644
--- a/include/neolib/core/quick_string.hpp
+++ b/include/neolib/core/quick_string.hpp
@@ -499,37 +499,37 @@ namespace neolib
         size_type find_last_not_of(const basic_quick_string& str, size_type pos = npos) const
         {
             if (is_view())
-                return get_view_string().find_last_of(str.to_std_string_view(), pos);
+                return get_view_string().find_last_not_of(str.to_std_string_view(), pos);
             else
-                return get_string().find_last_of(str.to_std_string_view(), pos);
+                return get_string().find_last_not_of(str.to_std_string_view(), pos);
         }
         size_type find_last_not_of(const string_type& str, size_type pos = npos) const
         {
             if (is_view())
-                return get_view_string().find_last_of(str, pos);
+                return get_view_string().find_last_not_of(str, pos);
             else
-                return get_string().find_last_of(str, pos);
+                return get_string().find_last_not_of(str, pos);
         }
         size_type find_last_not_of(const CharT* s, size_type pos, size_type n) const
         {
             if (is_view())
-                return get_view_string().find_last_of(s, pos, n);
+                return get_view_string().find_last_not_of(s, pos, n);
             else
-                return get_string().find_last_of(s, pos, n);
+                return get_string().find_last_not_of(s, pos, n);
         }
         size_type find_last_not_of(const CharT* s, size_type pos = npos) const
         {
             if (is_view())
-                return get_view_string().find_last_of(s, pos);
+                return get_view_string().find_last_not_of(s, pos);
             else
-                return get_string().find_last_of(s, pos);
+                return get_string().find_last_not_of(s, pos);
         }
         size_type find_last_not_of(CharT c, size_type pos = npos) const
         {
             if (is_view())
-                return get_view_string().find_last_of(c, pos);
+                return get_view_string().find_last_not_of(c, pos);
             else
-                return get_string().find_last_of(c, pos);
+                return get_string().find_last_not_of(c, pos);
         }
         string_type substr(size_type pos = 0, size_type n = npos) const
         {
-- 
2.43.0


From 88f0a82a03bc611e8b2cde3cc01e540235e07c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:45 +0000
Subject: [PATCH 058/162] fix: quick_string assigned one character holds two

---
 include/neolib/core/quick_string.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/neolib/core/quick_string.hpp b/include/neolib/core/quick_string.hpp
index fa08db5..9213d42 100644
--- a/include/neolib/core/quick_string.hpp
+++ b/include/neolib/core/quick_string.hpp
@@ -157,7 +157,7 @@ namespace neolib
         }
         basic_quick_string& operator=(CharT c) 
         { 
-            iContents = string_type{ 1, c }; 
+            iContents = string_type(1, c); 
             return *this; 
         }
         // iterators
-- 
2.43.0


From 952fe249cc0ad0baf5c70e5d5157bfcea6279f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:45 +0000
Subject: [PATCH 059/162] fix: quick_string substring views and comparisons run
 past the end of the string

---
 include/neolib/core/quick_string.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/neolib/core/quick_string.hpp b/include/neolib/core/quick_string.hpp
index 9213d42..671bc00 100644
--- a/include/neolib/core/quick_string.hpp
+++ b/include/neolib/core/quick_string.hpp
@@ -98,7 +98,7 @@ namespace neolib
         {
         }
         basic_quick_string(const basic_quick_string& str, size_type pos, size_type n = npos) :
-            iContents{ view_contents_type{ string_view_type{ str.cbegin() + pos, (n == npos ? str.size() - pos : n) }, str.get_allocator() } } 
+            iContents{ view_contents_type{ str.to_std_string_view().substr(pos, n), str.get_allocator() } } 
         {
         }
         explicit basic_quick_string(const string_view_type& view, const Alloc& a = Alloc()) :
-- 
2.43.0


From a1592687711b4d1c3a19ca95982ab8e04757fcd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:45 +0000
Subject: [PATCH 060/162] fix: hashing an empty quick_string dereferences its
 end

---
 include/neolib/core/quick_string.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/neolib/core/quick_string.hpp b/include/neolib/core/quick_string.hpp
index 671bc00..5b26a18 100644
--- a/include/neolib/core/quick_string.hpp
+++ b/include/neolib/core/quick_string.hpp
@@ -761,6 +761,6 @@ namespace neolib
     template <typename CharT, typename Traits, typename Alloc>
     inline std::size_t hash_value(const neolib::basic_quick_string<CharT, Traits, Alloc>& sv) 
     {
-        return neolib::fast_hash(&*sv.to_std_string_view().cbegin(), sv.size());
+        return neolib::fast_hash(sv.data(), sv.size());
     }
 }
\ No newline at end of file
-- 
2.43.0


From 73b0f840c2661b234f463ed80f1f7c63e713c16f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:01 +0000
Subject: [PATCH 061/162] fix: quick_string orders bytes above 127 differently
 from compare()

---
 include/neolib/core/quick_string.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/neolib/core/quick_string.hpp b/include/neolib/core/quick_string.hpp
index 5b26a18..380f6c5 100644
--- a/include/neolib/core/quick_string.hpp
+++ b/include/neolib/core/quick_string.hpp
@@ -579,7 +579,7 @@ namespace neolib
         }
         std::strong_ordering operator<=>(const basic_quick_string& that) const
         {
-            return std::lexicographical_compare_three_way(begin(), end(), that.begin(), that.end());
+            return to_std_string_view().compare(that.to_std_string_view()) <=> 0;
         }
         // basic_quick_string specific operations
     public:
-- 
2.43.0


From c70f7f5f8ba456198eab0063f276a0bc89303e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:45 +0000
Subject: [PATCH 062/162] fix: event::trigger touches the event after a slot
 destroyed it and loses or leaks accept()

---
 include/neolib/task/event.hpp | 67 +++++++++++++++++++++++++----------
 1 file changed, 49 insertions(+), 18 deletions(-)

diff --git a/include/neolib/task/event.hpp b/include/neolib/task/event.hpp
index f003f02..f3e17e7 100644
--- a/include/neolib/task/event.hpp
+++ b/include/neolib/task/event.hpp
@@ -128,9 +128,41 @@ namespace neolib
         typedef std::vector<ref_ptr<i_slot<Args...>>> slot_list;
         struct work_list
         {
+            event const* owner = nullptr;
             slot_list slots;
             bool accepted = false;
         };
+        struct work_list_stack
+        {
+            std::vector<std::unique_ptr<work_list>> workLists;
+            std::size_t depth = 0;
+        };
+        class scoped_work_list
+        {
+        public:
+            scoped_work_list(event const& aOwner)
+            {
+                auto& stack = active_work_lists();
+                if (stack.workLists.size() == stack.depth)
+                    stack.workLists.push_back(std::make_unique<work_list>());
+                iWorkList = stack.workLists[stack.depth++].get();
+                iWorkList->owner = &aOwner;
+            }
+            ~scoped_work_list()
+            {
+                iWorkList->slots.clear();
+                iWorkList->accepted = false;
+                iWorkList->owner = nullptr;
+                --active_work_lists().depth;
+            }
+        public:
+            work_list& operator*() const
+            {
+                return *iWorkList;
+            }
+        private:
+            work_list* iWorkList;
+        };
     public:
         event()
         {
@@ -149,7 +181,6 @@ namespace neolib
             iTriggerType = aOther.iTriggerType;
             iSlots = {};
             iHasSlots = false;
-            iActiveWorkList = {};
             return *this;
         }
     public:
@@ -169,13 +200,8 @@ namespace neolib
 
             std::unique_lock lock{ iMutex };
             destroyed_flag destroyed{ *this };
-            thread_local std::size_t stack;
-            scoped_counter<std::size_t> stackCounter{ stack };
-            thread_local std::vector<std::unique_ptr<work_list>> workLists;
-            if (workLists.size() < stack)
-                workLists.push_back(std::make_unique<work_list>());
-            auto& workList = *workLists[stack - 1];
-            scoped_pointer<work_list> activeWorkList{ iActiveWorkList, &workList };
+            scoped_work_list activeWorkList{ *this };
+            auto& workList = *activeWorkList;
             workList.slots = iSlots;
             lock.unlock();
 
@@ -188,15 +214,9 @@ namespace neolib
                 if (destroyed)
                     return trigger_result::Unaccepted;
                 if (workList.accepted)
-                {
-                    workList.accepted = false;
                     return trigger_result::Accepted;
-                }
             }
 
-            workList.slots.clear();
-            workList.accepted = false;
-
             return trigger_result::Unaccepted;
         }
         void async_trigger(Args... aArgs) const final
@@ -207,9 +227,16 @@ namespace neolib
         }
         void accept() const final
         {
-            std::unique_lock lock{ iMutex };
-            if (iActiveWorkList)
-                iActiveWorkList->accepted = true;
+            // the innermost trigger of this event on this thread
+            auto& stack = active_work_lists();
+            for (auto depth = stack.depth; depth > 0; --depth)
+            {
+                auto& workList = *stack.workLists[depth - 1];
+                if (workList.owner != this)
+                    continue;
+                workList.accepted = true;
+                break;
+            }
         }
     public:
         bool has_slots() const final
@@ -234,6 +261,11 @@ namespace neolib
             iHasSlots = !iSlots.empty();
         }
     private:
+        static work_list_stack& active_work_lists()
+        {
+            thread_local work_list_stack tWorkLists;
+            return tWorkLists;
+        }
         void async_trigger(async_event_queue& aQueue, i_slot<Args...>& aSlot, bool aNoDuplicates, Args... aArgs) const
         {
             aQueue.enqueue<Args...>(aSlot, aNoDuplicates, aArgs...);
@@ -243,7 +275,6 @@ namespace neolib
         neolib::trigger_type iTriggerType = neolib::trigger_type::Synchronous;
         mutable slot_list iSlots;
         mutable std::atomic<bool> iHasSlots = false;
-        mutable work_list* iActiveWorkList = nullptr;
     };
 
     #define define_declared_event( name, declName, ... ) \
-- 
2.43.0


From 3fb06ec840594c5464bb0c1e27837543b14f94cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:54 +0000
Subject: [PATCH 063/162] fix: slots are called after they are removed; a
 queued slot can be destroyed by another thread while it is called

---
 include/neolib/task/event.hpp   | 9 +++++----
 include/neolib/task/i_event.hpp | 7 +++++++
 src/task/event.cpp              | 2 +-
 3 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/include/neolib/task/event.hpp b/include/neolib/task/event.hpp
index f3e17e7..ace6aaf 100644
--- a/include/neolib/task/event.hpp
+++ b/include/neolib/task/event.hpp
@@ -67,8 +67,7 @@ namespace neolib
         {
             void const* event;
             destroyed_flag eventDestroyed;
-            void const* slot;
-            destroyed_flag slotDestroyed;
+            ref_ptr<i_slot_base> slot;
             std::function<void()> callback;
         };
         struct queue
@@ -103,10 +102,10 @@ namespace neolib
                     existing->second.callback = callback;
                     return;
                 }
-                iQueue.single.emplace(key, queue_entry{ &event, event, &aSlot, aSlot, callback });
+                iQueue.single.emplace(key, queue_entry{ &event, event, &aSlot, callback });
             }
             else
-                iQueue.multiple.emplace_back(&event, event, &aSlot, aSlot, callback);
+                iQueue.multiple.emplace_back(&event, event, &aSlot, callback);
         }
     public:
         void register_with_task(i_async_task& aTask) final;
@@ -207,6 +206,8 @@ namespace neolib
 
             for (auto slot : workList.slots)
             {
+                if (slot->removed())
+                    continue;
                 if (slot->call_in_emitter_thread() || slot->call_thread() == std::this_thread::get_id())
                     slot->call(aArgs...);
                 else
diff --git a/include/neolib/task/i_event.hpp b/include/neolib/task/i_event.hpp
index 7ef64c5..a7095e6 100644
--- a/include/neolib/task/i_event.hpp
+++ b/include/neolib/task/i_event.hpp
@@ -102,6 +102,7 @@ namespace neolib
         typedef i_slot_base abstract_type;
     public:
         virtual void remove() = 0;
+        virtual bool removed() const = 0;
     };
 
     template <typename... Args>
@@ -231,9 +232,14 @@ namespace neolib
     public:
         void remove() final
         {
+            iRemoved = true;
             if (!iEventDestroyed)
                 event().remove_slot(*this);
         }
+        bool removed() const final
+        {
+            return iRemoved;
+        }
         i_event<Args...> const& event() const final
         {
             return iEvent;
@@ -273,6 +279,7 @@ namespace neolib
         std::function<void(Args...)> iCallable;
         std::optional<std::thread::id> iCallThread;
         bool iStateless = false;
+        std::atomic<bool> iRemoved = false;
     };
 
     class sink
diff --git a/src/task/event.cpp b/src/task/event.cpp
index 173b55f..e5c3b37 100644
--- a/src/task/event.cpp
+++ b/src/task/event.cpp
@@ -117,7 +117,7 @@ namespace neolib
         bool didSome = false;
         for (auto& entry : workList)
         {
-            if (entry.eventDestroyed || entry.slotDestroyed)
+            if (entry.eventDestroyed || entry.slot->removed())
                 continue;
             entry.callback();
             didSome = true;
-- 
2.43.0


From 187fc7eb11f67e390e13e9ed704af10c60923535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:57 +0000
Subject: [PATCH 064/162] fix: an exception from a queued slot loses the rest
 of the queue and redelivers what was already delivered

---
 include/neolib/task/event.hpp |  2 +-
 src/task/event.cpp            | 31 +++++++++++++++++++++----------
 2 files changed, 22 insertions(+), 11 deletions(-)

diff --git a/include/neolib/task/event.hpp b/include/neolib/task/event.hpp
index ace6aaf..fb54095 100644
--- a/include/neolib/task/event.hpp
+++ b/include/neolib/task/event.hpp
@@ -95,7 +95,7 @@ namespace neolib
             std::scoped_lock lock{ iMutex };
             if (single)
             {
-                typename decltype(iQueue.single)::key_type const key{ &event, &aSlot };
+                typename decltype(iQueue.single)::key_type const key{ &event, static_cast<i_slot_base*>(&aSlot) };
                 auto existing = iQueue.single.find(key);
                 if (existing != iQueue.single.end())
                 {
diff --git a/src/task/event.cpp b/src/task/event.cpp
index e5c3b37..7b77ada 100644
--- a/src/task/event.cpp
+++ b/src/task/event.cpp
@@ -102,27 +102,38 @@ namespace neolib
     bool async_event_queue::pump_events()
     {
         std::unique_lock lock{ iMutex };
-        thread_local std::size_t stack;
-        scoped_counter<std::size_t> stackCounter{ stack };
-        typedef std::vector<queue_entry> work_list;
-        thread_local std::vector<std::unique_ptr<work_list>> workLists;
-        if (workLists.size() < stack)
-            workLists.push_back(std::make_unique<work_list>());
-        auto& workList = *workLists[stack - 1];
+        std::vector<queue_entry> workList;
         workList.swap(iQueue.multiple);
+        auto const multipleCount = workList.size();
         for (auto const& se : iQueue.single)
             workList.push_back(se.second);
         iQueue.single.clear();
         lock.unlock();
         bool didSome = false;
-        for (auto& entry : workList)
+        for (std::size_t next = 0u; next < workList.size();)
         {
+            auto const& entry = workList[next++];
             if (entry.eventDestroyed || entry.slot->removed())
                 continue;
-            entry.callback();
+            try
+            {
+                entry.callback();
+            }
+            catch (...)
+            {
+                // what has not been delivered yet stays queued, ahead of anything newer
+                lock.lock();
+                for (auto undelivered = std::max(next, multipleCount); undelivered < workList.size(); ++undelivered)
+                {
+                    auto& se = workList[undelivered];
+                    iQueue.single.emplace(decltype(iQueue.single)::key_type{ se.event, se.slot.ptr() }, se);
+                }
+                if (next < multipleCount)
+                    iQueue.multiple.insert(iQueue.multiple.begin(), workList.begin() + next, workList.begin() + multipleCount);
+                throw;
+            }
             didSome = true;
         }
-        workList.clear();
         return didSome;
     }
 }
\ No newline at end of file
-- 
2.43.0


From 680e83bcc8c6a00ebc4133df41083b46486bb22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:12 +0000
Subject: [PATCH 065/162] fix: async_event_queue registers and unregisters
 thread queues without the lock that guards them

---
 src/task/event.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/task/event.cpp b/src/task/event.cpp
index 7b77ada..bd4dc8e 100644
--- a/src/task/event.cpp
+++ b/src/task/event.cpp
@@ -77,17 +77,19 @@ namespace neolib
 
     async_event_queue::async_event_queue()
     {
-        std::scoped_lock lock{ iMutex };
+        std::scoped_lock lock{ instance_map().mutex };
         if (instance_map().find(std::this_thread::get_id()) == instance_map().end())
             instance_map()[std::this_thread::get_id()] = this;
     }
 
     async_event_queue::~async_event_queue()
     {
-        std::scoped_lock lock{ iMutex };
-        auto existing = instance_map().find(std::this_thread::get_id());
-        if (existing != instance_map().end())
-            instance_map().erase(existing);
+        {
+            std::scoped_lock lock{ instance_map().mutex };
+            auto existing = instance_map().find(std::this_thread::get_id());
+            if (existing != instance_map().end())
+                instance_map().erase(existing);
+        }
         if (iTask && !*iTaskDestroyed)
             iTask->unregister_event_queue(*this);
     }
-- 
2.43.0


From 20db9ad08114d047596a072a0176233507d595cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:40 +0000
Subject: [PATCH 066/162] fix: destroying an event that holds the last
 reference to a slot edits the slot list being destroyed

---
 include/neolib/task/event.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/neolib/task/event.hpp b/include/neolib/task/event.hpp
index fb54095..5a5b130 100644
--- a/include/neolib/task/event.hpp
+++ b/include/neolib/task/event.hpp
@@ -172,6 +172,8 @@ namespace neolib
         }
         ~event()
         {
+            // a slot released along with the slot list must not try to remove itself from it
+            this->set_destroyed();
         }
     public:
         event& operator=(event const& aOther)
-- 
2.43.0


From 27d82a38923b0d1a67b5e6a28ff54aff5436515f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:31 +0000
Subject: [PATCH 067/162] fix: assigning to an event edits the slot list being
 cleared

---
 include/neolib/task/event.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/neolib/task/event.hpp b/include/neolib/task/event.hpp
index 5a5b130..991d0b4 100644
--- a/include/neolib/task/event.hpp
+++ b/include/neolib/task/event.hpp
@@ -178,9 +178,10 @@ namespace neolib
     public:
         event& operator=(event const& aOther)
         {
+            slot_list dropped; // released once the list no longer holds them
             std::unique_lock lock{ iMutex };
             iTriggerType = aOther.iTriggerType;
-            iSlots = {};
+            iSlots.swap(dropped);
             iHasSlots = false;
             return *this;
         }
-- 
2.43.0


From 1c8b542167dd797662230480b938d335c45c521d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:23 +0000
Subject: [PATCH 068/162] fix: an exception thrown by a pool task function
 terminates the process

---
 include/neolib/task/task.hpp | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/include/neolib/task/task.hpp b/include/neolib/task/task.hpp
index b812a18..9a0512c 100644
--- a/include/neolib/task/task.hpp
+++ b/include/neolib/task/task.hpp
@@ -97,7 +97,14 @@ namespace neolib
         }
         void run(yield_type) override
         {
-            iPromise.set_value(iFunction());
+            try
+            {
+                iPromise.set_value(iFunction());
+            }
+            catch (...)
+            {
+                iPromise.set_exception(std::current_exception());
+            }
         }
     private:
         std::function<T()> iFunction;
@@ -107,7 +114,14 @@ namespace neolib
     template <>
     inline void function_task<void>::run(yield_type)
     {
-        iFunction();
-        iPromise.set_value();
+        try
+        {
+            iFunction();
+            iPromise.set_value();
+        }
+        catch (...)
+        {
+            iPromise.set_exception(std::current_exception());
+        }
     }
 }
-- 
2.43.0


From b7a9a0ac3418b1a3ad3c326c73b30c7626b6af9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:23 +0000
Subject: [PATCH 069/162] fix: thread::id()/in() read the thread id
 unsynchronised with the thread setting it

---
 include/neolib/task/thread.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/neolib/task/thread.hpp b/include/neolib/task/thread.hpp
index 47306b2..1cd7e0e 100644
--- a/include/neolib/task/thread.hpp
+++ b/include/neolib/task/thread.hpp
@@ -135,7 +135,7 @@ namespace neolib
         std::optional<std::function<void()>> iExecFunction;
         std::atomic<thread_state> iState;
         thread_object_pointer iThreadObject;
-        id_type iId;
+        std::atomic<id_type> iId;
         std::atomic<std::size_t> iBlockedCount;
     };
 }
-- 
2.43.0


From 08ea802d5eabe3f18c427d0448de6f7407e1ceeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:23 +0000
Subject: [PATCH 070/162] fix: cancelling a thread from within terminates the
 process

---
 src/task/thread.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/task/thread.cpp b/src/task/thread.cpp
index 2b606be..2da02c7 100644
--- a/src/task/thread.cpp
+++ b/src/task/thread.cpp
@@ -396,6 +396,10 @@ namespace neolib
                     iState = thread_state::Finished;
             }
         }
+        catch (const cancellation&)
+        {
+            // not an error, the thread was cancelled or aborted (see state())
+        }
         catch(const std::exception& aException)
         {
             std::cerr << std::string("Thread terminating due to an uncaught exception being thrown (") + aException.what() + ")." << std::endl;
-- 
2.43.0


From 280b56716ceb5951e2081a533aa0f7cd05370c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:23 +0000
Subject: [PATCH 071/162] fix: waiting for a thread or an event does not notice
 that the thread has finished

---
 src/task/thread.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/task/thread.cpp b/src/task/thread.cpp
index 2da02c7..de279fa 100644
--- a/src/task/thread.cpp
+++ b/src/task/thread.cpp
@@ -361,7 +361,7 @@ namespace neolib
 
     bool thread::waitable_ready() const noexcept
     {
-        return thread_object().get_id() == std::thread::id();
+        return finished();
     }
 
     void thread::exec_preamble()
-- 
2.43.0


From 001691205a38c9aca49680b430092a85708ed0ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:23 +0000
Subject: [PATCH 072/162] fix: only one of several threads waiting for a pool
 is woken

---
 src/task/thread_pool.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/task/thread_pool.cpp b/src/task/thread_pool.cpp
index aeb5f77..117c10c 100644
--- a/src/task/thread_pool.cpp
+++ b/src/task/thread_pool.cpp
@@ -322,7 +322,7 @@ namespace neolib
                 std::unique_lock lk(iWaitMutex);
                 iStopped = true;
             }
-            iWaitConditionVariable.notify_one();
+            iWaitConditionVariable.notify_all();
         }
     }
 
@@ -355,7 +355,7 @@ namespace neolib
     void thread_pool::thread_gone_idle()
     {
         update_idle();
-        iWaitConditionVariable.notify_one();
+        iWaitConditionVariable.notify_all();
     }
 
     void thread_pool::thread_gone_busy()
-- 
2.43.0


From dec3834ae4a180d84bddc6939ab7a2d27655b998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:03 +0000
Subject: [PATCH 073/162] fix: destroying a thread that was never started
 terminates the process

---
 src/task/thread.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/task/thread.cpp b/src/task/thread.cpp
index de279fa..279539a 100644
--- a/src/task/thread.cpp
+++ b/src/task/thread.cpp
@@ -124,7 +124,7 @@ namespace neolib
 
     thread::~thread()
     {
-        if (!finished() && !using_existing_thread())
+        if (started() && !finished() && !using_existing_thread())
             abort();
         if (has_thread_object() && thread_object().joinable())
             thread_object().join();
-- 
2.43.0


From 9cac1451005ab9fe8f9b0d11f0461182e493ef23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:42 +0000
Subject: [PATCH 074/162] fix: waitable_event: a signal is lost when a wait
 times out, and a spurious wake counts as a signal

---
 src/task/waitable_event.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/task/waitable_event.cpp b/src/task/waitable_event.cpp
index 10835fe..e5690b9 100644
--- a/src/task/waitable_event.cpp
+++ b/src/task/waitable_event.cpp
@@ -73,13 +73,11 @@ namespace neolib
 
     bool waitable_event::wait(uint32_t aTimeout_ms) const
     {
-        bool result = true;
         std::unique_lock<std::mutex> lock(iMutex);
         ++iTotalWaiting;
-        if (!iReady)
-            result = (iCondVar.wait_for(lock, std::chrono::milliseconds(aTimeout_ms)) == std::cv_status::no_timeout);
+        bool const result = iCondVar.wait_for(lock, std::chrono::milliseconds(aTimeout_ms), [this]() { return iReady; });
         --iTotalWaiting;
-        if (result && iSignalType == SignalOne || iTotalWaiting == 0)
+        if (result && (iSignalType == SignalOne || iTotalWaiting == 0))
             iReady = false;
         return result;
     }
-- 
2.43.0


From 8c59df8a685389a41393aba2ca08691d231042ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:42 +0000
Subject: [PATCH 075/162] fix: waitable_event: signal_one following signal_all
 stops it releasing every waiter

---
 src/task/waitable_event.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/task/waitable_event.cpp b/src/task/waitable_event.cpp
index e5690b9..9663398 100644
--- a/src/task/waitable_event.cpp
+++ b/src/task/waitable_event.cpp
@@ -47,8 +47,9 @@ namespace neolib
     void waitable_event::signal_one() const
     {
         std::scoped_lock<std::mutex> lock(iMutex);
+        if (!iReady)
+            iSignalType = SignalOne; // otherwise do not demote a pending signal_all
         iReady = true;
-        iSignalType = SignalOne;
         iCondVar.notify_one();
     }
 
-- 
2.43.0


From cde850ca9a8fb04797521776790b0d1567f3805f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:22 +0000
Subject: [PATCH 076/162] fix: profiled mutex reads the id of the thread
 holding it from that thread's thread local storage, which may be gone

---
 include/neolib/core/mutex.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/neolib/core/mutex.hpp b/include/neolib/core/mutex.hpp
index 737b783..c96824c 100644
--- a/include/neolib/core/mutex.hpp
+++ b/include/neolib/core/mutex.hpp
@@ -382,10 +382,7 @@ namespace neolib
                     [&]
                     {
                         if (enhancedMetrics)
-                        {
-                            auto const lockingThread = iLockingThread.load();
-                            m.emplace_back(lockingThread != nullptr ? *lockingThread : std::thread::id{}, std::chrono::microseconds{});
-                        }
+                            m.emplace_back(iLockingThreadId.load(std::memory_order_relaxed), std::chrono::microseconds{});
                     },
                     [&]
                     {
@@ -411,6 +408,7 @@ namespace neolib
             {
                 acquire_lock([]{}, []{}, []{});
             }
+            iLockingThreadId.store(*thisThread, std::memory_order_relaxed);
 #endif
             iLockingThread.store(thisThread, std::memory_order_relaxed);
             ++iLockCount;
@@ -437,6 +435,9 @@ namespace neolib
             }
             if (iState.test_and_set(std::memory_order_acquire))
                 return false;
+#if defined(NEOS_PROFILE_MUTEX)
+            iLockingThreadId.store(*thisThread, std::memory_order_relaxed);
+#endif
             iLockingThread.store(thisThread, std::memory_order_relaxed);
             ++iLockCount;
             return true;
@@ -456,6 +457,7 @@ namespace neolib
         std::atomic<this_thread::lightweight::thread_id> iLockingThread;
         std::atomic_flag iState;
 #if defined(NEOS_PROFILE_MUTEX)
+        std::atomic<std::thread::id> iLockingThreadId = {}; // of the last thread to lock
         std::atomic<std::uint32_t> iPathologicalContentionCounter = 0u;
         std::uint64_t iGeneration = 0u;
 #endif
-- 
2.43.0


From d9c80b7a8fd566a86033c56f0be5b35413bc1238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:56 +0000
Subject: [PATCH 077/162] fix: an exception from a timer callback leaves its
 subscriber to be called by whichever timer expires next

---
 src/task/async_task.cpp   | 4 +---
 src/task/timer_object.cpp | 3 +--
 2 files changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/task/async_task.cpp b/src/task/async_task.cpp
index c36a999..ae5a8e6 100644
--- a/src/task/async_task.cpp
+++ b/src/task/async_task.cpp
@@ -158,6 +158,7 @@ namespace neolib
             if (workListStack.size() < stack)
                 workListStack.push_back(std::make_unique<work_list_t>());
             work_list_t& workList = *workListStack[stack - 1];
+            scoped_cleanup cleanup{ [&]() { workList.clear(); } };
 
             std::unique_lock lock{ iMutex };
             iObjects.erase(std::remove_if(iObjects.begin(), iObjects.end(), [](auto const& o) { return o == nullptr; }), iObjects.end());
@@ -176,9 +177,6 @@ namespace neolib
                 }
             }
 
-            lock.lock();
-            workList.clear();
-
             if (!didSomeThisIteration)
                 break;
 
diff --git a/src/task/timer_object.cpp b/src/task/timer_object.cpp
index 4121be2..8b33a20 100644
--- a/src/task/timer_object.cpp
+++ b/src/task/timer_object.cpp
@@ -114,6 +114,7 @@ namespace neolib
         if (workListStack.size() < stack)
             workListStack.push_back(std::make_unique<work_list_t>());
         work_list_t& workList = *workListStack[stack - 1];
+        scoped_cleanup cleanup{ [&]() { workList.clear(); } };
 
         std::unique_lock lock{ iSubscribersMutex };
         std::transform(iSubscribers.begin(), iSubscribers.end(), std::back_inserter(workList), [](auto const& s) { return std::make_pair(s, destroyed_flag{ *s }); });
@@ -125,8 +126,6 @@ namespace neolib
             auto& subscriber = *s.first;
             subscriber.timer_expired(*this);
         }
-        lock.lock();
-        workList.clear();
         return true;
     }
 
-- 
2.43.0


From d80be27a23d380f5d6afe3f2af231c886cecc0d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:56 +0000
Subject: [PATCH 078/162] fix: a timer subscriber is called after it was
 unsubscribed by another subscriber of the timer

---
 src/task/timer_object.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/task/timer_object.cpp b/src/task/timer_object.cpp
index 8b33a20..c8a46ef 100644
--- a/src/task/timer_object.cpp
+++ b/src/task/timer_object.cpp
@@ -123,6 +123,11 @@ namespace neolib
         {
             if (!s.second.is_alive())
                 continue;
+            lock.lock();
+            bool const subscribed = (iSubscribers.find(s.first) != iSubscribers.end());
+            lock.unlock();
+            if (!subscribed)
+                continue;
             auto& subscriber = *s.first;
             subscriber.timer_expired(*this);
         }
-- 
2.43.0


From f916d4205ae40aa5f6828f63c79b64c6f5797cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:56 +0000
Subject: [PATCH 079/162] fix: a cancelled timer keeps waiting: it cannot be
 reset or set waiting again

---
 src/task/timer.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/task/timer.cpp b/src/task/timer.cpp
index 67773f6..c7f31f8 100644
--- a/src/task/timer.cpp
+++ b/src/task/timer.cpp
@@ -157,6 +157,7 @@ namespace neolib
             return;
         if (!iTaskDestroying && !iTaskDestroyed)
             timer_object().cancel();
+        iWaiting = false;
     }
 
     void timer::reset()
-- 
2.43.0


From f007891e9b333954963c1e5f326411afcc30f445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:56 +0000
Subject: [PATCH 080/162] fix: nested time slices throw

---
 src/task/time_slice.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/task/time_slice.cpp b/src/task/time_slice.cpp
index 118cd40..657e243 100644
--- a/src/task/time_slice.cpp
+++ b/src/task/time_slice.cpp
@@ -121,7 +121,7 @@ namespace neolib
     time_slice::task& time_slice::current_task() const
     {
         if (!tasks().empty())
-            return current_slice().tasks.at(tasks().back());
+            return current_slice().tasks[tasks().back()];
         throw std::logic_error("neolib::time_slice::current_task");
     }
 
-- 
2.43.0


From 1dcc0192760d56b332eaab40f508d659f606dc8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:56 +0000
Subject: [PATCH 081/162] fix: a task whose io context was cancelled
 dereferences a null pointer

---
 src/task/async_task.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/task/async_task.cpp b/src/task/async_task.cpp
index ae5a8e6..537c4f4 100644
--- a/src/task/async_task.cpp
+++ b/src/task/async_task.cpp
@@ -285,7 +285,8 @@ namespace neolib
             didSome = (iTimerService->poll(true) || didSome);
 
         for (auto& service : iIoServices)
-            didSome = (service.second->poll(true) || didSome);
+            if (service.second != nullptr)
+                didSome = (service.second->poll(true) || didSome);
 
         if (!didSome && aYieldIfNoWork != yield_type::NoYield)
         {
-- 
2.43.0


From 554930608c0f50fea9a34a59c3b8327eca00bd5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:24 +0000
Subject: [PATCH 082/162] fix: a timer callback that destroys its timer and
 throws writes to the destroyed timer

---
 src/task/timer.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/task/timer.cpp b/src/task/timer.cpp
index c7f31f8..04d77c8 100644
--- a/src/task/timer.cpp
+++ b/src/task/timer.cpp
@@ -231,10 +231,10 @@ namespace neolib
         iWaiting = false;
         if (ok)
         {
+            destroyed_flag destroyed{ *this };
             try
             {
                 iInReady = true;
-                destroyed_flag destroyed{ *this };
                 if (std::uncaught_exceptions() == 0)
                     ready();
                 else
@@ -245,7 +245,8 @@ namespace neolib
             }
             catch (...)
             {
-                iInReady = false;
+                if (!destroyed)
+                    iInReady = false;
                 throw;
             }
         }
-- 
2.43.0


From 214b7b73ae1d4d11b4cd479c325db93bcb943db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:29 +0000
Subject: [PATCH 083/162] fix: the timer object of a destroyed timer stays with
 its task and is polled until the task ends

---
 src/task/timer.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/task/timer.cpp b/src/task/timer.cpp
index 04d77c8..aaed835 100644
--- a/src/task/timer.cpp
+++ b/src/task/timer.cpp
@@ -94,6 +94,8 @@ namespace neolib
     {
         cancel();
         unsubscribe();
+        if (iTimerObject && !iTaskDestroying && !iTaskDestroyed)
+            iTask.timer_service().remove_timer_object(*iTimerObject);
     }
 
     i_async_task& timer::owner_task() const
-- 
2.43.0


From 93c3bf696bdc587d6e9c0e9154fcf34fe2067365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:03 +0000
Subject: [PATCH 084/162] fix: simd_mul_4d returns the four products in reverse
 order (double) or zeros (float), so a 4D outer product is wrong

---
 include/neolib/core/simd.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/neolib/core/simd.hpp b/include/neolib/core/simd.hpp
index b5f284d..0393df0 100644
--- a/include/neolib/core/simd.hpp
+++ b/include/neolib/core/simd.hpp
@@ -141,20 +141,20 @@ namespace neolib
             alignas(32) __m256d lhs = _mm256_set_pd(x1, y1, z1, w1);
             alignas(32) __m256d rhs = _mm256_set_pd(x2, y2, z2, w2);
             alignas(32) __m256d ans = _mm256_mul_pd(lhs, rhs);
-            a = to_scalar(ans, 0);
-            b = to_scalar(ans, 1);
-            c = to_scalar(ans, 2);
-            d = to_scalar(ans, 3);
+            a = to_scalar(ans, 3);
+            b = to_scalar(ans, 2);
+            c = to_scalar(ans, 1);
+            d = to_scalar(ans, 0);
         }
         else
         {
             alignas(32) __m256 lhs = _mm256_set_ps(x1, y1, z1, w1, 0.0f, 0.0f, 0.0f, 0.0f);
             alignas(32) __m256 rhs = _mm256_set_ps(x2, y2, z2, w2, 0.0f, 0.0f, 0.0f, 0.0f);
             alignas(32) __m256 ans = _mm256_mul_ps(lhs, rhs);
-            a = to_scalar(ans, 0);
-            b = to_scalar(ans, 1);
-            c = to_scalar(ans, 2);
-            d = to_scalar(ans, 3);
+            a = to_scalar(ans, 7);
+            b = to_scalar(ans, 6);
+            c = to_scalar(ans, 5);
+            d = to_scalar(ans, 4);
         }
     }
 #endif
-- 
2.43.0


From 745b1c0f572d9fe1e995561223e8a9f300ec95a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:03 +0000
Subject: [PATCH 085/162] fix: the four 32-bit results of simd_rand are read as
 two 64-bit lanes, past the end of the register

---
 include/neolib/core/simd.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/neolib/core/simd.hpp b/include/neolib/core/simd.hpp
index 0393df0..9b2c86e 100644
--- a/include/neolib/core/simd.hpp
+++ b/include/neolib/core/simd.hpp
@@ -82,7 +82,9 @@ namespace neolib
 #ifdef _WIN32
         return emmRegister.m128i_u32[index];
 #else
-        return emmRegister[index];
+        alignas(16) std::uint32_t lanes[4];
+        _mm_store_si128(reinterpret_cast<__m128i*>(lanes), emmRegister);
+        return lanes[index];
 #endif
     }
 #endif
-- 
2.43.0


From 04ba3d28b3fe533fa6055cbb076667c3b949b530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:03 +0000
Subject: [PATCH 086/162] fix: basic_matrix::round_to rounds negative elements
 towards zero instead of to the nearest multiple

---
 include/neolib/core/numerical.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/neolib/core/numerical.hpp b/include/neolib/core/numerical.hpp
index db0e3f8..94bb99d 100644
--- a/include/neolib/core/numerical.hpp
+++ b/include/neolib/core/numerical.hpp
@@ -993,8 +993,7 @@ namespace neolib
                 for (std::uint32_t column = 0; column < Columns; ++column)
                     for (std::uint32_t row = 0; row < Rows; ++row)
                     {
-                        std::modf((*this)[column][row] / aEpsilon + static_cast<value_type>(0.5), &result[column][row]);
-                        result[column][row] *= aEpsilon;
+                        result[column][row] = std::round((*this)[column][row] / aEpsilon) * aEpsilon;
                     }
                 return result;
             }
-- 
2.43.0


From 0e6fbcd3da9da6665b434eefe8d83751a5297038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:03 +0000
Subject: [PATCH 087/162] fix: a matrix initializer list with too many columns
 writes past the end of the matrix

---
 include/neolib/core/numerical.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/neolib/core/numerical.hpp b/include/neolib/core/numerical.hpp
index 94bb99d..a8e3430 100644
--- a/include/neolib/core/numerical.hpp
+++ b/include/neolib/core/numerical.hpp
@@ -931,7 +931,7 @@ namespace neolib
             struct rebind { using type = basic_matrix<T2, Rows, Columns>; };
         public:
             basic_matrix() : m{ {} } {}
-            basic_matrix(std::initializer_list<std::initializer_list<value_type>> aColumns) { std::copy(aColumns.begin(), aColumns.end(), m.begin()); }
+            basic_matrix(std::initializer_list<std::initializer_list<value_type>> aColumns) { if (aColumns.size() > Columns) throw std::out_of_range("neolib::basic_matrix: initializer list too big"); std::copy(aColumns.begin(), aColumns.end(), m.begin()); }
             basic_matrix(const basic_matrix& other) : m{ other.m } {}
             basic_matrix(basic_matrix&& other) : m{ std::move(other.m) } {}
             template <typename T2>
-- 
2.43.0


From b3476ed50b1f77c04af54c888b3a68c1a971778c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:00 +0000
Subject: [PATCH 088/162] fix: rotating about an axis by pi negates every
 coordinate, and the rotation between two nearly parallel or opposite vectors
 is NaN or a reflection

---
 include/neolib/core/numerical.hpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/neolib/core/numerical.hpp b/include/neolib/core/numerical.hpp
index a8e3430..64a964d 100644
--- a/include/neolib/core/numerical.hpp
+++ b/include/neolib/core/numerical.hpp
@@ -1555,8 +1555,6 @@ namespace neolib
         {
             if (std::abs(angle) <= epsilon)
                 return basic_matrix<T, 3u, 3u>::identity();
-            else if (std::abs(angle - boost::math::constants::pi<T>()) <= epsilon)
-                return -basic_matrix<T, 3u, 3u>::identity();
             T const s = std::sin(angle);
             T const c = std::cos(angle);
             T const a = static_cast<T>(1.0) - c;
@@ -1574,7 +1572,16 @@ namespace neolib
         {
             auto const nva = vectorA.normalized();
             auto const nvb = vectorB.normalized();
-            return rotation_matrix(nva.cross(nvb).normalized(), std::acos(nva.dot(nvb)), epsilon);
+            auto const angle = std::acos(std::clamp(nva.dot(nvb), static_cast<T>(-1.0), static_cast<T>(1.0)));
+            if (std::abs(angle - boost::math::constants::pi<T>()) <= epsilon)
+            {
+                // opposite vectors have no unique rotation axis: any perpendicular one will do
+                basic_vector<T, 3u> const other = std::abs(nva.x) < constants::half<T> ? 
+                    basic_vector<T, 3u>{ constants::one<T>, constants::zero<T>, constants::zero<T> } : 
+                    basic_vector<T, 3u>{ constants::zero<T>, constants::one<T>, constants::zero<T> };
+                return rotation_matrix(nva.cross(other).normalized(), angle, epsilon);
+            }
+            return rotation_matrix(nva.cross(nvb).normalized(), angle, epsilon);
         }
 
         template <std::floating_point T>
-- 
2.43.0


From 48815bf7b5cbb5ad91373bb23e013bfd53669d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:00 +0000
Subject: [PATCH 089/162] fix: aabb_transform drops the translation of the
 transformation

---
 include/neolib/core/numerical.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/neolib/core/numerical.hpp b/include/neolib/core/numerical.hpp
index 64a964d..d3e070e 100644
--- a/include/neolib/core/numerical.hpp
+++ b/include/neolib/core/numerical.hpp
@@ -2080,14 +2080,14 @@ namespace neolib
             using coordinate_t = typename Vertex::value_type;
             std::array<Vertex, 8> boxVertices =
             {
-                ((aFirstTransform * ... * aRemainingTransforms) * basic_vector<coordinate_t, 4u>{ aAabb.min.x, aAabb.min.y, aAabb.min.z, coordinate_t{} }).xyz,
-                ((aFirstTransform * ... * aRemainingTransforms) * basic_vector<coordinate_t, 4u>{ aAabb.max.x, aAabb.min.y, aAabb.min.z, coordinate_t{} }).xyz,
-                ((aFirstTransform * ... * aRemainingTransforms) * basic_vector<coordinate_t, 4u>{ aAabb.min.x, aAabb.max.y, aAabb.min.z, coordinate_t{} }).xyz,
-                ((aFirstTransform * ... * aRemainingTransforms) * basic_vector<coordinate_t, 4u>{ aAabb.max.x, aAabb.max.y, aAabb.min.z, coordinate_t{} }).xyz,
-                ((aFirstTransform * ... * aRemainingTransforms) * basic_vector<coordinate_t, 4u>{ aAabb.min.x, aAabb.min.y, aAabb.max.z, coordinate_t{} }).xyz,
-                ((aFirstTransform * ... * aRemainingTransforms) * basic_vector<coordinate_t, 4u>{ aAabb.max.x, aAabb.min.y, aAabb.max.z, coordinate_t{} }).xyz,
-                ((aFirstTransform * ... * aRemainingTransforms) * basic_vector<coordinate_t, 4u>{ aAabb.min.x, aAabb.max.y, aAabb.max.z, coordinate_t{} }).xyz,
-                ((aFirstTransform * ... * aRemainingTransforms) * basic_vector<coordinate_t, 4u>{ aAabb.max.x, aAabb.max.y, aAabb.max.z, coordinate_t{} }).xyz
+                ((aFirstTransform * ... * aRemainingTransforms) * basic_vector<coordinate_t, 4u>{ aAabb.min.x, aAabb.min.y, aAabb.min.z, constants::one<coordinate_t> }).xyz,
+                ((aFirstTransform * ... * aRemainingTransforms) * basic_vector<coordinate_t, 4u>{ aAabb.max.x, aAabb.min.y, aAabb.min.z, constants::one<coordinate_t> }).xyz,
+                ((aFirstTransform * ... * aRemainingTransforms) * basic_vector<coordinate_t, 4u>{ aAabb.min.x, aAabb.max.y, aAabb.min.z, constants::one<coordinate_t> }).xyz,
+                ((aFirstTransform * ... * aRemainingTransforms) * basic_vector<coordinate_t, 4u>{ aAabb.max.x, aAabb.max.y, aAabb.min.z, constants::one<coordinate_t> }).xyz,
+                ((aFirstTransform * ... * aRemainingTransforms) * basic_vector<coordinate_t, 4u>{ aAabb.min.x, aAabb.min.y, aAabb.max.z, constants::one<coordinate_t> }).xyz,
+                ((aFirstTransform * ... * aRemainingTransforms) * basic_vector<coordinate_t, 4u>{ aAabb.max.x, aAabb.min.y, aAabb.max.z, constants::one<coordinate_t> }).xyz,
+                ((aFirstTransform * ... * aRemainingTransforms) * basic_vector<coordinate_t, 4u>{ aAabb.min.x, aAabb.max.y, aAabb.max.z, constants::one<coordinate_t> }).xyz,
+                ((aFirstTransform * ... * aRemainingTransforms) * basic_vector<coordinate_t, 4u>{ aAabb.max.x, aAabb.max.y, aAabb.max.z, constants::one<coordinate_t> }).xyz
             };
             basic_aabb<Vertex> result{ boxVertices[0], boxVertices[0] };
             for (auto const& v : boxVertices)
-- 
2.43.0


From 919b67e88bba30d987e9fd59eb0bbba7fad891d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:00 +0000
Subject: [PATCH 090/162] fix: aabb_contains compares corners
 lexicographically, so boxes and points outside are reported as contained

---
 include/neolib/core/numerical.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/neolib/core/numerical.hpp b/include/neolib/core/numerical.hpp
index d3e070e..8e4d879 100644
--- a/include/neolib/core/numerical.hpp
+++ b/include/neolib/core/numerical.hpp
@@ -2201,13 +2201,13 @@ namespace neolib
         template <typename Vertex>
         inline bool aabb_contains(const basic_aabb<Vertex>& outer, const basic_aabb<Vertex>& inner)
         {
-            return inner.min >= outer.min && inner.max <= outer.max;
+            return inner.min.min(outer.min) == outer.min && inner.max.max(outer.max) == outer.max;
         }
 
         template <typename Vertex>
         inline bool aabb_contains(const basic_aabb<Vertex>& outer, const Vertex& point)
         {
-            return point >= outer.min && point <= outer.max;
+            return point.min(outer.min) == outer.min && point.max(outer.max) == outer.max;
         }
 
         template <typename Vertex>
@@ -2430,13 +2430,13 @@ namespace neolib
         template <typename Vertex>
         inline bool aabb_contains(const basic_aabb_2d<Vertex>& outer, const basic_aabb_2d<Vertex>& inner)
         {
-            return inner.min >= outer.min && inner.max <= outer.max;
+            return inner.min.min(outer.min) == outer.min && inner.max.max(outer.max) == outer.max;
         }
 
         template <typename Vertex>
         inline bool aabb_contains(const basic_aabb_2d<Vertex>& outer, const Vertex& point)
         {
-            return point >= outer.min && point <= outer.max;
+            return point.min(outer.min) == outer.min && point.max(outer.max) == outer.max;
         }
 
         template <typename Vertex>
-- 
2.43.0


From 2202901b57e2684d14a7ea8b3993785331c79c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:38 +0000
Subject: [PATCH 091/162] fix: the single precision rotation between two nearly
 parallel or opposite vectors is NaN

---
 include/neolib/core/numerical.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/neolib/core/numerical.hpp b/include/neolib/core/numerical.hpp
index 8e4d879..b2a67dd 100644
--- a/include/neolib/core/numerical.hpp
+++ b/include/neolib/core/numerical.hpp
@@ -1572,7 +1572,8 @@ namespace neolib
         {
             auto const nva = vectorA.normalized();
             auto const nvb = vectorB.normalized();
-            auto const angle = std::acos(std::clamp(nva.dot(nvb), static_cast<T>(-1.0), static_cast<T>(1.0)));
+            auto const axis = nva.cross(nvb);
+            auto const angle = std::atan2(axis.magnitude(), nva.dot(nvb));
             if (std::abs(angle - boost::math::constants::pi<T>()) <= epsilon)
             {
                 // opposite vectors have no unique rotation axis: any perpendicular one will do
@@ -1581,7 +1582,7 @@ namespace neolib
                     basic_vector<T, 3u>{ constants::zero<T>, constants::one<T>, constants::zero<T> };
                 return rotation_matrix(nva.cross(other).normalized(), angle, epsilon);
             }
-            return rotation_matrix(nva.cross(nvb).normalized(), angle, epsilon);
+            return rotation_matrix(axis.normalized(), angle, epsilon);
         }
 
         template <std::floating_point T>
-- 
2.43.0


From 1bccf84029377d6c6c49905fc91292b1dd5166cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:27 +0000
Subject: [PATCH 092/162] fix: copies of a small buffer allocator compare
 equal, and a copied vector does not borrow the original's buffer

---
 include/neolib/core/small_buffer_allocator.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/neolib/core/small_buffer_allocator.hpp b/include/neolib/core/small_buffer_allocator.hpp
index 93fa760..6a0f7d5 100644
--- a/include/neolib/core/small_buffer_allocator.hpp
+++ b/include/neolib/core/small_buffer_allocator.hpp
@@ -137,13 +137,17 @@ namespace neolib
     public:
         bool operator==(const basic_small_buffer_allocator& aOther) const
         {
-            return false;
+            return iBuffer == aOther.iBuffer;
         }
         bool operator!=(const basic_small_buffer_allocator& aOther) const
         {
-            return true;
+            return !(*this == aOther);
         }
     public:
+        basic_small_buffer_allocator select_on_container_copy_construction() const
+        {
+            return {};
+        }
         size_type max_size() const
         {
             return MaxSize;
-- 
2.43.0


From ebe1cb34ee46214ba9471189fa859aefcec19d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:25 +0000
Subject: [PATCH 093/162] fix: recycling an omega pool that has allocated
 nothing yet is harmless

---
 include/neolib/core/allocator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/neolib/core/allocator.hpp b/include/neolib/core/allocator.hpp
index f6cc511..29bf5ac 100644
--- a/include/neolib/core/allocator.hpp
+++ b/include/neolib/core/allocator.hpp
@@ -134,7 +134,7 @@ namespace neolib
                         std::memset(start, 0xFF, last - start);
                         reinterpret_cast<link*>(last - element_size())->iNext = (n->iNext != nullptr ? reinterpret_cast<link*>(n->iNext->iMem) : nullptr);
                     }
-                    iHead = reinterpret_cast<link*>(iChunks->iMem);
+                    iHead = (iChunks != nullptr ? reinterpret_cast<link*>(iChunks->iMem) : nullptr);
                 }
             }
             template <typename CharT, typename Traits>
-- 
2.43.0


From 1adab9739c0c3063f2b1c44fdd2e6affdec1be74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:25 +0000
Subject: [PATCH 094/162] fix: a jar that ran out of cookies stays exhausted
 rather than reissuing cookies in use

---
 include/neolib/core/jar.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/neolib/core/jar.hpp b/include/neolib/core/jar.hpp
index a65b8e3..13d791b 100644
--- a/include/neolib/core/jar.hpp
+++ b/include/neolib/core/jar.hpp
@@ -410,9 +410,9 @@ namespace neolib
                 return nextCookie;
             }
             auto const nextCookie = static_cast<cookie_type>(static_cast<underlying_cookie_type>(iNextAvailableCookie.load()) + underlying_cookie_type{ 1 });
-            iNextAvailableCookie = nextCookie;
             if (nextCookie == INVALID_COOKIE)
                 throw cookies_exhausted();
+            iNextAvailableCookie = nextCookie;
             assert(std::find(free_cookies().begin(), free_cookies().end(), nextCookie) == free_cookies().end());
             return nextCookie;
         }
@@ -730,9 +730,9 @@ namespace neolib
                 return nextCookie;
             }
             auto const nextCookie = static_cast<cookie_type>(static_cast<underlying_cookie_type>(iNextAvailableCookie.load()) + underlying_cookie_type{ 1 });
-            iNextAvailableCookie = nextCookie;
             if (nextCookie == INVALID_COOKIE)
                 throw cookies_exhausted();
+            iNextAvailableCookie = nextCookie;
             assert(std::find(free_cookies().begin(), free_cookies().end(), nextCookie) == free_cookies().end());
             return nextCookie;
         }
-- 
2.43.0


From a2eb6bdd45d8c39ff7f206d2c2c179ffcfcfb83d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:41 +0000
Subject: [PATCH 095/162] fix: an indexitor counts the whole subtree of a node
 as its own width, giving wrong ends and finding elements in skipped space

---
 include/neolib/core/indexitor.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/neolib/core/indexitor.hpp b/include/neolib/core/indexitor.hpp
index c8fa962..52e3048 100644
--- a/include/neolib/core/indexitor.hpp
+++ b/include/neolib/core/indexitor.hpp
@@ -514,7 +514,7 @@ namespace neolib
             auto n = base_type::find_node_by_foreign_index(aForeignIndex, nodeIndex, nodeForeignIndex, aPred);
             if (!n->is_nil() &&
                 !aPred(aForeignIndex - nodeForeignIndex, static_cast<node*>(n)->skip().first) &&
-                aPred(aForeignIndex - nodeForeignIndex, static_cast<node*>(n)->foreign_index() - static_cast<node*>(n)->skip().second))
+                aPred(aForeignIndex - nodeForeignIndex, static_cast<node*>(n)->centre_foreign_index() - static_cast<node*>(n)->skip().second))
                 return std::make_pair(const_iterator{*this, static_cast<node*>(n)}, nodeForeignIndex + static_cast<node*>(n)->skip().first);
             else
                 return std::make_pair(end(), foreign_index(end()));
@@ -527,7 +527,7 @@ namespace neolib
             auto n = base_type::find_node_by_foreign_index(aForeignIndex, nodeIndex, nodeForeignIndex, aPred);
             if (!n->is_nil() && 
                 !aPred(aForeignIndex - nodeForeignIndex, static_cast<node*>(n)->skip().first) &&
-                aPred(aForeignIndex - nodeForeignIndex, static_cast<node*>(n)->foreign_index() - static_cast<node*>(n)->skip().second))
+                aPred(aForeignIndex - nodeForeignIndex, static_cast<node*>(n)->centre_foreign_index() - static_cast<node*>(n)->skip().second))
                 return std::make_pair(iterator{*this, static_cast<node*>(n)}, nodeForeignIndex + static_cast<node*>(n)->skip().first);
             else
                 return std::make_pair(end(), foreign_index(end()));
@@ -537,7 +537,7 @@ namespace neolib
             if (aPosition.iNode != nullptr)
                 return do_foreign_index(aPosition.iNode) + aPosition.iNode->skip().first;
             else
-                return empty() ? foreign_index_type{} : do_foreign_index(static_cast<const node*>(base_type::back_node())) + base_type::back_node()->foreign_index();
+                return empty() ? foreign_index_type{} : do_foreign_index(static_cast<const node*>(base_type::back_node())) + base_type::back_node()->centre_foreign_index();
         }
         foreign_index_type skip_before(const_iterator aPosition) const
         {
-- 
2.43.0


From bb9d0d1bd84864c1f05eb745233c13f34f70f1cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:41 +0000
Subject: [PATCH 096/162] fix: copying an indexitor loses the skips around its
 elements

---
 include/neolib/core/indexitor.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/neolib/core/indexitor.hpp b/include/neolib/core/indexitor.hpp
index 52e3048..4d5e72e 100644
--- a/include/neolib/core/indexitor.hpp
+++ b/include/neolib/core/indexitor.hpp
@@ -315,7 +315,8 @@ namespace neolib
         indexitor(const indexitor& aOther, const Alloc& aAllocator = Alloc()) :
             iAllocator(aAllocator), iSize(0)
         {
-            insert(begin(), aOther.begin(), aOther.end());
+            for (auto i = aOther.begin(); i != aOther.end(); ++i)
+                insert(end(), *i, i.iNode->skip());
         }
         ~indexitor()
         {
-- 
2.43.0


From 3fb4492357f412ac90e9480f365444e003b51fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:54 +0000
Subject: [PATCH 097/162] fix: copying a tag_array, or assigning it to itself,
 loses its elements

---
 include/neolib/core/tag_array.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/neolib/core/tag_array.hpp b/include/neolib/core/tag_array.hpp
index 847d93e..fcbf8a0 100644
--- a/include/neolib/core/tag_array.hpp
+++ b/include/neolib/core/tag_array.hpp
@@ -363,6 +363,11 @@ namespace neolib
         {
             insert(aTag, begin(), aFirst, aLast);
         }
+        tag_array(const tag_array& aOther) :
+            base_type(aOther), iAllocator(aOther.iAllocator), iSize(0)
+        {
+            insert(begin(), aOther.begin(), aOther.end());
+        }
         ~tag_array()
         {
             erase(begin(), end());
@@ -370,8 +375,8 @@ namespace neolib
     public:
         tag_array& operator=(const tag_array& aRhs)
         {
-            clear();
-            insert(begin(), aRhs.begin(), aRhs.end());
+            tag_array newContents(aRhs);
+            newContents.swap(*this);
             return *this;
         }
     public:
-- 
2.43.0


From c945e36b410beeb664c99e0de58940006046b3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:54 +0000
Subject: [PATCH 098/162] fix: inserting tagged elements of another tag_array
 gives them the tag of the following element

---
 include/neolib/core/tag_array.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/neolib/core/tag_array.hpp b/include/neolib/core/tag_array.hpp
index fcbf8a0..eb6e4e1 100644
--- a/include/neolib/core/tag_array.hpp
+++ b/include/neolib/core/tag_array.hpp
@@ -462,7 +462,8 @@ namespace neolib
             auto pos = aPosition.iContainerPosition;
             while (aFirst != aLast)
             {
-                aPosition = insert(aFirst.segment().tag(), aPosition, 1, *aFirst++);
+                aPosition = insert(aFirst.segment().tag(), aPosition, 1, *aFirst);
+                ++aFirst;
                 ++aPosition;
             }
             return iterator(*this, pos);
-- 
2.43.0


From b8c9d105aea858d723686ea88dacb0c2a53cbb37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:54 +0000
Subject: [PATCH 099/162] fix: the tag of a tag_array node refers to a
 temporary node

---
 include/neolib/core/tag_array.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/neolib/core/tag_array.hpp b/include/neolib/core/tag_array.hpp
index eb6e4e1..6803acb 100644
--- a/include/neolib/core/tag_array.hpp
+++ b/include/neolib/core/tag_array.hpp
@@ -698,7 +698,7 @@ namespace neolib
         node* allocate_node(const tag_type& aTag, node* aAfter)
         {
             node* newNode = iAllocator.allocate(1);
-            std::allocator_traits<decltype(iAllocator)>::construct(iAllocator, newNode, node(aTag));
+            std::allocator_traits<decltype(iAllocator)>::construct(iAllocator, newNode, aTag);
             if (aAfter == nullptr)
             {
                 base_type::set_front_node(newNode);
-- 
2.43.0


From 0acdfe73e3d4c05c85e1173e24a8edff8c443484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:08 +0000
Subject: [PATCH 100/162] fix: inserting into a tag_array moves more elements
 into the next segment than it has room for

---
 include/neolib/core/tag_array.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/neolib/core/tag_array.hpp b/include/neolib/core/tag_array.hpp
index 6803acb..7497301 100644
--- a/include/neolib/core/tag_array.hpp
+++ b/include/neolib/core/tag_array.hpp
@@ -676,7 +676,7 @@ namespace neolib
                 return aPosition.iNode;
             node* lastNode = nullptr;
             if (aCount > 0 && aPosition.iNode && aPosition.iNode->next() != nullptr && 
-                aCount <= available(static_cast<node*>(aPosition.iNode->next())->segment()) 
+                std::max(aCount, aPosition.iNode->segment().size() - aPosition.iSegmentPosition) <= available(static_cast<node*>(aPosition.iNode->next())->segment()) 
                 && static_cast<node*>(aPosition.iNode->next())->segment().tag() == aTag)
             {
                 if (aPosition.iNode->segment().tag() == aTag || aPosition.iSegmentPosition == aPosition.iNode->segment().size())
-- 
2.43.0


From 382534162dcb93a356921d31d4f79591eab18daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:01 +0000
Subject: [PATCH 101/162] fix: postfix increment and decrement of a
 segmented_tree iterator leave it where it is

---
 include/neolib/core/segmented_tree.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/neolib/core/segmented_tree.hpp b/include/neolib/core/segmented_tree.hpp
index 31ac047..354f30e 100644
--- a/include/neolib/core/segmented_tree.hpp
+++ b/include/neolib/core/segmented_tree.hpp
@@ -304,10 +304,10 @@ namespace neolib
                 }
                 return *this;
             }
-            basic_iterator operator++(int) const
+            basic_iterator operator++(int)
             {
                 basic_iterator temp = *this;
-                ++temp;
+                ++*this;
                 return temp;
             }
             basic_iterator& operator--()
@@ -327,10 +327,10 @@ namespace neolib
                 }
                 return *this;
             }
-            basic_iterator operator--(int) const
+            basic_iterator operator--(int)
             {
                 basic_iterator temp = *this;
-                --temp;
+                --*this;
                 return temp;
             }
         public:
@@ -470,10 +470,10 @@ namespace neolib
                 }
                 return *this;
             }
-            basic_const_iterator operator++(int) const
+            basic_const_iterator operator++(int)
             {
                 basic_const_iterator temp = *this;
-                ++temp;
+                ++*this;
                 return temp;
             }
             basic_const_iterator& operator--()
@@ -493,10 +493,10 @@ namespace neolib
                 }
                 return *this;
             }
-            basic_const_iterator operator--(int) const
+            basic_const_iterator operator--(int)
             {
                 basic_const_iterator temp = *this;
-                --temp;
+                --*this;
                 return temp;
             }
         public:
-- 
2.43.0


From 8f348e951c2e302d8e7bcd15f261acbd5bcc50d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:01 +0000
Subject: [PATCH 102/162] fix: erasing a node of a segmented_tree leaves its
 descendents counted, and may return an iterator to nowhere

---
 include/neolib/core/segmented_tree.hpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/include/neolib/core/segmented_tree.hpp b/include/neolib/core/segmented_tree.hpp
index 354f30e..92c4538 100644
--- a/include/neolib/core/segmented_tree.hpp
+++ b/include/neolib/core/segmented_tree.hpp
@@ -210,11 +210,11 @@ namespace neolib
                 if (!is_root())
                     parent().increment_descendent_count();
             }
-            void decrement_descendent_count()
+            void decrement_descendent_count(std::size_t aCount)
             {
-                --iDescendentCount;
+                iDescendentCount -= aCount;
                 if (!is_root())
-                    parent().decrement_descendent_count();
+                    parent().decrement_descendent_count(aCount);
             }
             std::size_t skipped_descendent_count() const
             {
@@ -789,8 +789,15 @@ namespace neolib
         {
             auto mutablePos = std::next(begin(), std::distance(cbegin(), pos));
             node& parent = mutablePos.parent_node();
+            node const& garbage = mutablePos.our_node();
+            parent.decrement_skipped_descendent_count(garbage.children_skipped() ? garbage.descendent_count() : garbage.skipped_descendent_count());
+            parent.decrement_descendent_count(garbage.descendent_count() + 1);
             auto result = iterator{ parent, parent.children().erase(mutablePos.base()) };
-            parent.decrement_descendent_count();
+            while (result.base() == result.parent_node().children().end() && !result.parent_node().is_root())
+            {
+                node& ancestor = result.parent_node();
+                result = iterator{ ancestor.parent(), std::next(ancestor.parent().children().iter(ancestor)) };
+            }
             return result;
         }
         void sort()
-- 
2.43.0


From 3c999fc6a24e7a5bbbb0f417e1f4ce4cda7b7f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:01 +0000
Subject: [PATCH 103/162] fix: nodes skipped, added or erased inside skipped
 nodes of a segmented_tree are not or doubly counted as skipped

---
 include/neolib/core/segmented_tree.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/neolib/core/segmented_tree.hpp b/include/neolib/core/segmented_tree.hpp
index 92c4538..efacfbb 100644
--- a/include/neolib/core/segmented_tree.hpp
+++ b/include/neolib/core/segmented_tree.hpp
@@ -208,13 +208,21 @@ namespace neolib
             {
                 ++iDescendentCount;
                 if (!is_root())
+                {
+                    if (iSkipChildren)
+                        parent().increment_skipped_descendent_count(1);
                     parent().increment_descendent_count();
+                }
             }
             void decrement_descendent_count(std::size_t aCount)
             {
                 iDescendentCount -= aCount;
                 if (!is_root())
+                {
+                    if (iSkipChildren)
+                        parent().decrement_skipped_descendent_count(aCount);
                     parent().decrement_descendent_count(aCount);
+                }
             }
             std::size_t skipped_descendent_count() const
             {
@@ -223,13 +231,13 @@ namespace neolib
             void increment_skipped_descendent_count(std::size_t aCount)
             {
                 iSkippedDescendentCount += aCount;
-                if (!is_root())
+                if (!is_root() && !iSkipChildren)
                     parent().increment_skipped_descendent_count(aCount);
             }
             void decrement_skipped_descendent_count(std::size_t aCount)
             {
                 iSkippedDescendentCount -= aCount;
-                if (!is_root())
+                if (!is_root() && !iSkipChildren)
                     parent().decrement_skipped_descendent_count(aCount);
             }
             void update_parents(node& parent)
-- 
2.43.0


From a63c64f9a2fcf7a158bc0a2b59a782e1a86f01a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:15 +0000
Subject: [PATCH 104/162] fix: the heapsort an intrusive_sort falls back on
 leaves the last element out of the heap

---
 include/neolib/core/intrusive_sort.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/neolib/core/intrusive_sort.hpp b/include/neolib/core/intrusive_sort.hpp
index ce97414..a918231 100644
--- a/include/neolib/core/intrusive_sort.hpp
+++ b/include/neolib/core/intrusive_sort.hpp
@@ -111,7 +111,7 @@ namespace neolib
             while (start > first)
             {
                 --start;
-                siftDown(first, start, end, swapper, comp);
+                siftDown(first, start, last, swapper, comp);
             }
         }
             
-- 
2.43.0


From f5b524a507c5d201e44509dcc33154baac67de3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:15 +0000
Subject: [PATCH 105/162] fix: clearing or swapping red_black_trees leaves
 nodes referring to the nil node of another tree

---
 include/neolib/core/red_black_tree.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/neolib/core/red_black_tree.hpp b/include/neolib/core/red_black_tree.hpp
index 0fa7c6d..7a9413f 100644
--- a/include/neolib/core/red_black_tree.hpp
+++ b/include/neolib/core/red_black_tree.hpp
@@ -37,6 +37,8 @@
 #pragma once
 
 #include <neolib/neolib.hpp>
+#include <memory>
+#include <stdexcept>
 
 namespace neolib
 {
@@ -171,7 +173,7 @@ namespace neolib
 
     public:
         red_black_tree() :
-            iRoot{ nullptr }, iNil{ node::NIL }
+            iRoot{ nullptr }, iNil{ std::make_unique<node>(node::NIL) }
         {
             set_root_node(nil_node());
         }
@@ -182,12 +184,14 @@ namespace neolib
     public:
         void clear()
         {
-            *nil_node() = node{ node::NIL };
+            nil_node()->set_parent(nil_node());
+            nil_node()->set_left(nil_node());
+            nil_node()->set_right(nil_node());
             set_root_node(nil_node());
         }
         node* nil_node() const
         {
-            return &iNil;
+            return iNil.get();
         }
         node* root_node() const
         {
@@ -450,6 +454,6 @@ namespace neolib
 
     private:
         node* iRoot;
-        mutable node iNil;
+        std::unique_ptr<node> iNil;
     };
 }
-- 
2.43.0


From b4dced7270429ed20ccbe04a18658cce1b46d773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:32 +0000
Subject: [PATCH 106/162] fix: sifting down in the heapsort of an
 intrusive_sort forms iterators beyond the end of the range

---
 include/neolib/core/intrusive_sort.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/neolib/core/intrusive_sort.hpp b/include/neolib/core/intrusive_sort.hpp
index a918231..6b42a08 100644
--- a/include/neolib/core/intrusive_sort.hpp
+++ b/include/neolib/core/intrusive_sort.hpp
@@ -87,7 +87,7 @@ namespace neolib
         inline void siftDown(RandomIt first, RandomIt start, RandomIt end, Swapper swapper, Compare comp)
         {
             auto root = start;
-            while (heap_left_child(first, root) < end)
+            while (2 * std::distance(first, root) + 1 < std::distance(first, end))
             {
                 auto child = heap_left_child(first, root);
                 auto swap = root;
-- 
2.43.0


From d15057262bae5c0bec97a7c7fadef2d21630d74d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:32 +0000
Subject: [PATCH 107/162] fix: a node inserted into a red_black_tree again
 keeps the color it had

---
 include/neolib/core/red_black_tree.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/neolib/core/red_black_tree.hpp b/include/neolib/core/red_black_tree.hpp
index 7a9413f..fda00a3 100644
--- a/include/neolib/core/red_black_tree.hpp
+++ b/include/neolib/core/red_black_tree.hpp
@@ -227,6 +227,7 @@ namespace neolib
             }
             z->set_left(nil_node());
             z->set_right(nil_node());
+            z->set_color(node::RED);
             insert_fixup(z);
         }
         void delete_node(node* aNode)
-- 
2.43.0


From 7417b41bed2295e67db608555262fdf11cb3d1f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:09 +0000
Subject: [PATCH 108/162] fix: postfix increment and decrement of an
 any_iterator advance the iterator returned

---
 include/neolib/core/any_iterator.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/neolib/core/any_iterator.hpp b/include/neolib/core/any_iterator.hpp
index 7dc119e..1644b41 100644
--- a/include/neolib/core/any_iterator.hpp
+++ b/include/neolib/core/any_iterator.hpp
@@ -134,7 +134,7 @@ namespace neolib
             if (empty())
                 throw is_empty();
             any_const_iterator ret = *this;
-            ++ret;
+            ++*this;
             return ret;
         }
         any_const_iterator& operator--()
@@ -149,7 +149,7 @@ namespace neolib
             if (empty())
                 throw is_empty();
             any_const_iterator ret = *this;
-            --ret;
+            --*this;
             return ret;
         }
         friend bool operator==(const any_const_iterator& aLeft, const any_const_iterator& aRight)
@@ -290,7 +290,7 @@ namespace neolib
             if (empty())
                 throw is_empty();
             any_iterator ret = *this;
-            ++ret;
+            ++*this;
             return ret;
         }
         any_iterator& operator--()
@@ -305,7 +305,7 @@ namespace neolib
             if (empty())
                 throw is_empty();
             any_iterator ret = *this;
-            --ret;
+            --*this;
             return ret;
         }
         friend bool operator==(const any_iterator& aLeft, const any_iterator& aRight)
-- 
2.43.0


From 19895da2eda812a827d6fb42fe1cedb1e168b62f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:09 +0000
Subject: [PATCH 109/162] fix: an any_iterator holding an iterator nearly as
 large as its storage overruns it

---
 include/neolib/core/any_iterator.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/neolib/core/any_iterator.hpp b/include/neolib/core/any_iterator.hpp
index 1644b41..2d22e63 100644
--- a/include/neolib/core/any_iterator.hpp
+++ b/include/neolib/core/any_iterator.hpp
@@ -176,7 +176,7 @@ namespace neolib
         template <typename T>
         holder_base* create(const T& aData)
         {
-            if (sizeof(T) <= sizeof(iSpace.iBytes))
+            if (sizeof(holder<T>) <= sizeof(iSpace.iBytes))
                 iHolder = new (iSpace.iBytes) holder<T>(aData);
             else
                 iHolder = new holder<T>(aData);
@@ -332,7 +332,7 @@ namespace neolib
         template <typename T>
         holder_base* create(const T& aData)
         {
-            if (sizeof(T) <= sizeof(iSpace.iBytes))
+            if (sizeof(holder<T>) <= sizeof(iSpace.iBytes))
                 iHolder = new (iSpace.iBytes) holder<T>(aData);
             else
                 iHolder = new holder<T>(aData);
-- 
2.43.0


From 939d0898a13e03de645f66b2cb68cf3872a0aae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:27 +0000
Subject: [PATCH 110/162] fix: assigning an any_iterator, any_ref or
 any_const_ref to itself empties it

---
 include/neolib/core/any_iterator.hpp | 4 ++++
 include/neolib/core/any_ref.hpp      | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/include/neolib/core/any_iterator.hpp b/include/neolib/core/any_iterator.hpp
index 2d22e63..91afba1 100644
--- a/include/neolib/core/any_iterator.hpp
+++ b/include/neolib/core/any_iterator.hpp
@@ -113,6 +113,8 @@ namespace neolib
         ~any_const_iterator() { destroy(); }
         any_const_iterator& operator=(const any_const_iterator& aOther) 
         { 
+            if (&aOther == this)
+                return *this;
             destroy(); 
             if (aOther.iHolder) 
                 iHolder = aOther.iHolder->clone(*this); 
@@ -271,6 +273,8 @@ namespace neolib
         ~any_iterator() { destroy(); }
         any_iterator& operator=(const any_iterator& aOther) 
         { 
+            if (&aOther == this)
+                return *this;
             destroy(); 
             if (aOther.iHolder) 
                 iHolder = aOther.iHolder->clone(*this); 
diff --git a/include/neolib/core/any_ref.hpp b/include/neolib/core/any_ref.hpp
index 4ae9918..5b674ba 100644
--- a/include/neolib/core/any_ref.hpp
+++ b/include/neolib/core/any_ref.hpp
@@ -148,6 +148,8 @@ namespace neolib
         ~any_ref() { destroy(); }
         any_ref& operator=(const any_ref& aOther) 
         { 
+            if (&aOther == this)
+                return *this;
             destroy(); 
             if (aOther.iHolder) 
                 iHolder = aOther.iHolder->clone(iSpace.iBytes); 
@@ -188,6 +190,8 @@ namespace neolib
         ~any_const_ref() { destroy(); }
         any_const_ref& operator=(const any_const_ref& aOther) 
         { 
+            if (&aOther == this)
+                return *this;
             destroy(); 
             if (aOther.iHolder) 
                 iHolder = aOther.iHolder->clone(iSpace.iBytes); 
-- 
2.43.0


From 4bebf6e00b066d058dae3de8a41d4adc149e8fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:27 +0000
Subject: [PATCH 111/162] fix: assigning a generic_iterator copies a pointer to
 what the other owns

---
 include/neolib/core/generic_iterator.hpp | 27 ++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/include/neolib/core/generic_iterator.hpp b/include/neolib/core/generic_iterator.hpp
index 3eb0e83..7b4aa76 100644
--- a/include/neolib/core/generic_iterator.hpp
+++ b/include/neolib/core/generic_iterator.hpp
@@ -148,10 +148,19 @@ namespace neolib
         }
         virtual ~generic_iterator()
         {
-            if (iInPlace)
-                iWrappedIterator->~i_wrapper();
-            else
-                delete iWrappedIterator;
+            destroy();
+        }
+        generic_iterator& operator=(const generic_iterator& aOther)
+        {
+            if (&aOther == this)
+                return *this;
+            destroy();
+            if (aOther.iWrappedIterator != nullptr)
+            {
+                iWrappedIterator = aOther.iInPlace ? aOther.iWrappedIterator->clone(iIteratorStorage) : aOther.iWrappedIterator->clone();
+                iInPlace = aOther.iInPlace;
+            }
+            return *this;
         }
     public:
         generic_iterator& operator++()
@@ -269,6 +278,16 @@ namespace neolib
         {
             return *iWrappedIterator;
         }
+    private:
+        void destroy()
+        {
+            if (iInPlace)
+                iWrappedIterator->~i_wrapper();
+            else
+                delete iWrappedIterator;
+            iWrappedIterator = nullptr;
+            iInPlace = false;
+        }
     private:
         alignas(std::max_align_t) std::byte iIteratorStorage[sizeof(void*) * 4];
         i_wrapper* iWrappedIterator;
-- 
2.43.0


From e527cf4fa017a88c213b68db0be2e2c9092f717a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:27 +0000
Subject: [PATCH 112/162] fix: operator-> of a zip_iterator points at its
 iterators

---
 include/neolib/core/zip_iterator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/neolib/core/zip_iterator.hpp b/include/neolib/core/zip_iterator.hpp
index efd050c..2df5521 100644
--- a/include/neolib/core/zip_iterator.hpp
+++ b/include/neolib/core/zip_iterator.hpp
@@ -182,7 +182,7 @@ namespace neolib
         template <std::size_t Index>
         void set_pointer(pointer& aResult)
         {
-            std::get<Index>(aResult) = &std::get<Index>(contents());
+            std::get<Index>(aResult) = &*std::get<Index>(contents());
             if constexpr (Index < std::tuple_size<iterators>::value - 1)
                 set_pointer<Index + 1>(aResult);
         }
-- 
2.43.0


From ba5401017f55126d6db017d4f23e8f3dcadd7d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:27 +0000
Subject: [PATCH 113/162] fix: a recursion_limiter that refuses to go deeper
 still counts as a level

---
 include/neolib/core/recursion.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/neolib/core/recursion.hpp b/include/neolib/core/recursion.hpp
index bb9ca00..61bf57b 100644
--- a/include/neolib/core/recursion.hpp
+++ b/include/neolib/core/recursion.hpp
@@ -48,14 +48,16 @@ namespace neolib
         recursion_limiter() :
             iMaxDepth{ Tag::RecursionLimit }
         {
-            if (++depth() > max_depth())
+            if (depth() >= max_depth())
                 throw too_deep();
+            ++depth();
         }
         recursion_limiter(std::size_t aMaxDepth) :
             iMaxDepth{ aMaxDepth }
         {
-            if (++depth() > max_depth())
+            if (depth() >= max_depth())
                 throw too_deep();
+            ++depth();
         }
         ~recursion_limiter()
         {
-- 
2.43.0


From cdaa019a58645e35fb50e0b11e5093c6d7c0a428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:15 +0000
Subject: [PATCH 114/162] fix: swapping what two zip_iterators refer to copies
 one over the other

---
 include/neolib/core/zip_iterator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/neolib/core/zip_iterator.hpp b/include/neolib/core/zip_iterator.hpp
index 2df5521..2ec8d3f 100644
--- a/include/neolib/core/zip_iterator.hpp
+++ b/include/neolib/core/zip_iterator.hpp
@@ -216,7 +216,7 @@ namespace std
     template <typename... Iterators>
     inline void iter_swap(neolib::zip_iterator<Iterators...> a, neolib::zip_iterator<Iterators...> b)
     {
-        auto temp = *a;
+        typename neolib::zip_iterator<Iterators...>::value_type temp = *a;
         *a = *b;
         *b = temp;
     }
-- 
2.43.0


From 8288918e06bcfc09d4abed4c6236585431625af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:08 +0000
Subject: [PATCH 115/162] fix: the headers of a zip file are not their size
 where long is 64 bits wide, so no zip file can be read there

---
 include/neolib/file/zip.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/neolib/file/zip.hpp b/include/neolib/file/zip.hpp
index 94cbbdd..f7b2ef1 100644
--- a/include/neolib/file/zip.hpp
+++ b/include/neolib/file/zip.hpp
@@ -73,8 +73,8 @@ namespace neolib
         struct dir_header;
         struct dir_file_header;
         struct local_header;
-        typedef unsigned long dword;
-        typedef unsigned short word;
+        typedef uint32_t dword;
+        typedef uint16_t word;
         typedef unsigned char byte;
         std::vector<const dir_file_header*> iDirEntries;
         std::vector<std::string> iFiles;
-- 
2.43.0


From cd481b21def96b78c298bd7e72567ccd68aa1dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:08 +0000
Subject: [PATCH 116/162] fix: parsing a damaged zip file reads beyond it, or
 takes it to be a good one

---
 src/file/zip.cpp | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/file/zip.cpp b/src/file/zip.cpp
index b2c6fc3..dcd5af2 100644
--- a/src/file/zip.cpp
+++ b/src/file/zip.cpp
@@ -114,21 +114,21 @@ namespace neolib
         if (fileSize > iZipFile.max_size())
             throw zip_file_too_big();
         iZipFile.resize(static_cast<std::size_t>(fileSize));
-        iZipFileData = &iZipFile[0];
+        iZipFileData = iZipFile.data();
         iZipFileDataLength = iZipFile.size();
         std::ifstream input(aZipFilePath, std::ios::binary | std::ios::in);
-        if (input.read(reinterpret_cast<char*>(&iZipFile[0]), iZipFile.size()))
+        if (input.read(reinterpret_cast<char*>(iZipFile.data()), iZipFile.size()))
             parse();
         else
             iError = true;
     }
 
-    zip::zip(const buffer_type& aZipFile) : iZipFile{aZipFile}, iZipFileData{&iZipFile[0]}, iZipFileDataLength{iZipFile.size()}, iError{false}
+    zip::zip(const buffer_type& aZipFile) : iZipFile{aZipFile}, iZipFileData{iZipFile.data()}, iZipFileDataLength{iZipFile.size()}, iError{false}
     {
         parse();
     }
 
-    zip::zip(buffer_type&& aZipFile) : iZipFile{std::move(aZipFile)}, iZipFileData{&iZipFile[0]}, iZipFileDataLength{iZipFile.size()}, iError{false}
+    zip::zip(buffer_type&& aZipFile) : iZipFile{std::move(aZipFile)}, iZipFileData{iZipFile.data()}, iZipFileDataLength{iZipFile.size()}, iError{false}
     {
         parse();
     }
@@ -256,18 +256,22 @@ namespace neolib
             iError = true;
             return false;
         }
-        const dir_file_header* fh = reinterpret_cast<const dir_file_header*>(data_back() - (dh->iDirSize + sizeof(dir_header)) + 1);
+        if (dh->iDirSize > iZipFileDataLength - sizeof(dir_header))
+        {
+            iError = true;
+            return false;
+        }
+        const dir_file_header* fh = reinterpret_cast<const dir_file_header*>(byte_cast(dh) - dh->iDirSize);
         for (size_t i = 0; i < dh->iDirEntries; ++i)
         {
-            if (byte_cast(fh) < byte_cast(data_front()) ||
-                byte_cast(fh) + sizeof(fh->iSignature) >= byte_cast(dh))
+            if (static_cast<std::size_t>(byte_cast(dh) - byte_cast(fh)) < sizeof(dir_file_header))
             {
-                iError = false;
+                iError = true;
                 return false;
             }
             if (fh->iSignature != dir_file_header::Signature)
             {
-                iError = false;
+                iError = true;
                 return false;
             }
             else
@@ -275,7 +279,7 @@ namespace neolib
                 if (byte_cast(reinterpret_cast<const char*>(fh) + sizeof(*fh) + fh->iFilenameLength + fh->iExtraLength + fh->iCommentLength) > 
                     byte_cast(dh))
                 {
-                    iError = false;
+                    iError = true;
                     return false;
                 }
                 iDirEntries.push_back(fh);
-- 
2.43.0


From ca150b062a137f5bc18d48b214691f9331fd6a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:08 +0000
Subject: [PATCH 117/162] fix: extracting from a damaged zip file reads beyond
 it

---
 src/file/zip.cpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/file/zip.cpp b/src/file/zip.cpp
index dcd5af2..4444e3b 100644
--- a/src/file/zip.cpp
+++ b/src/file/zip.cpp
@@ -164,27 +164,26 @@ namespace neolib
     {
         if (iError)
             return false;
-        if (aIndex > iFiles.size())
+        if (aIndex >= iFiles.size())
             return false;
-        const local_header* lh = reinterpret_cast<const local_header*>(data_front() + iDirEntries[aIndex]->iHeaderOffset);
-        if (byte_cast(lh) < byte_cast(data_front()) ||
-            byte_cast(lh) > byte_cast(data_back()) - sizeof(local_header) + 1)
+        if (iZipFileDataLength < sizeof(local_header) || iDirEntries[aIndex]->iHeaderOffset > iZipFileDataLength - sizeof(local_header))
         {
             iError = true;
             return false;
         }
+        const local_header* lh = reinterpret_cast<const local_header*>(data_front() + iDirEntries[aIndex]->iHeaderOffset);
         if (lh->iSignature != local_header::Signature)
         {
             iError = true;
             return false;
         }
-        const uint8_t* compressedData = reinterpret_cast<const uint8_t*>(lh + 1) + lh->iFilenameLength + lh->iExtraLength;
-        if (byte_cast(compressedData) < byte_cast(data_front()) ||
-            byte_cast(compressedData) + lh->iCompressedSize - 1 > byte_cast(data_back()))
+        std::size_t const compressedDataOffset = iDirEntries[aIndex]->iHeaderOffset + sizeof(local_header) + lh->iFilenameLength + lh->iExtraLength;
+        if (compressedDataOffset > iZipFileDataLength || lh->iCompressedSize > iZipFileDataLength - compressedDataOffset)
         {
             iError = true;
             return false;
         }
+        const uint8_t* compressedData = data_front() + compressedDataOffset;
         if (lh->iCompression == Z_NO_COMPRESSION)
         {
             if (crc32(reinterpret_cast<const uint8_t*>(compressedData), lh->iCompressedSize) != lh->iCrc32)
-- 
2.43.0


From 825dab58ed5d0f173d5f11a45dfed319e5221905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:08 +0000
Subject: [PATCH 118/162] fix: an empty file in a zip file cannot be extracted,
 and one shorter or absurdly longer than it says is taken for it

---
 src/file/zip.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/file/zip.cpp b/src/file/zip.cpp
index 4444e3b..9183911 100644
--- a/src/file/zip.cpp
+++ b/src/file/zip.cpp
@@ -192,7 +192,7 @@ namespace neolib
                 return false;
             }
             aBuffer.resize(lh->iCompressedSize);
-            std::copy(compressedData, compressedData + aBuffer.size(), &aBuffer[0]);
+            std::copy(compressedData, compressedData + aBuffer.size(), aBuffer.data());
             return true;
         }
         else if (lh->iCompression != Z_DEFLATED)
@@ -200,11 +200,18 @@ namespace neolib
             iError = true;
             return false;
         }
+        // deflate cannot do better than 258 bytes per 2 bits
+        if (lh->iUncompressedSize / 1032 > lh->iCompressedSize)
+        {
+            iError = true;
+            return false;
+        }
         z_stream stream;
+        Bytef none = {};
         stream.next_in = static_cast<Bytef*>(const_cast<uint8_t*>(compressedData));
         stream.avail_in = static_cast<uInt>(lh->iCompressedSize);
         aBuffer.resize(lh->iUncompressedSize);
-        stream.next_out = static_cast<Bytef*>(&aBuffer[0]);
+        stream.next_out = !aBuffer.empty() ? static_cast<Bytef*>(aBuffer.data()) : &none;
         stream.avail_out = static_cast<uInt>(aBuffer.size());
         stream.zalloc = static_cast<alloc_func>(0);
         stream.zfree = static_cast<free_func>(0);
@@ -214,7 +221,7 @@ namespace neolib
             result = inflate(&stream, Z_FINISH);
             inflateEnd(&stream);
             if (result == Z_STREAM_END)
-                result = Z_OK;
+                result = (stream.total_out == aBuffer.size() ? Z_OK : Z_DATA_ERROR);
             inflateEnd(&stream);
         }
         if (result != Z_OK)
@@ -222,7 +229,7 @@ namespace neolib
             iError = true;
             return false;
         }
-        if (crc32(reinterpret_cast<const uint8_t*>(&aBuffer[0]), static_cast<uint32_t>(aBuffer.size())) != lh->iCrc32)
+        if (crc32(reinterpret_cast<const uint8_t*>(aBuffer.data()), static_cast<uint32_t>(aBuffer.size())) != lh->iCrc32)
         {
             iError = true;
             return false;
-- 
2.43.0


From 6d646966e731973f7a46dbf85014deaaa578db2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:08 +0000
Subject: [PATCH 119/162] fix: extracting a file from a zip file to a directory
 writes from a wild pointer, to wherever the path in the zip file leads

---
 src/file/zip.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/file/zip.cpp b/src/file/zip.cpp
index 9183911..3f8f3eb 100644
--- a/src/file/zip.cpp
+++ b/src/file/zip.cpp
@@ -34,6 +34,7 @@
 */
 
 #include <neolib/neolib.hpp>
+#include <algorithm>
 #include <fstream>
 #include <string>
 #include <zlib.h>
@@ -151,8 +152,14 @@ namespace neolib
         buffer_type data;
         if (extract_to(aIndex, data))
         {
+            auto const path = std::filesystem::path{ file_path(aIndex) };
+            if (path.has_root_path() || std::find(path.begin(), path.end(), "..") != path.end())
+            {
+                iError = true;
+                return false;
+            }
             std::ofstream out(aTargetDirectory + "/" + file_path(aIndex), std::ios::out | std::ios::binary);
-            out.write(reinterpret_cast<const char*>(data[0]), data.size());
+            out.write(reinterpret_cast<const char*>(data.data()), data.size());
             if (out)
                 return true;
         }
-- 
2.43.0


From db8790f8b5e2bf9a6e8b21f28327bbb25c9f2991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:30 +0000
Subject: [PATCH 120/162] fix: gunzip fails for empty content, and takes
 content that is damaged or incomplete to be good

---
 src/file/gunzip.cpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/file/gunzip.cpp b/src/file/gunzip.cpp
index b78ffa2..54f5d89 100644
--- a/src/file/gunzip.cpp
+++ b/src/file/gunzip.cpp
@@ -100,20 +100,24 @@ namespace neolib
         const char* compressedData = &*i;
         std::size_t compressedSize = aGzipData.end() - i - 8;
         i += compressedSize; 
-        unsigned long crc32 = static_cast<unsigned char>(*i++);
+        uint32_t crc32 = static_cast<unsigned char>(*i++);
         crc32 += (static_cast<unsigned char>(*i++) << 8);
         crc32 += (static_cast<unsigned char>(*i++) << 16); 
-        crc32 += (static_cast<unsigned char>(*i++) << 24);    
-        unsigned long isize = static_cast<unsigned char>(*i++); 
+        crc32 += (static_cast<uint32_t>(static_cast<unsigned char>(*i++)) << 24);
+        uint32_t isize = static_cast<unsigned char>(*i++); 
         isize += (static_cast<unsigned char>(*i++) << 8);
         isize += (static_cast<unsigned char>(*i++) << 16); 
-        isize += (static_cast<unsigned char>(*i++) << 24);
+        isize += (static_cast<uint32_t>(static_cast<unsigned char>(*i++)) << 24);
         unsigned long uncompressedSize = isize;
+        // deflate cannot do better than 258 bytes per 2 bits
+        if (uncompressedSize / 1032 > compressedSize)
+            return;
         z_stream stream;
+        Bytef none = {};
         stream.next_in = reinterpret_cast<Bytef*>(const_cast<char*>(compressedData));
         stream.avail_in = static_cast<uInt>(compressedSize);
         iUncompressedData.resize(uncompressedSize);
-        stream.next_out = reinterpret_cast<Bytef*>(&iUncompressedData[0]);
+        stream.next_out = !iUncompressedData.empty() ? reinterpret_cast<Bytef*>(iUncompressedData.data()) : &none;
         stream.avail_out = static_cast<uInt>(iUncompressedData.size());
         stream.zalloc = static_cast<alloc_func>(0);
         stream.zfree = static_cast<free_func>(0);
@@ -123,7 +127,8 @@ namespace neolib
             result = inflate(&stream, Z_FINISH);
             inflateEnd(&stream);
             if (result == Z_STREAM_END)
-                result = Z_OK;
+                result = (stream.avail_in == 0 && stream.total_out == uncompressedSize &&
+                    ::crc32(::crc32(0, NULL, 0), reinterpret_cast<const Bytef*>(iUncompressedData.data()), static_cast<uInt>(uncompressedSize)) == crc32 ? Z_OK : Z_DATA_ERROR);
             inflateEnd(&stream);
         }
         iOk = (result == Z_OK);
-- 
2.43.0


From b409b64347bb9564061009ac7004f0f66e338680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:30 +0000
Subject: [PATCH 121/162] fix: a file in a zip file whose sizes and checksum
 follow the data cannot be extracted

---
 src/file/zip.cpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/file/zip.cpp b/src/file/zip.cpp
index 3f8f3eb..7942a93 100644
--- a/src/file/zip.cpp
+++ b/src/file/zip.cpp
@@ -184,8 +184,10 @@ namespace neolib
             iError = true;
             return false;
         }
+        // a local header may leave these to a data descriptor following the data
+        auto const& entry = *iDirEntries[aIndex];
         std::size_t const compressedDataOffset = iDirEntries[aIndex]->iHeaderOffset + sizeof(local_header) + lh->iFilenameLength + lh->iExtraLength;
-        if (compressedDataOffset > iZipFileDataLength || lh->iCompressedSize > iZipFileDataLength - compressedDataOffset)
+        if (compressedDataOffset > iZipFileDataLength || entry.iCompressedSize > iZipFileDataLength - compressedDataOffset)
         {
             iError = true;
             return false;
@@ -193,12 +195,12 @@ namespace neolib
         const uint8_t* compressedData = data_front() + compressedDataOffset;
         if (lh->iCompression == Z_NO_COMPRESSION)
         {
-            if (crc32(reinterpret_cast<const uint8_t*>(compressedData), lh->iCompressedSize) != lh->iCrc32)
+            if (crc32(reinterpret_cast<const uint8_t*>(compressedData), entry.iCompressedSize) != entry.iCrc32)
             {
                 iError = true;
                 return false;
             }
-            aBuffer.resize(lh->iCompressedSize);
+            aBuffer.resize(entry.iCompressedSize);
             std::copy(compressedData, compressedData + aBuffer.size(), aBuffer.data());
             return true;
         }
@@ -208,7 +210,7 @@ namespace neolib
             return false;
         }
         // deflate cannot do better than 258 bytes per 2 bits
-        if (lh->iUncompressedSize / 1032 > lh->iCompressedSize)
+        if (entry.iUncompressedSize / 1032 > entry.iCompressedSize)
         {
             iError = true;
             return false;
@@ -216,8 +218,8 @@ namespace neolib
         z_stream stream;
         Bytef none = {};
         stream.next_in = static_cast<Bytef*>(const_cast<uint8_t*>(compressedData));
-        stream.avail_in = static_cast<uInt>(lh->iCompressedSize);
-        aBuffer.resize(lh->iUncompressedSize);
+        stream.avail_in = static_cast<uInt>(entry.iCompressedSize);
+        aBuffer.resize(entry.iUncompressedSize);
         stream.next_out = !aBuffer.empty() ? static_cast<Bytef*>(aBuffer.data()) : &none;
         stream.avail_out = static_cast<uInt>(aBuffer.size());
         stream.zalloc = static_cast<alloc_func>(0);
@@ -236,7 +238,7 @@ namespace neolib
             iError = true;
             return false;
         }
-        if (crc32(reinterpret_cast<const uint8_t*>(aBuffer.data()), static_cast<uint32_t>(aBuffer.size())) != lh->iCrc32)
+        if (crc32(reinterpret_cast<const uint8_t*>(aBuffer.data()), static_cast<uint32_t>(aBuffer.size())) != entry.iCrc32)
         {
             iError = true;
             return false;
-- 
2.43.0


From 99a69184656270a8c78d5c256143f8ad1f310076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:05 +0000
Subject: [PATCH 122/162] fix: unescaping part of a uri loses an escape at its
 end, and a percent sign that is not an escape

---
 src/io/uri.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/io/uri.cpp b/src/io/uri.cpp
index eaa6d99..4ee4303 100644
--- a/src/io/uri.cpp
+++ b/src/io/uri.cpp
@@ -192,16 +192,17 @@ namespace neolib
 
     std::string uri::unescaped(const std::string& aString)
     {
-        std::string escaped;
+        auto const is_hex_digit = [](char ch) { return std::isxdigit(static_cast<unsigned char>(ch)) != 0; };
+        std::string unescaped;
         for (auto i = aString.begin(); i != aString.end(); ++i)
-            if (*i != '%')
-                escaped += *i;
-            else if (i < aString.end() - 3)
+            if (*i == '%' && aString.end() - i >= 3 && is_hex_digit(i[1]) && is_hex_digit(i[2]))
             {
-                escaped += static_cast<char>(string_to_uint32(std::string{ i + 1, i + 3 }, 16));
+                unescaped += static_cast<char>(string_to_uint32(std::string{ i + 1, i + 3 }, 16));
                 i += 2;
             }
-        return escaped;
+            else
+                unescaped += *i;
+        return unescaped;
     }
 
     std::string uri::parse_path(const std::string& aRest)
-- 
2.43.0


From 48a533d470f4885f86fcbf0103034b9982af7096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:05 +0000
Subject: [PATCH 123/162] fix: parsing a uri reads parts that are not there,
 and drops what follows a second separator

---
 src/io/uri.cpp | 41 ++++++++++++++++++++---------------------
 1 file changed, 20 insertions(+), 21 deletions(-)

diff --git a/src/io/uri.cpp b/src/io/uri.cpp
index 4ee4303..46f0287 100644
--- a/src/io/uri.cpp
+++ b/src/io/uri.cpp
@@ -207,38 +207,37 @@ namespace neolib
 
     std::string uri::parse_path(const std::string& aRest)
     {
-        neolib::vecarray<std::pair<std::string::const_iterator, std::string::const_iterator>, 2> bits;
-        std::string sep{ "/" };
-        neolib::tokens(aRest.begin(), aRest.end(), sep.begin(), sep.end(), bits, 2, false, false);
-        if (bits.size() == 2)
-            iPath = unescaped(std::string{ bits[1].first, aRest.end() });
-        return std::string{ bits[0].first, bits[0].second };
+        auto const pos = aRest.find('/');
+        if (pos == std::string::npos)
+            return aRest;
+        iPath = unescaped(aRest.substr(pos + 1));
+        return aRest.substr(0, pos);
     }
 
     std::string uri::parse_query(const std::string& aRest)
     {
-        neolib::vecarray<std::string, 2> bits;
-        neolib::tokens(aRest, std::string{ "?" }, bits, 2, false, false);
-        if (bits.size() == 2)
-            iQuery = unescaped(bits[1]);
-        return bits.front();
+        auto const pos = aRest.find('?');
+        if (pos == std::string::npos)
+            return aRest;
+        iQuery = unescaped(aRest.substr(pos + 1));
+        return aRest.substr(0, pos);
     }
 
     std::string uri::parse_fragment(const std::string& aRest)
     {
-        neolib::vecarray<std::string, 2> bits;
-        neolib::tokens(aRest, std::string{ "#" }, bits, 2, false, false);
-        if (bits.size() == 2)
-            iFragment = unescaped(bits[1]);
-        return bits.front();
+        auto const pos = aRest.find('#');
+        if (pos == std::string::npos)
+            return aRest;
+        iFragment = unescaped(aRest.substr(pos + 1));
+        return aRest.substr(0, pos);
     }
 
     std::string uri::parse_scheme(const std::string& aRest)
     {
-        neolib::vecarray<std::string, 2> bits;
-        neolib::tokens(aRest, std::string{ "://" }, bits, 2, false, true);
-        if (bits.size() == 2)
-            iScheme = unescaped(bits[0]);
-        return bits.back();
+        auto const pos = aRest.find("://");
+        if (pos == std::string::npos || pos != aRest.find_first_of(":/?#"))
+            return aRest;
+        iScheme = unescaped(aRest.substr(0, pos));
+        return aRest.substr(pos + 3);
     }
 }
-- 
2.43.0


From 727d45fc90f6d852a1f81554559ad8e615fe1ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:05 +0000
Subject: [PATCH 124/162] fix: the host of a uri that is an IPv6 address is
 taken apart at its colons, and a port too large is taken for another one

---
 src/io/uri.cpp | 45 ++++++++++++++++++++-------------------------
 1 file changed, 20 insertions(+), 25 deletions(-)

diff --git a/src/io/uri.cpp b/src/io/uri.cpp
index 46f0287..b5ba965 100644
--- a/src/io/uri.cpp
+++ b/src/io/uri.cpp
@@ -66,39 +66,34 @@ namespace neolib
 
     std::string uri_authority::parse_user_information(const std::string& aRest)
     {
-        neolib::vecarray<std::pair<std::string::const_iterator, std::string::const_iterator>, 2> bits;
-        std::string sep("@");
-        neolib::tokens(aRest.begin(), aRest.end(), sep.begin(), sep.end(), bits, 2, false, false);
-        if (bits.size() == 2)
-        {
-            iUserInformation = std::string{ bits[0].first, bits[0].second };
-            return std::string{ bits[1].first, bits[1].second };
-        }
-        else if (bits.size() == 1)
-            return std::string{ bits[0].first, bits[0].second };
-        else
-            return {};
+        auto const pos = aRest.rfind('@');
+        if (pos == std::string::npos)
+            return aRest;
+        iUserInformation = aRest.substr(0, pos);
+        return aRest.substr(pos + 1);
     }
 
     std::string uri_authority::parse_host(const std::string& aRest)
     {
-        neolib::vecarray<std::pair<std::string::const_iterator, std::string::const_iterator>, 2> bits;
-        std::string sep(":");
-        neolib::tokens(aRest.begin(), aRest.end(), sep.begin(), sep.end(), bits, 2, false, false);
-        if (bits.size() == 2)
-        {
-            iHost = std::string{ bits[0].first, bits[0].second };
-            return std::string(bits[1].first, bits[1].second);
-        }
-        else if (bits.size() == 1)
-            iHost = std::string(bits[0].first, bits[0].second);
-        return {};
+        if (aRest.empty())
+            return {};
+        // an IPv6 address in brackets has colons of its own
+        auto const closing = (aRest[0] == '[' ? aRest.find(']') : std::string::npos);
+        auto const pos = aRest.find(':', closing != std::string::npos ? closing : 0);
+        iHost = aRest.substr(0, pos);
+        return pos != std::string::npos ? aRest.substr(pos + 1) : std::string{};
     }
 
     void uri_authority::parse_port(const std::string& aRest)
     {
-        if (!aRest.empty())
-            iPort = static_cast<port_type>(std::stoi(aRest));
+        if (aRest.empty())
+            return;
+        if (aRest.find_first_not_of("0123456789") != std::string::npos)
+            throw std::invalid_argument("neolib::uri_authority::parse_port");
+        auto const port = std::stoul(aRest);
+        if (port > std::numeric_limits<port_type>::max())
+            throw std::out_of_range("neolib::uri_authority::parse_port");
+        iPort = static_cast<port_type>(port);
     }
 
     uri::uri()
-- 
2.43.0


From b1ea73ac1460899d5cf7c7d6d5e8224fdb031bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:05 +0000
Subject: [PATCH 125/162] fix: the string of a uri does not escape what would
 be taken for a separator or escape in its parts

---
 include/neolib/io/uri.hpp | 8 ++++----
 src/io/uri.cpp            | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/neolib/io/uri.hpp b/include/neolib/io/uri.hpp
index c8a2256..c92b99c 100644
--- a/include/neolib/io/uri.hpp
+++ b/include/neolib/io/uri.hpp
@@ -85,7 +85,7 @@ namespace neolib
         void set_query(const std::string& aQuery);
         void set_fragment(const std::string& aFragment);
     public:
-        static std::string escaped(const std::string& aString);
+        static std::string escaped(const std::string& aString, const std::string& aReserved = {});
         static std::string unescaped(const std::string& String);
     private:
         void parse_authority(const std::string& aRest);
@@ -116,11 +116,11 @@ namespace neolib
     template <typename Elem, typename Traits>
     inline std::basic_ostream<Elem, Traits>& operator<<(std::basic_ostream<Elem, Traits>& aStream, const uri& aUri)
     {
-        aStream << uri::escaped(aUri.scheme()) << "://" << aUri.authority() << "/" << uri::escaped(aUri.path());
+        aStream << uri::escaped(aUri.scheme(), "%:/?#") << "://" << aUri.authority() << "/" << uri::escaped(aUri.path(), "%?#");
         if (!aUri.query().empty())
-            aStream << "?" << uri::escaped(aUri.query());
+            aStream << "?" << uri::escaped(aUri.query(), "%#");
         if (!aUri.fragment().empty())
-            aStream << "#" << uri::escaped(aUri.fragment());
+            aStream << "#" << uri::escaped(aUri.fragment(), "%#");
         return aStream;
     }
 }
diff --git a/src/io/uri.cpp b/src/io/uri.cpp
index b5ba965..a8cae46 100644
--- a/src/io/uri.cpp
+++ b/src/io/uri.cpp
@@ -167,7 +167,7 @@ namespace neolib
         iAuthority = uri_authority(aRest);
     }
 
-    std::string uri::escaped(const std::string& aString)
+    std::string uri::escaped(const std::string& aString, const std::string& aReserved)
     {
         static const std::unordered_set<char> sUrlChars = 
         {
@@ -178,7 +178,7 @@ namespace neolib
         };
         std::string escaped;
         for (auto ch : aString)
-            if (sUrlChars.find(ch) != sUrlChars.end())
+            if (sUrlChars.find(ch) != sUrlChars.end() && aReserved.find(ch) == std::string::npos)
                 escaped += ch;
             else
                 escaped += "%" + uint32_to_string<char>(static_cast<uint8_t>(ch), 16, 2);
-- 
2.43.0


From 7314903ab0f4af77c9500c6ec233d4668510a694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:28 +0000
Subject: [PATCH 126/162] fix: the handle added to an ecs is written beyond the
 end of its handles

---
 src/ecs/ecs.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ecs/ecs.cpp b/src/ecs/ecs.cpp
index 0d5d91c..df7ee22 100644
--- a/src/ecs/ecs.cpp
+++ b/src/ecs/ecs.cpp
@@ -539,7 +539,7 @@ namespace neolib::ecs
         std::unique_lock lock{ mutex() };
         auto nextHandleId = next_handle_id();
         if (iHandles.size() <= nextHandleId)
-            iHandles.resize(nextHandleId);
+            iHandles.resize(nextHandleId + 1);
         iHandles[nextHandleId] = aHandle;
         return nextHandleId;
     }
-- 
2.43.0


From 76523ef1ea7e880195b7b4564616ccdbd4ada65f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:54 +0000
Subject: [PATCH 127/162] fix: looking up a handle an ecs never issued reads
 beyond its handles

---
 src/ecs/ecs.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ecs/ecs.cpp b/src/ecs/ecs.cpp
index df7ee22..8d60a4b 100644
--- a/src/ecs/ecs.cpp
+++ b/src/ecs/ecs.cpp
@@ -531,6 +531,8 @@ namespace neolib::ecs
     ecs::handle_t ecs::to_handle(handle_id aId) const
     {
         std::unique_lock lock{ mutex() };
+        if (iHandles.size() <= aId)
+            throw invalid_handle_id();
         return iHandles[aId];
     }
 
-- 
2.43.0


From 7b1919c67a8eecc98e5b434691f296508f7ced3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:27:35 +0000
Subject: [PATCH 128/162] fix: an entity destroyed asynchronously twice, or
 destroyed before that is committed, is destroyed twice and its id issued
 twice

---
 src/ecs/ecs.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ecs/ecs.cpp b/src/ecs/ecs.cpp
index 8d60a4b..c0d02e8 100644
--- a/src/ecs/ecs.cpp
+++ b/src/ecs/ecs.cpp
@@ -388,7 +388,8 @@ namespace neolib::ecs
     {
         {
             scoped_component_data_lock<entity_info> lock{ *this };
-            component<entity_info>().entity_record(aEntityId).destroyed = true;
+            if (component<entity_info>().entity_record(aEntityId).destroyed.exchange(true))
+                return;
         }
         {
             std::unique_lock lock{ entity_mutex() };
@@ -410,7 +411,10 @@ namespace neolib::ecs
         {
             auto next = entitiesToDestroy.back();
             entitiesToDestroy.pop_back();
-            destroy_entity(next.first, next.second);
+            auto const& infos = component<entity_info>();
+            // destroyed by other means since?
+            if (infos.has_entity_record(next.first) && infos.entity_record(next.first).destroyed)
+                destroy_entity(next.first, next.second);
         }
     }
 
-- 
2.43.0


From afcd6eb12c873463413f211be3ad78ee145c6cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:27:35 +0000
Subject: [PATCH 129/162] fix: destroying the record of an entity that is in a
 snapshot too releases its handles twice

---
 include/neolib/ecs/component.hpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/include/neolib/ecs/component.hpp b/include/neolib/ecs/component.hpp
index 81c9f71..3748127 100644
--- a/include/neolib/ecs/component.hpp
+++ b/include/neolib/ecs/component.hpp
@@ -360,6 +360,18 @@ namespace neolib::ecs
                 throw entity_record_not_found();
             if constexpr (data_meta_type::has_handles)
                 data_meta_type::free_handles(base_type::component_data()[reverseIndex], ecs());
+            remove_entity_record(aEntity, reverseIndex);
+            if (have_snapshot())
+            {
+                auto ss = snapshot();
+                std::scoped_lock<component_mutex<Data>> snapshotLock{ ss.data().mutex() };
+                if (ss.data().has_entity_record(aEntity)) // its handles are those of the record destroyed
+                    ss.data().remove_entity_record(aEntity, ss.data().reverse_index(aEntity));
+            }
+        }
+    private:
+        void remove_entity_record(entity_id aEntity, reverse_index_t reverseIndex)
+        {
             std::swap(base_type::component_data()[reverseIndex], base_type::component_data().back());
             base_type::component_data().pop_back();
             auto tailEntity = entities().back();
@@ -367,13 +379,8 @@ namespace neolib::ecs
             entities().pop_back();
             reverse_indices()[tailEntity] = reverseIndex;
             reverse_indices()[aEntity] = invalid;
-            if (have_snapshot())
-            {
-                auto ss = snapshot();
-                if (ss.data().has_entity_record(aEntity))
-                    ss.data().destroy_entity_record(aEntity);
-            }
         }
+    public:
         value_type& populate(entity_id aEntity, const value_type& aData)
         {
             std::scoped_lock<component_mutex<Data>> lock{ mutex() };
-- 
2.43.0


From 4eb4fce9ed80959ad4444c442cc0f0de4614f1bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:59 +0000
Subject: [PATCH 130/162] fix: a scoped_multi_lock unlocks mutexes added to its
 container after it was locked

---
 include/neolib/core/mutex.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/neolib/core/mutex.hpp b/include/neolib/core/mutex.hpp
index c96824c..4f37367 100644
--- a/include/neolib/core/mutex.hpp
+++ b/include/neolib/core/mutex.hpp
@@ -512,16 +512,18 @@ namespace neolib
     {
     public:
         scoped_multi_lock(Mutexes& aMutexes) :
-            iMutexes{ aMutexes }
+            iMutexes{ aMutexes }, iCount{ static_cast<std::size_t>(std::distance(aMutexes.begin(), aMutexes.end())) }
         {
             boost::lock(iMutexes.begin(), iMutexes.end());
         }
         ~scoped_multi_lock()
         {
-            for (auto& m : iMutexes)
-                m.unlock();
+            // mutexes may have been added since
+            for (auto [m, n] = std::make_pair(iMutexes.begin(), iCount); n > 0; ++m, --n)
+                m->unlock();
         }
     private:
         Mutexes& iMutexes;
+        std::size_t iCount;
     };
 }
\ No newline at end of file
-- 
2.43.0


From 113bb298d9602752e5cb5968d2b7d59f9dee6d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:37 +0000
Subject: [PATCH 131/162] fix: the thread of an ecs system reads the pointer to
 it while that is written, both when it starts and when it is stopped

---
 include/neolib/ecs/system.hpp | 4 ++++
 src/ecs/system.cpp            | 7 ++++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/neolib/ecs/system.hpp b/include/neolib/ecs/system.hpp
index f3efa8b..7523c2c 100644
--- a/include/neolib/ecs/system.hpp
+++ b/include/neolib/ecs/system.hpp
@@ -59,6 +59,7 @@ namespace neolib::ecs
         thread(i_system& aOwner);
         ~thread();
     public:
+        void stop();
         bool do_work(neolib::yield_type aYieldType = neolib::yield_type::NoYield) final;
     private:
         i_system& iOwner;
@@ -160,6 +161,8 @@ namespace neolib::ecs
         }
         void terminate() final
         {
+            if (have_thread())
+                get_thread().stop();
             iThread = nullptr;
         }
         bool waiting() const final
@@ -215,6 +218,7 @@ namespace neolib::ecs
         void start_thread() final
         {
             iThread = std::make_unique<thread>(*this);
+            iThread->start();
         }
     public:
         bool debug() const final
diff --git a/src/ecs/system.cpp b/src/ecs/system.cpp
index 2c2d0c0..ec5b235 100644
--- a/src/ecs/system.cpp
+++ b/src/ecs/system.cpp
@@ -41,14 +41,19 @@ namespace neolib::ecs
     thread::thread(i_system& aOwner) : 
         async_task{ "neolib::ecs::thread" }, async_thread{ *this, "neolib::ecs::thread" }, iOwner{ aOwner }
     {
-        start();
     }
 
     thread::~thread()
+    {
+        stop();
+    }
+
+    void thread::stop()
     {
         set_destroying();
         if (iOwner.waiting())
             iOwner.signal();
+        async_task::cancel();
     }
 
     bool thread::do_work(neolib::yield_type aYieldType)
-- 
2.43.0


From 642b7f362698e780bd601248b71610462905f169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:45:39 +0000
Subject: [PATCH 132/162] fix: an ecs system is destroyed while its thread is
 still on its way in or out

---
 src/ecs/system.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ecs/system.cpp b/src/ecs/system.cpp
index ec5b235..c97c357 100644
--- a/src/ecs/system.cpp
+++ b/src/ecs/system.cpp
@@ -54,6 +54,8 @@ namespace neolib::ecs
         if (iOwner.waiting())
             iOwner.signal();
         async_task::cancel();
+        if (started())
+            abort();
     }
 
     bool thread::do_work(neolib::yield_type aYieldType)
-- 
2.43.0


From 1d423b62f22e0b55e8e540582e6aabf38cd6a101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:45:39 +0000
Subject: [PATCH 133/162] fix: resuming or stopping an ecs system misses its
 thread about to wait, and one whose wait timed out is taken to be waiting
 still

---
 include/neolib/ecs/i_system.hpp |  1 +
 include/neolib/ecs/system.hpp   | 28 +++++++++++++++++++++++++---
 src/ecs/system.cpp              |  7 +++----
 3 files changed, 29 insertions(+), 7 deletions(-)

diff --git a/include/neolib/ecs/i_system.hpp b/include/neolib/ecs/i_system.hpp
index e47315c..69896cc 100644
--- a/include/neolib/ecs/i_system.hpp
+++ b/include/neolib/ecs/i_system.hpp
@@ -76,6 +76,7 @@ namespace neolib::ecs
         virtual void terminate() = 0;
         virtual bool waiting() const = 0;
         virtual void wait() = 0;
+        virtual void wait_while_paused() = 0;
         virtual void wait_for(primitives::scalar aDuration) = 0;
         virtual void signal() = 0;
     public:
diff --git a/include/neolib/ecs/system.hpp b/include/neolib/ecs/system.hpp
index 7523c2c..e59a112 100644
--- a/include/neolib/ecs/system.hpp
+++ b/include/neolib/ecs/system.hpp
@@ -156,8 +156,17 @@ namespace neolib::ecs
         }
         void resume() final
         {
-            if (--iPaused == 0 && waiting())
-                signal();
+            bool doIt = false;
+            {
+                std::unique_lock<std::mutex> lock{ iMutex };
+                if (--iPaused == 0 && iWaiting)
+                {
+                    iWaiting = false;
+                    doIt = true;
+                }
+            }
+            if (doIt)
+                iCondVar.notify_one();
         }
         void terminate() final
         {
@@ -175,9 +184,21 @@ namespace neolib::ecs
                 throw no_thread();
             if (!get_thread().in())
                 throw wrong_thread();
+            std::unique_lock<std::mutex> lock{ iMutex };
             if (!get_thread().is_alive())
                 return;
+            iWaiting = true;
+            iCondVar.wait(lock, [&]() { return !iWaiting; });
+        }
+        void wait_while_paused() final
+        {
+            if (!have_thread())
+                throw no_thread();
+            if (!get_thread().in())
+                throw wrong_thread();
             std::unique_lock<std::mutex> lock{ iMutex };
+            if (!paused() || !get_thread().is_alive())
+                return;
             iWaiting = true;
             iCondVar.wait(lock, [&]() { return !iWaiting; });
         }
@@ -187,11 +208,12 @@ namespace neolib::ecs
                 throw no_thread();
             if (!get_thread().in())
                 throw wrong_thread();
+            std::unique_lock<std::mutex> lock{ iMutex };
             if (!get_thread().is_alive())
                 return;
-            std::unique_lock<std::mutex> lock{ iMutex };
             iWaiting = true;
             iCondVar.wait_for(lock, std::chrono::duration<double>(aDuration), [&](){ return !iWaiting; });
+            iWaiting = false;
         }
         void signal() final
         {
diff --git a/src/ecs/system.cpp b/src/ecs/system.cpp
index c97c357..d94023c 100644
--- a/src/ecs/system.cpp
+++ b/src/ecs/system.cpp
@@ -51,8 +51,7 @@ namespace neolib::ecs
     void thread::stop()
     {
         set_destroying();
-        if (iOwner.waiting())
-            iOwner.signal();
+        iOwner.signal();
         async_task::cancel();
         if (started())
             abort();
@@ -63,8 +62,8 @@ namespace neolib::ecs
         bool didWork = async_task::do_work(aYieldType);
         if (iOwner.can_apply())
             didWork = iOwner.apply() || didWork;
-        if (iOwner.paused() && !iOwner.waiting())
-            iOwner.wait();
+        if (iOwner.paused())
+            iOwner.wait_while_paused();
         return didWork;
     }
 }
\ No newline at end of file
-- 
2.43.0


From b07b246d829dc7686710ceb6eb994f47d720baeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:34 +0000
Subject: [PATCH 134/162] fix: the clock of an ecs gives its fields the wrong
 types, and none to one of them

---
 include/neolib/ecs/clock.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/neolib/ecs/clock.hpp b/include/neolib/ecs/clock.hpp
index c09e13c..a5cc9bd 100644
--- a/include/neolib/ecs/clock.hpp
+++ b/include/neolib/ecs/clock.hpp
@@ -128,9 +128,9 @@ namespace neolib::ecs
                     return component_data_field_type::Int64 | component_data_field_type::Atomic;
                 case 1:
                     return component_data_field_type::Int64;
-                case 3:
+                case 2:
                     return component_data_field_type::Float64;
-                case 4:
+                case 3:
                     return component_data_field_type::Int64;
                 default:
                     throw invalid_field_index();
-- 
2.43.0


From 59da4712c7cd37047b5c07d7b2d36989926b0187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:16:25 +0000
Subject: [PATCH 135/162] fix: a copy of an object with a lifetime shares the
 state of the original, which is taken for destroyed when the copy is

---
 include/neolib/core/lifetime.hpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/include/neolib/core/lifetime.hpp b/include/neolib/core/lifetime.hpp
index 3f36f7f..6686f8d 100644
--- a/include/neolib/core/lifetime.hpp
+++ b/include/neolib/core/lifetime.hpp
@@ -110,7 +110,10 @@ namespace neolib
         typedef neolib::destroyed_flag destroyed_flag;
     public:
         lifetime(lifetime_state aState = lifetime_state::Alive);
+        lifetime(const lifetime& aOther);
         virtual ~lifetime();
+    public:
+        lifetime& operator=(const lifetime& aOther);
     public:
         lifetime_state object_state() const final;
         i_ref_ptr<i_lifetime_control_block>& object_state_ptr() const final;
@@ -130,6 +133,19 @@ namespace neolib
     {
     }
 
+    template <typename Base>
+    inline lifetime<Base>::lifetime(const lifetime& aOther) : Base{ aOther }, iState{ make_ref<lifetime_control_block>(lifetime_state::Alive) }
+    {
+    }
+
+    template <typename Base>
+    inline lifetime<Base>& lifetime<Base>::operator=(const lifetime& aOther)
+    {
+        // an object stays in its own state
+        Base::operator=(aOther);
+        return *this;
+    }
+
     template <typename Base>
     inline lifetime<Base>::~lifetime()
     {
-- 
2.43.0


From 3b7aa21d81ebb25e4a59732101d188f6f9b518d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:16:25 +0000
Subject: [PATCH 136/162] fix: setting the service provider there is already
 loses all its services, and it

---
 src/core/service.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core/service.cpp b/src/core/service.cpp
index 5ca35a4..4dafb0b 100644
--- a/src/core/service.cpp
+++ b/src/core/service.cpp
@@ -96,6 +96,8 @@ namespace neolib::services
 
         void migrate_to(i_service_provider& aOtherProvider) final
         {
+            if (&aOtherProvider == this)
+                return;
             std::scoped_lock lock{ mutex, aOtherProvider };
             for (auto& service : services)
                 aOtherProvider.register_service(*service.second, service.first);
@@ -145,6 +147,8 @@ namespace neolib::services
     {
         auto& instance = get_service_provider_instance();
         std::unique_lock lock{ instance.mutex };
+        if (instance.instance.get() == &aServiceProvider)
+            return;
         auto previous = instance.instance;
         instance.instance = std::shared_ptr<i_service_provider>{ std::shared_ptr<i_service_provider>{}, &aServiceProvider };
         if (previous != nullptr)
-- 
2.43.0


From 90b084991488e1c67ff36eefd8d9821080ea84e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:16:25 +0000
Subject: [PATCH 137/162] fix: an object announces that it is about to be
 destroyed after it announced that it is

---
 include/neolib/app/object.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/neolib/app/object.hpp b/include/neolib/app/object.hpp
index f142e89..1c928df 100644
--- a/include/neolib/app/object.hpp
+++ b/include/neolib/app/object.hpp
@@ -75,6 +75,7 @@ namespace neolib
         {
             if (!is_destroyed())
             {
+                set_destroying();
                 Destroyed.trigger();
                 base_type::set_destroyed();
             }
-- 
2.43.0


From c5bd09c547e19c6ebeafc80fd2ca1c7983cd7042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:17:59 +0000
Subject: [PATCH 138/162] fix: setting a service provider takes its locks in
 the opposite order to starting a service and may deadlock with it

---
 src/core/service.cpp | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/core/service.cpp b/src/core/service.cpp
index 4dafb0b..c7dbb93 100644
--- a/src/core/service.cpp
+++ b/src/core/service.cpp
@@ -146,12 +146,28 @@ namespace neolib::services
     void set_service_provider(i_service_provider& aServiceProvider)
     {
         auto& instance = get_service_provider_instance();
-        std::unique_lock lock{ instance.mutex };
-        if (instance.instance.get() == &aServiceProvider)
-            return;
-        auto previous = instance.instance;
-        instance.instance = std::shared_ptr<i_service_provider>{ std::shared_ptr<i_service_provider>{}, &aServiceProvider };
-        if (previous != nullptr)
+        auto const next = std::shared_ptr<i_service_provider>{ std::shared_ptr<i_service_provider>{}, &aServiceProvider };
+        for (;;)
+        {
+            std::unique_lock lock{ instance.mutex };
+            if (instance.instance.get() == &aServiceProvider)
+                return;
+            auto const previous = instance.instance;
+            if (previous == nullptr)
+            {
+                instance.instance = next;
+                return;
+            }
+            // a provider is locked before the instance is, as when a service is started
+            lock.unlock();
+            std::scoped_lock providerLock{ *previous, aServiceProvider };
+            lock.lock();
+            if (instance.instance != previous)
+                continue;
+            instance.instance = next;
+            lock.unlock();
             previous->migrate_to(aServiceProvider);
+            return;
+        }
     }
 }
-- 
2.43.0


From 927a0d48146f00d36ac971bef2742476a9b04c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:22:04 +0000
Subject: [PATCH 139/162] fix: a file whose name is not UTF-8 is not found, and
 asking for it throws

---
 src/file/file.cpp | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/file/file.cpp b/src/file/file.cpp
index 90debd7..6553183 100644
--- a/src/file/file.cpp
+++ b/src/file/file.cpp
@@ -119,9 +119,21 @@ namespace neolib
 #endif
     }
 
+    namespace
+    {
+        std::filesystem::path native_path(const std::string& aPath)
+        {
+#ifdef _WIN32
+            return convert_path(aPath);
+#else
+            return aPath; // file names are any bytes
+#endif
+        }
+    }
+
     bool file_exists(const std::string& aPath)
     {
-        return std::filesystem::exists(convert_path(aPath));
+        return std::filesystem::exists(native_path(aPath));
     }
 
     bool file_exists(const std::wstring& aPath)
@@ -131,7 +143,7 @@ namespace neolib
 
     std::time_t file_date(const std::string& aPath)
     {
-        auto const fileDate = std::filesystem::last_write_time(convert_path(aPath));
+        auto const fileDate = std::filesystem::last_write_time(native_path(aPath));
         return std::chrono::system_clock::to_time_t(std::chrono::system_clock::now() + (fileDate - std::chrono::file_clock::now()));
     }
 
@@ -164,7 +176,7 @@ namespace neolib
 
     unsigned long file_size(const std::string& aPath)
     {
-        return static_cast<unsigned long>(std::filesystem::file_size(convert_path(aPath)));
+        return static_cast<unsigned long>(std::filesystem::file_size(native_path(aPath)));
     }
 
     unsigned long file_size(const std::wstring& aPath)
@@ -174,7 +186,7 @@ namespace neolib
 
     unsigned long long large_file_size(const std::string& aPath)
     {
-        return std::filesystem::file_size(convert_path(aPath));
+        return std::filesystem::file_size(native_path(aPath));
     }
 
     unsigned long long large_file_size(const std::wstring& aPath)
@@ -210,8 +222,8 @@ namespace neolib
     bool move_file(const std::string& aPathFrom, const std::string& aPathTo)
     {
         std::error_code ec;
-        std::filesystem::create_directories(std::filesystem::path(convert_path(aPathTo)).parent_path());
-        std::filesystem::rename(convert_path(aPathFrom), convert_path(aPathTo), ec);
+        std::filesystem::create_directories(native_path(aPathTo).parent_path());
+        std::filesystem::rename(native_path(aPathFrom), native_path(aPathTo), ec);
         return !ec;
     }
 
-- 
2.43.0


From 4544bee1740229bd724d1deb8dd829025fd193f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:22:04 +0000
Subject: [PATCH 140/162] fix: moving a file to a path without a directory, or
 to where none can be made, throws

---
 src/file/file.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/file/file.cpp b/src/file/file.cpp
index 6553183..ad030ed 100644
--- a/src/file/file.cpp
+++ b/src/file/file.cpp
@@ -222,7 +222,9 @@ namespace neolib
     bool move_file(const std::string& aPathFrom, const std::string& aPathTo)
     {
         std::error_code ec;
-        std::filesystem::create_directories(native_path(aPathTo).parent_path());
+        auto const directory = native_path(aPathTo).parent_path();
+        if (!directory.empty())
+            std::filesystem::create_directories(directory, ec);
         std::filesystem::rename(native_path(aPathFrom), native_path(aPathTo), ec);
         return !ec;
     }
-- 
2.43.0


From d98468174aae974fd4d51011119cb6d84b6f17c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:22:04 +0000
Subject: [PATCH 141/162] fix: the date of a file is off by a second now and
 then

---
 src/file/file.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/file/file.cpp b/src/file/file.cpp
index ad030ed..162f12e 100644
--- a/src/file/file.cpp
+++ b/src/file/file.cpp
@@ -35,6 +35,7 @@
 */
 
 #include <neolib/neolib.hpp>
+#include <chrono>
 #include <filesystem>
 #ifdef _WIN32
 #include <WINNLS.H>
@@ -141,16 +142,24 @@ namespace neolib
         return std::filesystem::exists(aPath);
     }
 
+    namespace
+    {
+        std::time_t to_time_t(std::filesystem::file_time_type aFileDate)
+        {
+            return std::chrono::system_clock::to_time_t(std::chrono::floor<std::chrono::seconds>(std::chrono::clock_cast<std::chrono::system_clock>(aFileDate)));
+        }
+    }
+
     std::time_t file_date(const std::string& aPath)
     {
         auto const fileDate = std::filesystem::last_write_time(native_path(aPath));
-        return std::chrono::system_clock::to_time_t(std::chrono::system_clock::now() + (fileDate - std::chrono::file_clock::now()));
+        return to_time_t(fileDate);
     }
 
     std::time_t file_date(const std::wstring& aPath)
     {
         auto const fileDate = std::filesystem::last_write_time(aPath);
-        return std::chrono::system_clock::to_time_t(std::chrono::system_clock::now() + (fileDate - std::chrono::file_clock::now()));
+        return to_time_t(fileDate);
     }
 
     bool can_read_file(const std::string& aPath)
-- 
2.43.0


From d63eb947da77e9a398e9c2e6d61ccbc4e14a6ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:22:04 +0000
Subject: [PATCH 142/162] fix: the extension of a file without one in a
 directory with one is taken from the directory

---
 src/file/file.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/file/file.cpp b/src/file/file.cpp
index 162f12e..1041918 100644
--- a/src/file/file.cpp
+++ b/src/file/file.cpp
@@ -205,16 +205,16 @@ namespace neolib
 
     std::string file_ext(const std::string& aPath)
     {
-        std::string::size_type pos = aPath.find_last_of('.');
-        if (pos != std::string::npos && pos != aPath.size() - 1)
+        std::string::size_type pos = aPath.find_last_of("./");
+        if (pos != std::string::npos && aPath[pos] == '.' && pos != aPath.size() - 1)
             return aPath.substr(pos + 1);
         return "";
     }
 
     std::wstring file_ext(const std::wstring& aPath)
     {
-        std::wstring::size_type pos = aPath.find_last_of(L'.');
-        if (pos != std::wstring::npos && pos != aPath.size() - 1)
+        std::wstring::size_type pos = aPath.find_last_of(L"./");
+        if (pos != std::wstring::npos && aPath[pos] == L'.' && pos != aPath.size() - 1)
             return aPath.substr(pos + 1);
         return L"";
     }
-- 
2.43.0


From 19feee9fa31081a93f3e9d93c92da434a3653b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:22:04 +0000
Subject: [PATCH 143/162] fix: asking for the directories of a user the system
 has no record of crashes

---
 src/file/file.cpp | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/file/file.cpp b/src/file/file.cpp
index 1041918..c0486bf 100644
--- a/src/file/file.cpp
+++ b/src/file/file.cpp
@@ -255,6 +255,20 @@ namespace neolib
         return std::filesystem::path(program_file()).parent_path().string();
     }
 
+#ifndef _WIN32
+    namespace
+    {
+        std::string home_directory()
+        {
+            struct passwd* pw = getpwuid(getuid());
+            if (pw != nullptr && pw->pw_dir != nullptr)
+                return pw->pw_dir;
+            char const* home = std::getenv("HOME");
+            return home != nullptr ? home : "/";
+        }
+    }
+#endif
+
     std::string user_documents_directory()
     {
 #ifdef _WIN32
@@ -264,9 +278,7 @@ namespace neolib
         CoTaskMemFree(result);
         return path;
 #else
-        struct passwd* pw = getpwuid(getuid());
-        const char* homedir = pw->pw_dir;
-        return homedir;
+        return home_directory();
 #endif
     }
 
@@ -279,9 +291,7 @@ namespace neolib
         CoTaskMemFree(result);
         return path;
 #else
-        struct passwd* pw = getpwuid(getuid());
-        const char* homedir = pw->pw_dir;
-        return homedir;
+        return home_directory();
 #endif
     }
 
-- 
2.43.0


From 528eddd641aaa009ad27d4ae0b4c9465106bf85e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:22:04 +0000
Subject: [PATCH 144/162] fix: a hex dump leaves the stream writing hexadecimal

---
 include/neolib/file/hexdump.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/neolib/file/hexdump.hpp b/include/neolib/file/hexdump.hpp
index 76164f1..8bc2d9d 100644
--- a/include/neolib/file/hexdump.hpp
+++ b/include/neolib/file/hexdump.hpp
@@ -47,6 +47,8 @@ namespace neolib
         const char* const start = static_cast<const char*>(aData);
         const char* const end = start + aLength;
         const char* line = start;
+        auto const flags = aStream.flags();
+        auto const fill = aStream.fill();
         while (line != end)
         {
             aStream.width(4);
@@ -79,5 +81,7 @@ namespace neolib
             aStream << std::endl;
             line = line + lineLength;
         }
+        aStream.flags(flags);
+        aStream.fill(fill);
     }
 }
-- 
2.43.0


From 1668ccb5174d253d1b61b30b0671f5f6bbb545fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:31:01 +0000
Subject: [PATCH 145/162] fix: a line ended by a carriage return which arrives
 separately is joined to the next line

---
 include/neolib/io/string_packet.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/neolib/io/string_packet.hpp b/include/neolib/io/string_packet.hpp
index 07c5a9e..801f1d9 100644
--- a/include/neolib/io/string_packet.hpp
+++ b/include/neolib/io/string_packet.hpp
@@ -135,8 +135,11 @@ namespace neolib
             if (aFirst == aLast)
                 return false;
 
+            const_pointer const delimiters = aFirst;
             if (skip_delimiters(aFirst, aLast))
                 return true;
+            if (aFirst != delimiters && !contents().empty())
+                return true;
 
             if (aFirst == aLast)
                 return false;
-- 
2.43.0


From 3d9caedd5232ca199417f57a31ccd6714bd6df8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:32 +0000
Subject: [PATCH 146/162] fix: a packet connection which is closed or destroyed
 while it looks its host up is used after that

---
 include/neolib/io/packet_connection.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/neolib/io/packet_connection.hpp b/include/neolib/io/packet_connection.hpp
index e9ff670..af5e39a 100644
--- a/include/neolib/io/packet_connection.hpp
+++ b/include/neolib/io/packet_connection.hpp
@@ -107,10 +107,10 @@ namespace neolib
             {
             }
         public:
-            void handle_resolve(const boost::system::error_code& aError, typename resolver_type::results_type::iterator aEndPointIterator)
+            void handle_resolve(const boost::system::error_code& aError, const typename resolver_type::results_type& aResults)
             {
                 if (!iParentDestroyed && !iOrphaned)
-                    iParent.handle_resolve(aError, aEndPointIterator);
+                    iParent.handle_resolve(aError, aResults);
             }
             void handle_connect(const boost::system::error_code& aError)
             {
@@ -395,9 +395,9 @@ namespace neolib
             if (!iRemoteHostName.empty())
             {
                 iResolver.async_resolve(iRemoteHostName, uint32_to_string<char>(iRemotePort),
-                    [&](const boost::system::error_code& ec, resolver_type::results_type results)
+                    [proxy = iHandlerProxy](const boost::system::error_code& ec, resolver_type::results_type results)
                     {
-                        handle_resolve(ec, results);
+                        proxy->handle_resolve(ec, results);
                     });
             }
         }
-- 
2.43.0


From 2293f64c25e4649b8634b47bbabd174f50be4a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:32 +0000
Subject: [PATCH 147/162] fix: a packet connection closed while it had packets
 to send sends none after it is opened again, or packets that are gone

---
 include/neolib/io/packet_connection.hpp | 2 ++
 include/neolib/io/packet_stream.hpp     | 1 +
 2 files changed, 3 insertions(+)

diff --git a/include/neolib/io/packet_connection.hpp b/include/neolib/io/packet_connection.hpp
index af5e39a..194862f 100644
--- a/include/neolib/io/packet_connection.hpp
+++ b/include/neolib/io/packet_connection.hpp
@@ -256,6 +256,8 @@ namespace neolib
             iSocketHolder = none;
             bool wasConnected = iConnected;
             iConnected = false;
+            iSendQueue.clear();
+            iPacketBeingSent = nullptr;
             iReceiveBufferPtr = &buffer()[0];
             if (wasConnected)
                 iOwner.handle_connection_closed();
diff --git a/include/neolib/io/packet_stream.hpp b/include/neolib/io/packet_stream.hpp
index c7b8147..52e509e 100644
--- a/include/neolib/io/packet_stream.hpp
+++ b/include/neolib/io/packet_stream.hpp
@@ -173,6 +173,7 @@ namespace neolib
         }
         void handle_connection_closed() override
         {
+            remove_all_packets();
             ConnectionClosed.trigger();
         }
         orphaned_queue_item remove_packet(const packet_type& aPacket)
-- 
2.43.0


From f2aaf025f1d9087413d504141691f8111a1818b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:32 +0000
Subject: [PATCH 148/162] fix: what was received of a packet before a
 connection was closed begins the first packet of the next

---
 include/neolib/io/packet_connection.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/neolib/io/packet_connection.hpp b/include/neolib/io/packet_connection.hpp
index 194862f..7c0a8ac 100644
--- a/include/neolib/io/packet_connection.hpp
+++ b/include/neolib/io/packet_connection.hpp
@@ -236,6 +236,7 @@ namespace neolib
                     iSecureStreamContext.reset(new secure_stream_context(boost::asio::ssl::context::sslv23));
                 iSocketHolder = secure_stream_pointer(new secure_stream_type(iIoTask.io_context().native_object<boost::asio::io_context>(), *iSecureStreamContext));
             }
+            iReceivePacket->clear();
             if (aAcceptingSocket)
                 return true;
             boost::system::error_code ec;
-- 
2.43.0


From 8c8da9d4258c9e337d776460a1bea2d5f9a5078b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:32 +0000
Subject: [PATCH 149/162] fix: a packet connection closed by the handler of a
 packet goes on delivering packets, and one opened again by a handler is
 closed

---
 include/neolib/io/packet_connection.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/neolib/io/packet_connection.hpp b/include/neolib/io/packet_connection.hpp
index 7c0a8ac..4479039 100644
--- a/include/neolib/io/packet_connection.hpp
+++ b/include/neolib/io/packet_connection.hpp
@@ -555,6 +555,7 @@ namespace neolib
             destroyed_flag destroyed{ *this };
             if (closed())
                 return;
+            auto const proxy = iHandlerProxy;
             const_packet_pointer sentPacket = iPacketBeingSent;
             iPacketBeingSent = nullptr;
             if (!aError)
@@ -569,7 +570,7 @@ namespace neolib
                 iError = true;
                 iErrorCode = aError;
                 iOwner.handle_transfer_failure(*sentPacket, aError);
-                if (destroyed)
+                if (destroyed || proxy != iHandlerProxy)
                     return;
                 close();
             }
@@ -579,6 +580,7 @@ namespace neolib
             destroyed_flag destroyed{ *this };
             if (closed())
                 return;
+            auto const proxy = iHandlerProxy;
             if (!aError)
             {
                 typename packet_type::const_pointer start = reinterpret_cast<typename packet_type::pointer>(&buffer()[0]);
@@ -588,7 +590,7 @@ namespace neolib
                     if (!iReceivePacket->empty())
                     {
                         iOwner.handle_packet_arrived(*iReceivePacket);
-                        if (destroyed)
+                        if (destroyed || proxy != iHandlerProxy)
                             return;
                         iReceivePacket->clear();
                     }
@@ -607,7 +609,7 @@ namespace neolib
                     iErrorCode = aError;
                     iReceivePacket->clear();
                     iOwner.handle_transfer_failure(*iReceivePacket, aError);
-                    if (destroyed)
+                    if (destroyed || proxy != iHandlerProxy)
                         return;
                 }
                 close();  
-- 
2.43.0


From f0b51ad0c4d2bd436dd2d6385c059f9a1b8b0f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:32 +0000
Subject: [PATCH 150/162] fix: sending an empty packet throws and stops the
 packets after it

---
 include/neolib/io/packet_connection.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/neolib/io/packet_connection.hpp b/include/neolib/io/packet_connection.hpp
index 4479039..a6f4831 100644
--- a/include/neolib/io/packet_connection.hpp
+++ b/include/neolib/io/packet_connection.hpp
@@ -505,7 +505,7 @@ namespace neolib
             {
                 boost::asio::async_write(
                     socket(), 
-                    boost::asio::buffer(iPacketBeingSent->data(), iPacketBeingSent->length()),
+                    boost::asio::buffer(iPacketBeingSent->begin(), iPacketBeingSent->length()),
                     boost::bind(
                         &handler_proxy::handle_write, 
                         iHandlerProxy,
@@ -516,7 +516,7 @@ namespace neolib
             {
                 boost::asio::async_write(
                     secure_stream(), 
-                    boost::asio::buffer(iPacketBeingSent->data(), iPacketBeingSent->length()),
+                    boost::asio::buffer(iPacketBeingSent->begin(), iPacketBeingSent->length()),
                     boost::bind(
                         &handler_proxy::handle_write, 
                         iHandlerProxy,
-- 
2.43.0


From 318b370a427910edb2e35bef8fda9741d5cdf7a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:32 +0000
Subject: [PATCH 151/162] fix: a secure packet connection is connected before
 its handshake, and sends packets during it

---
 include/neolib/io/packet_connection.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/neolib/io/packet_connection.hpp b/include/neolib/io/packet_connection.hpp
index a6f4831..fba872d 100644
--- a/include/neolib/io/packet_connection.hpp
+++ b/include/neolib/io/packet_connection.hpp
@@ -447,9 +447,9 @@ namespace neolib
                 return;
             if (!aError)
             {
-                iConnected = true;
                 if (!secure())
                 {
+                    iConnected = true;
                     destroyed_flag destroyed{ *this };
                     iOwner.handle_connection_established();
                     if (destroyed)
@@ -477,6 +477,7 @@ namespace neolib
                 return;
             if (!aError)
             {
+                iConnected = true;
                 destroyed_flag destroyed{ *this };
                 iOwner.handle_connection_established();
                 if (destroyed)
-- 
2.43.0


From 519335fef4e23115ce29ce6a1d4125ca686dcee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:32 +0000
Subject: [PATCH 152/162] fix: closing a secure packet connection destroys its
 stream, and what it was sending, while operations on them are pending

---
 include/neolib/io/packet_connection.hpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/neolib/io/packet_connection.hpp b/include/neolib/io/packet_connection.hpp
index fba872d..c0c497f 100644
--- a/include/neolib/io/packet_connection.hpp
+++ b/include/neolib/io/packet_connection.hpp
@@ -135,6 +135,7 @@ namespace neolib
             void orphan(bool aCreateNewHandlerProxy = true)
             {
                 iOrphaned = true;
+                iOrphanedSocket = iParent.iSocketHolder; // operations pending on a secure stream refer to it
                 if (aCreateNewHandlerProxy)
                     iParent.iHandlerProxy = std::make_shared<handler_proxy>(iParent);
                 else
@@ -144,6 +145,7 @@ namespace neolib
             destroyed_flag iParentDestroyed;
             our_type& iParent;
             bool iOrphaned = false;
+            socket_holder_type iOrphanedSocket;
             std::shared_ptr<receive_buffer> iReceiveBuffer;
         };
 
@@ -515,14 +517,14 @@ namespace neolib
             }
             else
             {
+                std::shared_ptr<const packet_type> packet = iPacketBeingSent->clone();
                 boost::asio::async_write(
                     secure_stream(), 
-                    boost::asio::buffer(iPacketBeingSent->begin(), iPacketBeingSent->length()),
-                    boost::bind(
-                        &handler_proxy::handle_write, 
-                        iHandlerProxy,
-                        boost::asio::placeholders::error,
-                        boost::asio::placeholders::bytes_transferred));
+                    boost::asio::buffer(packet->begin(), packet->length()),
+                    [proxy = iHandlerProxy, packet](const boost::system::error_code& ec, size_t bytesTransferred)
+                    {
+                        proxy->handle_write(ec, bytesTransferred);
+                    });
             }
         }
         void receive_any()
-- 
2.43.0


From 58c7580909bd832b04b8e9c225dabeffc75f43fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:29:56 +0000
Subject: [PATCH 153/162] fix: a logger walks the buffers of its threads while
 others are added to or removed from them

---
 include/neolib/app/logger.hpp | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/include/neolib/app/logger.hpp b/include/neolib/app/logger.hpp
index abb534c..55bc803 100644
--- a/include/neolib/app/logger.hpp
+++ b/include/neolib/app/logger.hpp
@@ -245,22 +245,17 @@ namespace neolib
             {
                 if (!iLoggingThread || std::this_thread::get_id() == iLoggingThread->get_id())
                 {
+                    thread_local buffer_t tempBuffer;
                     {
                         std::lock_guard<std::recursive_mutex> lg{ mutex() };
                         for (auto& entry : buffers())
                         {
-                            auto& buffers = entry.second;
-                            std::swap(buffers.first, buffers.second);
-                        }
-                    }
-                    thread_local buffer_t tempBuffer;
-                    for (auto& entry : buffers())
-                    {
-                        auto& buffer = *entry.second.second;
-                        if (!buffer.empty())
-                        {
-                            tempBuffer += buffer;
-                            buffer.clear();
+                            auto& buffer = *entry.second.first;
+                            if (!buffer.empty())
+                            {
+                                tempBuffer += buffer;
+                                buffer.clear();
+                            }
                         }
                     }
                     commit(tempBuffer);
-- 
2.43.0


From 98e64ff9834a6490a3de7f7ef6cd589981833a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:29:56 +0000
Subject: [PATCH 154/162] fix: waiting for a logger ends before what was logged
 is written

---
 include/neolib/app/logger.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/neolib/app/logger.hpp b/include/neolib/app/logger.hpp
index 55bc803..474bbfb 100644
--- a/include/neolib/app/logger.hpp
+++ b/include/neolib/app/logger.hpp
@@ -273,6 +273,7 @@ namespace neolib
                         using namespace std::chrono_literals;
                         std::this_thread::sleep_for(10ms);
                     }
+                    std::lock_guard<std::mutex> lk{ commit_signal_mutex() }; // held while a commit is in progress
                 }
             }
         protected:
-- 
2.43.0


From 6860fc962af97ba0e019f887c77aa18ae640fed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:29:56 +0000
Subject: [PATCH 155/162] fix: what a thread logged is lost if it ends before
 that is committed

---
 include/neolib/app/logger.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/neolib/app/logger.hpp b/include/neolib/app/logger.hpp
index 474bbfb..7824764 100644
--- a/include/neolib/app/logger.hpp
+++ b/include/neolib/app/logger.hpp
@@ -376,7 +376,9 @@ namespace neolib
                         {
                             parent.wait();
                             std::lock_guard<std::recursive_mutex> lg{ parent.mutex() };
-                            parent.buffers().erase(std::this_thread::get_id());
+                            auto existing = parent.buffers().find(std::this_thread::get_id());
+                            if (existing != parent.buffers().end() && existing->second.first->empty())
+                                parent.buffers().erase(existing);
                         }
                     }
                 } cleanup{ *this, *this };
-- 
2.43.0


From 8a50c65caa009d4d6bf49561d496088f21b5432c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:29:56 +0000
Subject: [PATCH 156/162] fix: a logger with a logging thread which was
 finalized terminates the program when destroyed

---
 include/neolib/app/logger.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/neolib/app/logger.hpp b/include/neolib/app/logger.hpp
index 7824764..d31a20c 100644
--- a/include/neolib/app/logger.hpp
+++ b/include/neolib/app/logger.hpp
@@ -215,7 +215,7 @@ namespace neolib
             }
             void join_logging_thread()
             {
-                if (iLoggingThread)
+                if (iLoggingThread && iLoggingThread->joinable())
                     iLoggingThread->join();
             }
             severity message_severity() const
-- 
2.43.0


From 28e167ae4919d1eda8fbb2fac1e41ce2bc85a3ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:29:56 +0000
Subject: [PATCH 157/162] fix: asking a logger whether a category is enabled by
 its own id type yields nothing

---
 include/neolib/app/i_logger.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/neolib/app/i_logger.hpp b/include/neolib/app/i_logger.hpp
index 1445b73..ae6ad54 100644
--- a/include/neolib/app/i_logger.hpp
+++ b/include/neolib/app/i_logger.hpp
@@ -170,9 +170,9 @@ namespace neolib
                 register_category(static_cast<category_id>(aId), string{ aName });
             }
             template <typename IdType>
-            void category_enabled(IdType aId)
+            bool category_enabled(IdType aId)
             {
-                category_enabled(static_cast<category_id>(aId));
+                return category_enabled(static_cast<category_id>(aId));
             }
             template <typename IdType>
             void enable_category(IdType aId)
-- 
2.43.0


From e726421fb3a84ab39c9595247f6cf80b7936a593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:29:56 +0000
Subject: [PATCH 158/162] fix: the line id of a logger is read and reset while
 other threads log

---
 include/neolib/app/logger.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/neolib/app/logger.hpp b/include/neolib/app/logger.hpp
index d31a20c..40fa5d5 100644
--- a/include/neolib/app/logger.hpp
+++ b/include/neolib/app/logger.hpp
@@ -176,10 +176,12 @@ namespace neolib
         public:
             line_id_t line_id() const final
             {
+                std::lock_guard<std::recursive_mutex> lg{ mutex() };
                 return iLineId;
             }
             void reset_line_id(line_id_t aLineId = DefaultInitialLineId) final
             {
+                std::lock_guard<std::recursive_mutex> lg{ mutex() };
                 iLineId = aLineId;
             }
         public:
-- 
2.43.0


From 4f37c255f8e0db9046619c3df0f62fbfa90c47cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:32:14 +0000
Subject: [PATCH 159/162] fix: asking a logger whether a category is enabled by
 its own id recurses until the stack is used up

---
 include/neolib/app/i_logger.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/neolib/app/i_logger.hpp b/include/neolib/app/i_logger.hpp
index ae6ad54..7dec4f6 100644
--- a/include/neolib/app/i_logger.hpp
+++ b/include/neolib/app/i_logger.hpp
@@ -170,7 +170,7 @@ namespace neolib
                 register_category(static_cast<category_id>(aId), string{ aName });
             }
             template <typename IdType>
-            bool category_enabled(IdType aId)
+            bool category_enabled(IdType aId) const
             {
                 return category_enabled(static_cast<category_id>(aId));
             }
-- 
2.43.0


From b23ab72f5d118779237d6398d043d855a1dd8274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:41:18 +0000
Subject: [PATCH 160/162] fix: text which is no value is converted to an
 indeterminate one

---
 include/neolib/core/string_utils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/neolib/core/string_utils.hpp b/include/neolib/core/string_utils.hpp
index 8d6d0c3..dc2fbab 100644
--- a/include/neolib/core/string_utils.hpp
+++ b/include/neolib/core/string_utils.hpp
@@ -107,7 +107,7 @@ namespace neolib
             return aValueAsString;
         else
         {
-            T result;
+            T result{};
             std::istringstream iss{ aValueAsString };
             iss >> result;
             return result;
-- 
2.43.0


From 11c0a7f0c26eef2daea131b343c6498f1bc492e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:41:18 +0000
Subject: [PATCH 161/162] fix: a setting whose key begins the key of another is
 given an empty value when that one was saved

---
 src/app/settings.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/app/settings.cpp b/src/app/settings.cpp
index 32e72cb..3f04afe 100644
--- a/src/app/settings.cpp
+++ b/src/app/settings.cpp
@@ -86,7 +86,7 @@ namespace neolib
                 if (!node)
                     break;
             }
-            if (node)
+            if (node && (**node).has_attribute("value"))
             {
                 aSetting.set_value_from_string(string{ (**node).attribute_value("value") });
                 aSetting.apply_change();
-- 
2.43.0


From 6c11802098adcc5d19175cdeaee09f1e35ae9235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:41:18 +0000
Subject: [PATCH 162/162] fix: settings of 8-bit integers and floating point
 numbers do not survive being saved

---
 include/neolib/app/setting.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/neolib/app/setting.hpp b/include/neolib/app/setting.hpp
index a2be373..247dfa7 100644
--- a/include/neolib/app/setting.hpp
+++ b/include/neolib/app/setting.hpp
@@ -159,7 +159,12 @@ namespace neolib
         using i_setting::value_as_string;
         void value_as_string(i_string& aValue, bool aUnappliedNew = false) const override
         {
-            aValue = to_string(value(aUnappliedNew).template get<T>());
+            if constexpr (std::is_same_v<T, int8_t> || std::is_same_v<T, uint8_t>)
+                aValue = to_string(static_cast<int>(value(aUnappliedNew).template get<T>())); // not a character
+            else if constexpr (std::is_floating_point_v<T>)
+                aValue = string{ std::format("{}", value(aUnappliedNew).template get<T>()) }; // every digit that matters
+            else
+                aValue = to_string(value(aUnappliedNew).template get<T>());
         }
         using i_setting::set_default_value;
         void set_default_value(i_setting_value const& aDefaultValue) override
@@ -195,7 +200,10 @@ namespace neolib
         }
         void set_value_from_string(i_string const& aNewValue) override
         {
-            set_value(setting_value<T>{ from_string<T>(aNewValue) });
+            if constexpr (std::is_same_v<T, int8_t> || std::is_same_v<T, uint8_t>)
+                set_value(setting_value<T>{ static_cast<T>(from_string<int>(aNewValue)) });
+            else
+                set_value(setting_value<T>{ from_string<T>(aNewValue) });
         }
         void clear() override
         {
-- 
2.43.0

