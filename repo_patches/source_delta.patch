From 47a4124f80b724db30f55e912cf75de0d32407e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:39 +0000
Subject: [PATCH 01/42] fix: do not modify the catalogues passed to filters,
 merges and compilers

slices.Delete/DeleteFunc worked in place, so CutHeader, Clean*, OmitHeader,
ManageHeader and the MO compiler (without depuration) reordered or overwrote
the caller's entries; appends to shared location and flag slices could do so
too.
---
 internal/slices/slices.go    | 25 ++++++++++++-------------
 pkg/po/compile/mo_compile.go |  3 ++-
 pkg/po/entries.go            |  4 ++--
 pkg/po/entry.go              |  2 +-
 pkg/po/msgcat_merge.go       |  2 +-
 5 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/internal/slices/slices.go b/internal/slices/slices.go
index 416117b..9eb6849 100644
--- a/internal/slices/slices.go
+++ b/internal/slices/slices.go
@@ -42,27 +42,26 @@ func Contains[S ~[]E, E comparable](s S, v E) bool {
 	return Index(s, v) >= 0
 }
 
+// DeleteFunc returns a copy of s without the elements for which del is true.
+// Unlike the standard library, it never modifies s.
 func DeleteFunc[S ~[]E, E any](s S, del func(E) bool) S {
-	for i, v := range s {
-		if del(v) {
-			j := i
-			for i++; i < len(s); i++ {
-				v = s[i]
-				if !del(v) {
-					s[j] = v
-					j++
-				}
-			}
-			return s[:j]
+	var kept S
+	for _, v := range s {
+		if !del(v) {
+			kept = append(kept, v)
 		}
 	}
-	return s
+	return kept
 }
 
+// Delete returns a copy of s without the elements s[i:j].
+// Unlike the standard library, it never modifies s.
 func Delete[S ~[]E, E any](s S, i, j int) S {
 	_ = s[i:j]
 
-	return append(s[:i], s[j:]...)
+	kept := make(S, 0, len(s)-(j-i))
+	kept = append(kept, s[:i]...)
+	return append(kept, s[j:]...)
 }
 
 func IsSortedFunc[S ~[]E, E any](x S, cmp func(a, b E) int) bool {
diff --git a/pkg/po/compile/mo_compile.go b/pkg/po/compile/mo_compile.go
index e5e75e8..75ac49c 100644
--- a/pkg/po/compile/mo_compile.go
+++ b/pkg/po/compile/mo_compile.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"io"
 
+	"github.com/Tom5521/gotext-tools/v2/internal/slices"
 	"github.com/Tom5521/gotext-tools/v2/internal/util"
 	"github.com/Tom5521/gotext-tools/v2/pkg/po"
 )
@@ -61,7 +62,7 @@ func (mc *MoCompiler) writeTo(writer io.Writer) error {
 	}
 	if mc.Config.SortEntries {
 		mc.info("sorting entries...")
-		entries = entries.SortFunc(po.CompareEntryByID)
+		entries = slices.Clone(entries).SortFunc(po.CompareEntryByID)
 	}
 	mc.info("creating header...")
 	var hashTabSize u32
diff --git a/pkg/po/entries.go b/pkg/po/entries.go
index 0db5337..600e05e 100644
--- a/pkg/po/entries.go
+++ b/pkg/po/entries.go
@@ -140,7 +140,7 @@ func (e Entries) CleanObsoletes() Entries {
 // CleanDuplicates removes duplicate entries with the same ID and context, merging their locations.
 func (e Entries) CleanDuplicates() Entries {
 	return e.SolveFunc(func(a, b Entry) *Entry {
-		a.Locations = append(a.Locations, b.Locations...)
+		a.Locations = append(slices.Clip(a.Locations), b.Locations...)
 		return &a
 	})
 }
@@ -215,7 +215,7 @@ func SolveMerge(a, b Entry) *Entry {
 	}
 
 	// Combine the Locations from both entries.
-	preferred.Locations = append(a.Locations, b.Locations...)
+	preferred.Locations = append(slices.Clip(a.Locations), b.Locations...)
 
 	// Choose the preferred Str and Plurals based on CompareEntryByStr.
 	if CompareEntryByStr(a, b) > 0 {
diff --git a/pkg/po/entry.go b/pkg/po/entry.go
index 2600b32..f758de1 100644
--- a/pkg/po/entry.go
+++ b/pkg/po/entry.go
@@ -36,7 +36,7 @@ func (e *Entry) markAsObsolete() { e.Obsolete = true }
 // markAsFuzzy adds the "fuzzy" flag to the entry if not already present.
 func (e *Entry) markAsFuzzy() {
 	if !e.IsFuzzy() {
-		e.Flags = append(e.Flags, "fuzzy")
+		e.Flags = append(slices.Clip(e.Flags), "fuzzy")
 	}
 }
 
diff --git a/pkg/po/msgcat_merge.go b/pkg/po/msgcat_merge.go
index 757ea5e..1365619 100644
--- a/pkg/po/msgcat_merge.go
+++ b/pkg/po/msgcat_merge.go
@@ -167,7 +167,7 @@ func msgcatMergeEntry(
 			newFilename,
 		),
 		Locations: append(
-			originalEntry.Locations,
+			slices.Clip(originalEntry.Locations),
 			newEntry.Locations...,
 		),
 	}
-- 
2.43.0


From 8bece004fdb19a48d9af5aadb960b0f6e31730cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:45 +0000
Subject: [PATCH 02/42] fix: msgcat keeps the header, unions flags and plural
 forms, marks only conflicts fuzzy

---
 pkg/po/msgcat_merge.go | 113 +++++++++++++++++++++++++----------------
 1 file changed, 68 insertions(+), 45 deletions(-)

diff --git a/pkg/po/msgcat_merge.go b/pkg/po/msgcat_merge.go
index 1365619..9028947 100644
--- a/pkg/po/msgcat_merge.go
+++ b/pkg/po/msgcat_merge.go
@@ -64,8 +64,9 @@ func MsgcatMergeFiles(files []*File, opts ...MsgcatMergeOption) Entries {
 	return slices.DeleteFunc(process.entriesSlice, func(entry Entry) bool {
 		info := process.entriesMap[entry.UnifiedID()]
 
-		return info.timesFound >= process.config.LessThan &&
-			info.timesFound <= process.config.MoreThan
+		return !entry.IsHeader() &&
+			(info.timesFound >= process.config.LessThan ||
+				info.timesFound <= process.config.MoreThan)
 	})
 }
 
@@ -126,12 +127,7 @@ func msgcatMergeEntry(
 	originalFilename, newFilename string,
 ) Entry {
 	mergedEntry := Entry{
-		Flags: msgcatMergeComments(
-			originalEntry.Flags,
-			newEntry.Flags,
-			originalFilename,
-			newFilename,
-		),
+		Flags: msgcatMergeFlags(originalEntry.Flags, newEntry.Flags),
 		Comments: msgcatMergeComments(
 			originalEntry.Comments,
 			newEntry.Comments,
@@ -151,64 +147,91 @@ func msgcatMergeEntry(
 			newFilename,
 		),
 
-		ID:      originalEntry.ID,
-		Context: originalEntry.Context,
-		Plural:  originalEntry.Plural,
-		Plurals: msgcatMergePlurals(
-			originalEntry,
-			newEntry,
+		Obsolete: originalEntry.Obsolete && newEntry.Obsolete,
+		ID:       originalEntry.ID,
+		Context:  originalEntry.Context,
+		Plural:   originalEntry.Plural,
+		Locations: append(
+			slices.Clip(originalEntry.Locations),
+			newEntry.Locations...,
+		),
+	}
+
+	if mergedEntry.Plural == "" {
+		mergedEntry.Plural = newEntry.Plural
+	}
+
+	var conflict bool
+	if originalEntry.IsPlural() || newEntry.IsPlural() {
+		mergedEntry.Plurals, conflict = msgcatMergePlurals(
+			msgcatPluralForms(originalEntry),
+			msgcatPluralForms(newEntry),
 			originalFilename,
 			newFilename,
-		),
-		Str: msgcatMergeStrings(
+		)
+	} else {
+		mergedEntry.Str = msgcatMergeStrings(
 			originalEntry.Str,
 			newEntry.Str,
 			originalFilename,
 			newFilename,
-		),
-		Locations: append(
-			slices.Clip(originalEntry.Locations),
-			newEntry.Locations...,
-		),
+		)
+		conflict = msgcatConflict(originalEntry.Str, newEntry.Str)
 	}
 
-	if !mergedEntry.IsFuzzy() &&
-		(originalEntry.FullUnifiedID() != newEntry.FullUnifiedID() ||
-			originalEntry.UnifiedStr() != newEntry.UnifiedStr()) {
-		mergedEntry.Flags = append(mergedEntry.Flags, "fuzzy")
+	if conflict || msgcatConflict(originalEntry.Plural, newEntry.Plural) {
+		mergedEntry.markAsFuzzy()
 	}
 
 	return mergedEntry
 }
 
-// msgcatMergePlurals handles merging of plural form strings.
-func msgcatMergePlurals(
-	originalEntry, newEntry Entry,
-	originalFilename, newFilename string,
-) PluralEntries {
-	if !originalEntry.IsPlural() {
-		return originalEntry.Plurals
+// msgcatConflict reports whether both strings are given and differ.
+func msgcatConflict(a, b string) bool {
+	return a != "" && b != "" && a != b
+}
+
+// msgcatPluralForms returns the translations of an entry as plural forms.
+func msgcatPluralForms(entry Entry) PluralEntries {
+	if !entry.IsPlural() && entry.Str != "" {
+		return PluralEntries{{ID: 0, Str: entry.Str}}
 	}
+	return entry.Plurals
+}
 
-	mergedEntries := make(PluralEntries, 0, len(originalEntry.Plurals)+len(newEntry.Plurals))
+// msgcatMergeFlags returns the union of both flag lists.
+func msgcatMergeFlags(originalFlags, newFlags []string) []string {
+	merged := slices.Clone(originalFlags)
+	for _, flag := range newFlags {
+		if !slices.Contains(merged, flag) {
+			merged = append(merged, flag)
+		}
+	}
+	return merged
+}
 
-	for i, original := range originalEntry.Plurals {
-		if i >= len(newEntry.Plurals) {
-			mergedEntries = append(mergedEntries, original)
+// msgcatMergePlurals merges plural forms and reports whether any of them conflict.
+func msgcatMergePlurals(
+	originalPlurals, newPlurals PluralEntries,
+	originalFilename, newFilename string,
+) (merged PluralEntries, conflict bool) {
+	merged = slices.Clone(originalPlurals)
+
+	for _, newPlural := range newPlurals {
+		i := slices.IndexFunc(merged, func(p PluralEntry) bool { return p.ID == newPlural.ID })
+		if i == -1 {
+			merged = append(merged, newPlural)
 			continue
 		}
 
-		newPlural := newEntry.Plurals[i]
-		mergedEntries = append(mergedEntries, PluralEntry{
-			ID: original.ID,
-			Str: msgcatMergeStrings(
-				original.Str, newPlural.Str,
-				originalFilename, newFilename,
-			),
-		})
+		conflict = conflict || msgcatConflict(merged[i].Str, newPlural.Str)
+		merged[i].Str = msgcatMergeStrings(
+			merged[i].Str, newPlural.Str,
+			originalFilename, newFilename,
+		)
 	}
 
-	return mergedEntries
+	return merged, conflict
 }
 
 func msgcatMergeStrings(originalStr, newStr string, originalFilename, newFilename string) string {
-- 
2.43.0


From 26c039df3edd7d716bf7326556a934eafb386acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:18 +0000
Subject: [PATCH 03/42] fix: compare every field of entries and the first field
 of structs

---
 internal/util/equal.go | 11 +++++++++--
 pkg/po/entry.go        | 12 +++++++-----
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/internal/util/equal.go b/internal/util/equal.go
index 602c8b2..10e059d 100644
--- a/internal/util/equal.go
+++ b/internal/util/equal.go
@@ -11,7 +11,14 @@ func FuzzyEqual(x, y string) bool {
 	return fuzzy.Ratio(x, y) >= 80
 }
 
-type visitedPairs map[[2]uintptr]struct{}
+// visitedPair identifies two values already under comparison. The type is part
+// of it because a struct and its first field share the same address.
+type visitedPair struct {
+	addr1, addr2 uintptr
+	typ          reflect.Type
+}
+
+type visitedPairs map[visitedPair]struct{}
 
 func Equal[X, Y any](x X, y Y) bool {
 	return equal(reflect.ValueOf(x), reflect.ValueOf(y), make(visitedPairs))
@@ -38,7 +45,7 @@ func equal(v1, v2 reflect.Value, visited visitedPairs) bool {
 	}
 	if v1.CanAddr() && v2.CanAddr() {
 		addr1, addr2 := v1.UnsafeAddr(), v2.UnsafeAddr()
-		pair := [2]uintptr{addr1, addr2}
+		pair := visitedPair{addr1, addr2, v1.Type()}
 		if _, found := visited[pair]; found {
 			return true
 		}
diff --git a/pkg/po/entry.go b/pkg/po/entry.go
index f758de1..2fb9cf7 100644
--- a/pkg/po/entry.go
+++ b/pkg/po/entry.go
@@ -137,12 +137,14 @@ func (e Entry) Hash() uint32 {
 
 // Equal reports whether two entries are semantically equivalent.
 //
-// It compares ID, context, translation string, flags, and obsolete status.
+// It compares ID, context, plural ID, translation strings, flags, and obsolete status.
 func (e Entry) Equal(x Entry) bool {
-	ok1 := e.FullUnifiedID() == x.FullUnifiedID() && e.UnifiedStr() == x.UnifiedStr()
-	ok2 := slices.CompareFunc(e.Flags, x.Flags, strings.Compare) == 0
-	ok3 := e.Obsolete && x.Obsolete
-	return ok1 && ok2 && ok3
+	ok1 := e.ID == x.ID && e.Context == x.Context && e.Plural == x.Plural
+	ok2 := e.Str == x.Str &&
+		slices.Equal(slices.Clone(e.Plurals).Sort(), slices.Clone(x.Plurals).Sort())
+	ok3 := slices.CompareFunc(e.Flags, x.Flags, strings.Compare) == 0
+	ok4 := e.Obsolete == x.Obsolete
+	return ok1 && ok2 && ok3 && ok4
 }
 
 // IsPlural reports whether the entry is plural or contains plural forms.
-- 
2.43.0


From 5b91bac9466477ec5f1e3b4766bfd0eb93cb5be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:18 +0000
Subject: [PATCH 04/42] fix: similarity ratios of empty messages must not
 divide by zero, and compare translations

---
 internal/util/average.go | 5 +++++
 pkg/po/cmp.go            | 2 +-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/internal/util/average.go b/internal/util/average.go
index c59c242..58749d8 100644
--- a/internal/util/average.go
+++ b/internal/util/average.go
@@ -6,9 +6,14 @@ type Number interface {
 		~float32 | ~float64
 }
 
+// Average returns the arithmetic mean of values, or zero if there are none.
 func Average[T Number](values ...T) T {
 	var total T
 
+	if len(values) == 0 {
+		return total
+	}
+
 	for _, v := range values {
 		total += v
 	}
diff --git a/pkg/po/cmp.go b/pkg/po/cmp.go
index 470019b..5e241d2 100644
--- a/pkg/po/cmp.go
+++ b/pkg/po/cmp.go
@@ -36,7 +36,7 @@ func EntryStrMatchRatio(e1, e2 Entry) int {
 
 	var ratios []int
 	if e1.Str != "" || e2.Str != "" {
-		ratios = append(ratios, ratio(e1.ID, e2.ID))
+		ratios = append(ratios, ratio(e1.Str, e2.Str))
 	}
 	if e1.IsPlural() || e2.IsPlural() {
 		for i, pe := range e1.Plurals {
-- 
2.43.0


From 70f24bbd65ab0eb8a08f82bf6495d2e045681676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:42 +0000
Subject: [PATCH 05/42] fix: merging keeps translations, covers the reference
 once and marks guesses fuzzy

---
 pkg/po/entry.go |  7 ++++
 pkg/po/merge.go | 90 ++++++++++++++++++++++++++++++++++---------------
 2 files changed, 70 insertions(+), 27 deletions(-)

diff --git a/pkg/po/entry.go b/pkg/po/entry.go
index 2fb9cf7..4dc7000 100644
--- a/pkg/po/entry.go
+++ b/pkg/po/entry.go
@@ -152,6 +152,13 @@ func (e Entry) IsPlural() bool {
 	return e.Plural != "" || len(e.Plurals) > 0
 }
 
+// isTranslated reports whether the entry holds any translation.
+func (e Entry) isTranslated() bool {
+	return e.Str != "" || slices.ContainsFunc(e.Plurals, func(p PluralEntry) bool {
+		return p.Str != ""
+	})
+}
+
 // HasContext reports whether the entry has a non-empty context.
 func (e Entry) HasContext() bool {
 	return e.Context != ""
diff --git a/pkg/po/merge.go b/pkg/po/merge.go
index 9ebe727..d893f49 100644
--- a/pkg/po/merge.go
+++ b/pkg/po/merge.go
@@ -1,5 +1,7 @@
 package po
 
+import "github.com/Tom5521/gotext-tools/v2/internal/slices"
+
 // SortMode defines the mode used to sort PO entries.
 type SortMode int
 
@@ -84,30 +86,28 @@ func MergeWithKeepPreviousIDs(k bool) MergeOption {
 	return func(mc *MergeConfig) { mc.KeepPreviousIDs = k }
 }
 
-// NOTE: This thing is slightly broken.
-
 // MergeWithConfig merges entries from def and ref using the provided MergeConfig.
 //
+// Every live entry of ref appears exactly once in the result, with the translation
+// that def has for it. Entries of def which are not in ref are kept as obsolete.
+//
 // If FuzzyMatch is enabled, unmatched entries may be matched based on string similarity.
 // If KeepPreviousIDs is set, original IDs are preserved in unmatched entries.
 // If Sort is enabled, the resulting set is sorted using the given SortMode.
 func MergeWithConfig(config MergeConfig, def, ref Entries) Entries {
-	// NOTE: The implicit memory aliasing in loops
-	// are intentional, don't try to change it.
-
 	nplurals := int(ref.Header().Nplurals())
-	def = def.Solve()
+	ref = ref.CleanObsoletes().Solve()
 
-	for i, entry := range def {
-		if mergeDef(config, &entry, ref) {
-			continue
-		}
-		def[i] = entry
+	// The original translations, the only ones that may be reused.
+	old := def.Solve()
+	def = slices.Clone(old)
+
+	for i := range def {
+		mergeDef(config, &def[i], def, ref)
 	}
 
 	for _, entry := range ref {
-
-		if mergeRef(config, &entry, def, nplurals) {
+		if mergeRef(config, &entry, def, old, nplurals) {
 			continue
 		}
 		def = append(def, entry)
@@ -120,17 +120,21 @@ func MergeWithConfig(config MergeConfig, def, ref Entries) Entries {
 	return def
 }
 
-func mergeRef(config MergeConfig, entry *Entry, def Entries, nplurals int) bool {
-	if def.ContainsUnifiedID(entry.UnifiedID()) || entry.IsHeader() {
+// mergeRef completes a reference entry, it returns true if def already has it.
+func mergeRef(config MergeConfig, entry *Entry, def, old Entries, nplurals int) bool {
+	if entry.IsHeader() || def.ContainsUnifiedID(entry.UnifiedID()) {
 		return true
 	}
 	if config.FuzzyMatch {
-		if bestID, ratio := def.BestIDRatio(*entry); ratio >= 50 {
+		candidates := slices.DeleteFunc(old, func(e Entry) bool {
+			return e.IsHeader() || !e.isTranslated()
+		})
+		if best, ratio := candidates.BestIDRatio(*entry); ratio >= 50 {
 			entry.markAsFuzzy()
-			best := def[bestID]
-			mergeEntryStrings(entry, best)
+			mergeEntryStrings(entry, candidates[best])
 		}
-	} else if entry.IsPlural() {
+	} else if entry.IsPlural() && len(entry.Plurals) == 0 {
+		entry.Plurals = nil
 		for i := 0; i < nplurals; i++ {
 			entry.Plurals = append(entry.Plurals, PluralEntry{i, entry.ID})
 		}
@@ -138,24 +142,55 @@ func mergeRef(config MergeConfig, entry *Entry, def Entries, nplurals int) bool
 	return false
 }
 
-func mergeDef(config MergeConfig, e *Entry, ref Entries) bool {
-	if ref.ContainsUnifiedID(e.UnifiedID()) || e.IsHeader() {
-		return true
+// mergeDef updates an entry of the existing catalogue with what ref says about it.
+func mergeDef(config MergeConfig, e *Entry, def, ref Entries) {
+	if e.IsHeader() {
+		return
 	}
+	if i := ref.IndexByUnifiedID(e.UnifiedID()); i != -1 {
+		mergeAdopt(e, ref[i])
+		return
+	}
+
 	switch {
 	case config.FuzzyMatch:
-		if bestID, ratio := ref.BestIDRatio(*e); ratio >= 50 {
+		candidates := slices.DeleteFunc(ref, func(r Entry) bool {
+			return r.IsHeader() || r.IsPlural() != e.IsPlural()
+		})
+		best, ratio := candidates.BestIDRatio(*e)
+		if ratio >= 50 && e.isTranslated() &&
+			!def.ContainsUnifiedID(candidates[best].UnifiedID()) {
+			mergeAdopt(e, candidates[best])
 			e.markAsFuzzy()
-			e.ID = ref[bestID].ID
-		} else {
-			e.markAsObsolete()
+			return
 		}
+		e.markAsObsolete()
 	case config.KeepPreviousIDs:
 		e.markAsFuzzy()
 	default:
 		e.markAsObsolete()
 	}
-	return false
+}
+
+// mergeAdopt turns e into the live reference message ref, keeping its translation.
+func mergeAdopt(e *Entry, ref Entry) {
+	source := *e
+
+	e.Obsolete = false
+	e.ID = ref.ID
+	e.Context = ref.Context
+	e.Plural = ref.Plural
+	e.Locations = ref.Locations
+	e.ExtractedComments = ref.ExtractedComments
+
+	if source.IsPlural() != ref.IsPlural() {
+		e.Str = ""
+		e.Plurals = ref.Plurals
+		if source.isTranslated() {
+			mergeEntryStrings(e, source)
+			e.markAsFuzzy()
+		}
+	}
 }
 
 // mergeEntryStrings copies translation strings from source to target.
@@ -170,6 +205,7 @@ func mergeEntryStrings(target *Entry, source Entry) {
 		if len(target.Plurals) == 0 {
 			target.Plurals = make(PluralEntries, 1)
 		}
+		target.Plurals = slices.Clone(target.Plurals)
 		target.Plurals[0].Str = source.Str
 	case !target.IsPlural() && source.IsPlural():
 		if len(source.Plurals) > 0 {
-- 
2.43.0


From e584500721f07bc404fb9ebdd8a7aff68a5ff50d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:44 +0000
Subject: [PATCH 06/42] fix: resolving duplicates never drops a translation or
 a plural id

---
 pkg/po/entries.go | 39 ++++++++++++++++++++++++++++++---------
 1 file changed, 30 insertions(+), 9 deletions(-)

diff --git a/pkg/po/entries.go b/pkg/po/entries.go
index 600e05e..e0e7a5c 100644
--- a/pkg/po/entries.go
+++ b/pkg/po/entries.go
@@ -26,10 +26,10 @@ func (e Entries) ContainsUnifiedID(uid string) bool {
 
 func (e Entries) CutHeader() Entries {
 	if id := e.Index("", ""); id != -1 {
-		e = slices.Delete(e, id, id+1)
+		return slices.Delete(e, id, id+1)
 	}
 
-	return e
+	return slices.Clone(e)
 }
 
 func (e Entries) BestIDRatio(e1 Entry) (best, highestRatio int) {
@@ -141,6 +141,11 @@ func (e Entries) CleanObsoletes() Entries {
 func (e Entries) CleanDuplicates() Entries {
 	return e.SolveFunc(func(a, b Entry) *Entry {
 		a.Locations = append(slices.Clip(a.Locations), b.Locations...)
+		// The same message may be used with and without a plural form.
+		if !a.IsPlural() && a.Str == "" {
+			a.Plural = b.Plural
+			a.Plurals = b.Plurals
+		}
 		return &a
 	})
 }
@@ -203,7 +208,8 @@ func MergeUsingPriorityOrFallback(priorList Entries) MergeFunc {
 // SolveMerge merges two Entry objects based on certain preference criteria.
 // It prefers the Entry with a higher priority according to CompareEntry.
 // It combines the Locations from both entries.
-// Then, it chooses the Str and Plurals fields based on CompareEntryByStr.
+// Then, it chooses the Str and Plurals fields based on CompareEntryByStr, but never
+// prefers an untranslated entry over a translated one.
 func SolveMerge(a, b Entry) *Entry {
 	var preferred Entry
 
@@ -218,12 +224,27 @@ func SolveMerge(a, b Entry) *Entry {
 	preferred.Locations = append(slices.Clip(a.Locations), b.Locations...)
 
 	// Choose the preferred Str and Plurals based on CompareEntryByStr.
-	if CompareEntryByStr(a, b) > 0 {
-		preferred.Str = a.Str
-		preferred.Plurals = a.Plurals
-	} else {
-		preferred.Str = b.Str
-		preferred.Plurals = b.Plurals
+	chosen := b
+	if a.isTranslated() != b.isTranslated() {
+		if a.isTranslated() {
+			chosen = a
+		}
+	} else if CompareEntryByStr(a, b) > 0 {
+		chosen = a
+	}
+	preferred.Str = chosen.Str
+	preferred.Plurals = chosen.Plurals
+
+	// Keep the plural ID that the chosen translation belongs to.
+	if preferred.Plural == "" {
+		preferred.Plural = a.Plural
+	}
+	if preferred.Plural == "" {
+		preferred.Plural = b.Plural
+	}
+	if preferred.Plural != "" && preferred.Str != "" && len(preferred.Plurals) == 0 {
+		preferred.Plurals = PluralEntries{{0, preferred.Str}}
+		preferred.Str = ""
 	}
 
 	return &preferred
-- 
2.43.0


From 6d92779fa5a61139916ca0df456bf45d199eb8da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:44 +0000
Subject: [PATCH 07/42] fix: comparing entries by translation is a total
 preorder

---
 pkg/po/cmp.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pkg/po/cmp.go b/pkg/po/cmp.go
index 5e241d2..6764e03 100644
--- a/pkg/po/cmp.go
+++ b/pkg/po/cmp.go
@@ -99,10 +99,8 @@ func CompareEntryByLocation(a, b Entry) int {
 
 // CompareEntryByStr compares entries by their translation strings, including plural forms.
 func CompareEntryByStr(a, b Entry) int {
-	if a.IsPlural() && b.IsPlural() {
-		if i := ComparePluralEntriesFunc(a.Plurals, b.Plurals, ComparePluralEntryByStr); i != 0 {
-			return i
-		}
+	if i := ComparePluralEntriesFunc(a.Plurals, b.Plurals, ComparePluralEntryByStr); i != 0 {
+		return i
 	}
 	return strings.Compare(a.Str, b.Str)
 }
-- 
2.43.0


From 354480e133c9dd3a436f0affb388149bc49ef0cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:44 +0000
Subject: [PATCH 08/42] fix: split header fields at the first colon

---
 pkg/po/header.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/po/header.go b/pkg/po/header.go
index dfecccb..3ba9337 100644
--- a/pkg/po/header.go
+++ b/pkg/po/header.go
@@ -49,7 +49,7 @@ func NewHeader(options ...HeaderOption) Header {
 }
 
 var (
-	headerRegex = regexp.MustCompile(`(.*)\s*:\s*(.*)`)
+	headerRegex = regexp.MustCompile(`^([^:]*?)\s*:\s*(.*)$`)
 	exprRegex   = regexp.MustCompile(
 		`(?: *(\S+?) *= *(.+?) *; *)`,
 	)
-- 
2.43.0


From a4ffaea67cc9bfc0aafb84564d7d5b858866f9c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:57 +0000
Subject: [PATCH 09/42] fix: escape control characters so that they are read
 back unchanged

---
 pkg/po/compile/po_compiler_util.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pkg/po/compile/po_compiler_util.go b/pkg/po/compile/po_compiler_util.go
index 872559f..6f4516c 100644
--- a/pkg/po/compile/po_compiler_util.go
+++ b/pkg/po/compile/po_compiler_util.go
@@ -4,7 +4,6 @@ import (
 	"bufio"
 	"fmt"
 	"io"
-	"strconv"
 	"strings"
 
 	"github.com/Tom5521/gotext-tools/v2/internal/slices"
@@ -54,10 +53,12 @@ func escapePOString(s string) string {
 		case '\r':
 			buf.WriteString(`\r`)
 		default:
-			if strconv.IsPrint(r) {
-				buf.WriteRune(r)
+			if r < ' ' || r == 0x7f {
+				// Exactly three octal digits, so that whatever
+				// follows can't be read as part of the escape.
+				fmt.Fprintf(&buf, "\\%03o", r)
 			} else {
-				fmt.Fprintf(&buf, "\\x%02x", r)
+				buf.WriteRune(r)
 			}
 		}
 	}
-- 
2.43.0


From 1146ffc80141eb83ff27da6df4ab78f857e8f968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:58 +0000
Subject: [PATCH 10/42] fix: an unset location mode must not panic

---
 pkg/po/compile/po_compiler_format.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/po/compile/po_compiler_format.go b/pkg/po/compile/po_compiler_format.go
index 6b01765..07be4bf 100644
--- a/pkg/po/compile/po_compiler_format.go
+++ b/pkg/po/compile/po_compiler_format.go
@@ -221,15 +221,15 @@ func (eb *entryBuilder) referenceComment() string {
 
 	var writeRef func(id int)
 	switch eb.Config.AddLocation {
-	case PoLocationModeFull:
+	case PoLocationModeFile:
 		writeRef = func(id int) {
 			l := eb.Locations[id]
-			fmt.Fprintf(&b, "%s:%d\n", l.File, l.Line)
+			fmt.Fprintf(&b, "%s\n", l.File)
 		}
-	case PoLocationModeFile:
+	default: // PoLocationModeFull, or unset.
 		writeRef = func(id int) {
 			l := eb.Locations[id]
-			fmt.Fprintf(&b, "%s\n", l.File)
+			fmt.Fprintf(&b, "%s:%d\n", l.File, l.Line)
 		}
 	}
 
-- 
2.43.0


From a20334fd050818f37e28aa516273cdd7820749c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:20 +0000
Subject: [PATCH 11/42] fix: highlighting must not change which lines are
 marked obsolete

---
 pkg/po/compile/po_compiler_format.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/po/compile/po_compiler_format.go b/pkg/po/compile/po_compiler_format.go
index 07be4bf..86a6999 100644
--- a/pkg/po/compile/po_compiler_format.go
+++ b/pkg/po/compile/po_compiler_format.go
@@ -3,6 +3,7 @@ package compile
 import (
 	"bytes"
 	"fmt"
+	"regexp"
 	"strings"
 
 	"github.com/Tom5521/gotext-tools/v2/internal/color"
@@ -10,6 +11,9 @@ import (
 	"github.com/Tom5521/gotext-tools/v2/pkg/po"
 )
 
+// colorCodeRegex matches the codes inserted when highlighting.
+var colorCodeRegex = regexp.MustCompile("\x1b\\[[0-9;]*m")
+
 type entryBuilder struct {
 	po.Entry
 	Config PoConfig
@@ -90,7 +94,8 @@ func (eb *entryBuilder) BuildEntry() []byte {
 		prefix += " "
 
 		for _, line := range strings.Split(entry, "\n") {
-			if strings.HasPrefix(line, "#") || line == "" {
+			plain := colorCodeRegex.ReplaceAllString(line, "")
+			if strings.HasPrefix(plain, "#") || plain == "" {
 				buf.WriteString(line + "\n")
 				continue
 			}
-- 
2.43.0


From 9b0857b7a31f593779ad91e65830db8ad241feb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:22 +0000
Subject: [PATCH 12/42] fix: do not add the translation prefix and suffix to
 the header

---
 pkg/po/compile/po_compiler_format.go | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/pkg/po/compile/po_compiler_format.go b/pkg/po/compile/po_compiler_format.go
index 86a6999..3d48905 100644
--- a/pkg/po/compile/po_compiler_format.go
+++ b/pkg/po/compile/po_compiler_format.go
@@ -171,26 +171,27 @@ func (eb *entryBuilder) msgstr() string {
 		}
 		for _, pe := range eb.Plurals {
 			fmt.Fprint(&msgstr, eb.keyword(fmt.Sprintf(format, pe.ID)))
-			fmt.Fprint(&msgstr,
-				eb.string(
-					eb.Config.MsgstrPrefix+pe.Str+eb.Config.MsgstrSuffix,
-					"msgstr",
-				),
-			)
+			fmt.Fprint(&msgstr, eb.string(eb.affixed(pe.Str), "msgstr"))
 		}
 
 		return msgstr.String()
 	}
 
 	fmt.Fprint(&msgstr, eb.keyword("msgstr"))
-	fmt.Fprint(&msgstr, eb.string(
-		eb.Config.MsgstrPrefix+eb.Str+eb.Config.MsgstrSuffix,
-		"msgstr",
-	))
+	fmt.Fprint(&msgstr, eb.string(eb.affixed(eb.Str), "msgstr"))
 
 	return msgstr.String()
 }
 
+// affixed adds the configured prefix and suffix to a translation.
+// The header is not a translation, adding anything to it would corrupt its fields.
+func (eb *entryBuilder) affixed(str string) string {
+	if eb.IsHeader() {
+		return str
+	}
+	return eb.Config.MsgstrPrefix + str + eb.Config.MsgstrSuffix
+}
+
 func (eb *entryBuilder) comment() string {
 	var b strings.Builder
 	b.WriteString(eb.translatorComment())
-- 
2.43.0


From e28306e78dc3d16f77e525de87b18328d2cb35c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:23 +0000
Subject: [PATCH 13/42] fix: write a managed header exactly once and escape its
 fields

---
 pkg/po/compile/po_compiler_format.go | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/pkg/po/compile/po_compiler_format.go b/pkg/po/compile/po_compiler_format.go
index 3d48905..10aab5a 100644
--- a/pkg/po/compile/po_compiler_format.go
+++ b/pkg/po/compile/po_compiler_format.go
@@ -123,20 +123,15 @@ func (eb *entryBuilder) BuildHeader(header po.Header) []byte {
 	}
 
 	if eb.Config.HeaderFields {
-		for i, field := range header.Fields {
-			fmt.Fprintf(&buf, headerFieldFormat, field.Key, field.Value)
-
-			if i != len(header.Fields) {
-				fmt.Fprint(&buf, "\n")
-			}
+		for _, field := range header.Fields {
+			fmt.Fprintf(&buf, headerFieldFormat,
+				escapePOString(field.Key), escapePOString(field.Value))
+			fmt.Fprint(&buf, "\n")
 		}
 	}
 
 	fmt.Fprintln(&buf)
 
-	buf.WriteString(eb.msgid())
-	buf.WriteString(eb.msgstr())
-
 	return buf.Bytes()
 }
 
-- 
2.43.0


From fc865c15f8197f125139bbc21b428ac92c04615b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:47 +0000
Subject: [PATCH 14/42] fix: lex strings that end in an escaped backslash

---
 internal/util/po_parse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/util/po_parse.go b/internal/util/po_parse.go
index 4db6769..69086d9 100644
--- a/internal/util/po_parse.go
+++ b/internal/util/po_parse.go
@@ -43,7 +43,7 @@ var (
 		{Name: "Integer", Pattern: `\d+`},
 		{Name: "LB", Pattern: `\[`},
 		{Name: "RB", Pattern: `\]`},
-		{Name: "String", Pattern: `"(\\"|[^"])*"`},
+		{Name: "String", Pattern: `"(\\.|[^"\\])*"`},
 		{Name: "Msgctxt", Pattern: "msgctxt"},
 		{Name: "MsgidPlural", Pattern: "msgid_plural"},
 		{Name: "Msgid", Pattern: "msgid"},
-- 
2.43.0


From aaa7d99ce2cc774e21818191a3ac125b8a60fa87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:49 +0000
Subject: [PATCH 15/42] fix: report truncated messages, accept any last line
 and keep the input bytes

---
 internal/util/po_parse.go |  2 +-
 pkg/po/parse/po_parser.go | 12 +++++++++---
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/internal/util/po_parse.go b/internal/util/po_parse.go
index 69086d9..c67f122 100644
--- a/internal/util/po_parse.go
+++ b/internal/util/po_parse.go
@@ -18,7 +18,7 @@ type (
 		ID          []string        `Msgid @String+`
 		Str         []string        `(Msgstr @String+`
 		MsgidPlural []string        `| (MsgidPlural @String+`
-		Plurals     []pluralEntries `@@*))`
+		Plurals     []pluralEntries `@@+))`
 	}
 
 	pluralEntries struct {
diff --git a/pkg/po/parse/po_parser.go b/pkg/po/parse/po_parser.go
index 695b438..922b13f 100644
--- a/pkg/po/parse/po_parser.go
+++ b/pkg/po/parse/po_parser.go
@@ -236,7 +236,8 @@ func (p *PoParser) ParseWithOptions(opts ...PoOption) *po.File {
 	return p.Parse()
 }
 
-const safeTemplate = `msgid "---"
+const safeTemplate = `
+msgid "---"
 msgstr "---"`
 
 // Parse reads and parses the PO file into a po.File structure.
@@ -249,8 +250,7 @@ func (p *PoParser) Parse() *po.File {
 	// unnecessary heavy and slow thing of ANTLR.
 
 	// Add temporary marker to handle edge cases
-	p.data = p.originalData
-	p.data = append(p.data, []byte(safeTemplate)...)
+	p.data = append(slices.Clone(p.originalData), safeTemplate...)
 
 	// Parse the file using the participle parser
 	pFile, err := util.PoParser.ParseBytes(p.filename, p.data)
@@ -259,6 +259,12 @@ func (p *PoParser) Parse() *po.File {
 		return nil
 	}
 
+	// A context without its message would end up in the temporary marker.
+	if len(pFile.Entries[len(pFile.Entries)-1].Context) > 0 {
+		p.error("unexpected end of file: missing msgid after msgctxt")
+		return nil
+	}
+
 	// Remove the temporary marker entry
 	pFile.Entries = slices.Delete(pFile.Entries, len(pFile.Entries)-1, len(pFile.Entries))
 
-- 
2.43.0


From b6ae6834dd7b77534ae2f53d6e44a0a5b02e9630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:22 +0000
Subject: [PATCH 16/42] fix: read comments by how they begin, flag lists,
 several references and CRLF

---
 pkg/po/parse/po_parser.go | 87 +++++++++++++++++++++++++--------------
 1 file changed, 55 insertions(+), 32 deletions(-)

diff --git a/pkg/po/parse/po_parser.go b/pkg/po/parse/po_parser.go
index 922b13f..49a8e67 100644
--- a/pkg/po/parse/po_parser.go
+++ b/pkg/po/parse/po_parser.go
@@ -126,12 +126,15 @@ func (p *PoParser) Errors() []error {
 
 // Regular expressions for parsing different types of PO file comments.
 var (
-	locationRegex  = regexp.MustCompile(`#: *(.*)`)  // Source location comments
-	generalRegex   = regexp.MustCompile(`# *(.*)`)   // General translator comments
-	extractedRegex = regexp.MustCompile(`#\. *(.*)`) // Extracted comments
-	flagRegex      = regexp.MustCompile(`#, *(.*)`)  // Flag comments
-	obsoleteRegex  = regexp.MustCompile(`#~ *(.*)`)  // Obsolete entry markers
-	previousRegex  = regexp.MustCompile(`#\| *(.*)`) // Previous message comments
+	locationRegex  = regexp.MustCompile(`^#: *(.*)`)  // Source location comments
+	generalRegex   = regexp.MustCompile(`^# *(.*)`)   // General translator comments
+	extractedRegex = regexp.MustCompile(`^#\. *(.*)`) // Extracted comments
+	flagRegex      = regexp.MustCompile(`^#, *(.*)`)  // Flag comments
+	obsoleteRegex  = regexp.MustCompile(`^#~ *(.*)`)  // Obsolete entry markers
+	previousRegex  = regexp.MustCompile(`^#\| *(.*)`) // Previous message comments
+
+	// A single "file:line" reference, file names may contain spaces.
+	referenceRegex = regexp.MustCompile(`^\s*(\S.*?):(\d+)(?:\s+|$)`)
 )
 
 // parseObsoleteEntries extracts and parses obsolete entries from the PO file.
@@ -180,46 +183,40 @@ func (p *PoParser) parseObsoleteEntries(tokens []lexer.Token) po.Entries {
 
 // parseComments processes all comment tokens associated with an entry and
 // populates the corresponding fields in the Entry struct.
-func parseComments(entry *po.Entry, tokens []lexer.Token) (err error) {
+func parseComments(entry *po.Entry, tokens []lexer.Token) error {
 	for _, t := range tokens {
 		if t.Type != util.PoSymbols["Comment"] {
 			continue
 		}
-		if obsoleteRegex.MatchString(t.String()) {
+		// The "\r" of a CRLF line end isn't part of the comment.
+		comment := strings.TrimSuffix(t.String(), "\r")
+		if obsoleteRegex.MatchString(comment) {
 			continue
 		}
 		switch {
-		case locationRegex.MatchString(t.String()):
-			matches := locationRegex.FindStringSubmatch(t.String())
-			parts := strings.SplitN(matches[1], ":", 2)
-			line := -1
-			if parts[1] != "" {
-				line, err = strconv.Atoi(parts[1])
-				if err != nil {
-					return fmt.Errorf("error parsing integer: %w", err)
-				}
-			}
-
-			loc := po.Location{
-				Line: line,
-				File: parts[0],
+		case locationRegex.MatchString(comment):
+			locations, err := parseLocations(locationRegex.FindStringSubmatch(comment)[1])
+			if err != nil {
+				return err
 			}
-			entry.Locations = append(entry.Locations, loc)
-		case extractedRegex.MatchString(t.String()):
+			entry.Locations = append(entry.Locations, locations...)
+		case extractedRegex.MatchString(comment):
 			entry.ExtractedComments = append(entry.ExtractedComments,
-				extractedRegex.FindStringSubmatch(t.String())[1],
+				extractedRegex.FindStringSubmatch(comment)[1],
 			)
-		case flagRegex.MatchString(t.String()):
-			entry.Flags = append(entry.Flags,
-				flagRegex.FindStringSubmatch(t.String())[1],
-			)
-		case previousRegex.MatchString(t.String()):
+		case flagRegex.MatchString(comment):
+			for _, flag := range strings.Split(flagRegex.FindStringSubmatch(comment)[1], ",") {
+				if flag = strings.TrimSpace(flag); flag != "" {
+					entry.Flags = append(entry.Flags, flag)
+				}
+			}
+		case previousRegex.MatchString(comment):
 			entry.Previous = append(entry.Previous,
-				previousRegex.FindStringSubmatch(t.String())[1],
+				previousRegex.FindStringSubmatch(comment)[1],
 			)
 		default:
 			entry.Comments = append(entry.Comments,
-				generalRegex.FindStringSubmatch(t.String())[1],
+				generalRegex.FindStringSubmatch(comment)[1],
 			)
 		}
 	}
@@ -227,6 +224,32 @@ func parseComments(entry *po.Entry, tokens []lexer.Token) (err error) {
 	return nil
 }
 
+// parseLocations parses the content of a reference comment, which may hold
+// several "file:line" references, or file names without any line.
+func parseLocations(comment string) (po.Locations, error) {
+	var locations po.Locations
+
+	for {
+		matches := referenceRegex.FindStringSubmatch(comment)
+		if matches == nil {
+			break
+		}
+		comment = comment[len(matches[0]):]
+
+		line, err := strconv.Atoi(matches[2])
+		if err != nil {
+			return nil, fmt.Errorf("error parsing integer: %w", err)
+		}
+		locations = append(locations, po.Location{Line: line, File: matches[1]})
+	}
+
+	for _, file := range strings.Fields(comment) {
+		locations = append(locations, po.Location{Line: -1, File: file})
+	}
+
+	return locations, nil
+}
+
 // ParseWithOptions parses the PO file with temporary configuration options.
 // The original configuration is restored after parsing.
 func (p *PoParser) ParseWithOptions(opts ...PoOption) *po.File {
-- 
2.43.0


From 58967474b1e55e557da26cf60406a110d3ba93c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:26 +0000
Subject: [PATCH 17/42] fix: obsolete entries keep their comments and report
 their errors

---
 pkg/po/parse/po_parser.go | 92 +++++++++++++++++++++++++--------------
 1 file changed, 59 insertions(+), 33 deletions(-)

diff --git a/pkg/po/parse/po_parser.go b/pkg/po/parse/po_parser.go
index 49a8e67..142ba4f 100644
--- a/pkg/po/parse/po_parser.go
+++ b/pkg/po/parse/po_parser.go
@@ -137,44 +137,74 @@ var (
 	referenceRegex = regexp.MustCompile(`^\s*(\S.*?):(\d+)(?:\s+|$)`)
 )
 
-// parseObsoleteEntries extracts and parses obsolete entries from the PO file.
-func (p *PoParser) parseObsoleteEntries(tokens []lexer.Token) po.Entries {
-	comp := obsoleteRegex
-	if p.Config.UseCustomObsoletePrefix {
-		var err error
-		comp, err = regexp.Compile(fmt.Sprintf(`#%s *(.*)`, string(p.Config.CustomObsoletePrefix)))
-		if err != nil {
-			p.warn(err.Error())
-			return nil
-		}
+// obsoleteRegex returns the regular expression that matches obsolete lines.
+func (p *PoParser) obsoleteRegex() *regexp.Regexp {
+	if !p.Config.UseCustomObsoletePrefix {
+		return obsoleteRegex
 	}
 
-	cleanedLines := make([]string, 0, len(tokens))
+	prefix := regexp.QuoteMeta(string(p.Config.CustomObsoletePrefix))
+	return regexp.MustCompile(fmt.Sprintf(`^#%s *(.*)`, prefix))
+}
+
+// cutObsoleteLines separates the obsolete entries from the other tokens. It returns
+// the tokens to ignore when reading live entries, by their offset, and the text of
+// the obsolete entries without their marks.
+//
+// The comments right before an obsolete line belong to the obsolete entry.
+func (p *PoParser) cutObsoleteLines(tokens []lexer.Token) (cut map[int]bool, text string) {
+	comp := p.obsoleteRegex()
+	cut = make(map[int]bool)
+
+	var lines []string
+	var pending []lexer.Token // Comments of the next entry.
 	for _, token := range tokens {
-		if token.Type != util.PoSymbols["Comment"] {
+		switch token.Type {
+		case util.PoSymbols["WS"]:
+			continue
+		case util.PoSymbols["Comment"]:
+			pending = append(pending, token)
+		default:
+			pending = nil
 			continue
 		}
-		if !comp.MatchString(token.String()) {
+
+		matches := comp.FindStringSubmatch(token.String())
+		if matches == nil {
 			continue
 		}
 
-		cleanedLines = append(cleanedLines,
-			comp.FindStringSubmatch(token.String())[1],
-		)
+		for _, t := range pending {
+			cut[t.Pos.Offset] = true
+			if t.Pos.Offset != token.Pos.Offset {
+				lines = append(lines, t.String())
+			}
+		}
+		pending = nil
+
+		line := matches[1]
+		if strings.HasPrefix(line, "|") {
+			line = "#" + line
+		}
+		lines = append(lines, line)
 	}
 
-	fullFile := strings.Join(cleanedLines, "\n")
+	return cut, strings.Join(lines, "\n")
+}
 
+// parseObsoleteEntries parses the text of the obsolete entries of the PO file.
+func (p *PoParser) parseObsoleteEntries(text string) po.Entries {
 	parser := NewPoFromString(
-		fullFile,
-		"tmp",
+		text,
+		p.filename,
 		PoWithConfig(p.Config),
+		PoWithParseObsolete(false),
 		poWithMarkAllAsObsolete(true),
 	)
 
 	f := parser.Parse()
-	err := parser.Error()
-	if err != nil {
+	if parser.Error() != nil {
+		p.errors = append(p.errors, parser.Errors()...)
 		return nil
 	}
 
@@ -190,9 +220,6 @@ func parseComments(entry *po.Entry, tokens []lexer.Token) error {
 		}
 		// The "\r" of a CRLF line end isn't part of the comment.
 		comment := strings.TrimSuffix(t.String(), "\r")
-		if obsoleteRegex.MatchString(comment) {
-			continue
-		}
 		switch {
 		case locationRegex.MatchString(comment):
 			locations, err := parseLocations(locationRegex.FindStringSubmatch(comment)[1])
@@ -298,13 +325,14 @@ func (p *PoParser) Parse() *po.File {
 		})
 	}
 
+	cut, obsoletes := p.cutObsoleteLines(pFile.Tokens)
+
 	// Process each entry in the parsed file
 	for _, e := range pFile.Entries {
-		if p.Config.IgnoreAllComments {
-			e.Tokens = slices.DeleteFunc(e.Tokens, func(t lexer.Token) bool {
-				return t.Type == util.PoSymbols["Comment"]
-			})
-		}
+		e.Tokens = slices.DeleteFunc(e.Tokens, func(t lexer.Token) bool {
+			return t.Type == util.PoSymbols["Comment"] &&
+				(p.Config.IgnoreAllComments || cut[t.Pos.Offset])
+		})
 
 		// Create new entry with joined strings
 		newEntry := po.Entry{
@@ -342,10 +370,8 @@ func (p *PoParser) Parse() *po.File {
 	}
 
 	// Process obsolete entries if configured to do so
-	if slices.ContainsFunc(pFile.Tokens, func(t lexer.Token) bool {
-		return t.Type == util.PoSymbols["Comment"] && obsoleteRegex.MatchString(t.String())
-	}) && p.Config.ParseObsoletes {
-		entries = append(entries, p.parseObsoleteEntries(pFile.Tokens)...)
+	if len(cut) > 0 && p.Config.ParseObsoletes {
+		entries = append(entries, p.parseObsoleteEntries(obsoletes)...)
 	}
 
 	// Apply post-processing options
-- 
2.43.0


From ca0a6d9ed391c7036f407ca23680c9d653e2fbf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:28 +0000
Subject: [PATCH 18/42] fix: hash bytes, not runes, in MO hash tables

---
 internal/util/hash.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/internal/util/hash.go b/internal/util/hash.go
index a1bff94..d07117a 100644
--- a/internal/util/hash.go
+++ b/internal/util/hash.go
@@ -1,11 +1,12 @@
 package util
 
 // PJWHash computes a hash value for a string using the PJW (Elf) hash algorithm.
+// It works on bytes, as the hash tables of MO files require.
 func PJWHash(str string) uint32 {
 	var h, g uint32
 
-	for _, c := range str {
-		h = (h << 4) + uint32(c)
+	for i := 0; i < len(str); i++ {
+		h = (h << 4) + uint32(str[i])
 		g = h & 0xF0000000 // Check the top 4 bits
 		if g != 0 {
 			h ^= g >> 24 // XOR with the high bits
-- 
2.43.0


From a7ed591995c443b1850b5d69562c0b7cbe94ac3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:11 +0000
Subject: [PATCH 19/42] fix: write the MO magic number in the byte order of the
 file

---
 internal/util/bytes.go    | 17 ++++-------------
 pkg/po/parse/mo_parser.go |  2 +-
 2 files changed, 5 insertions(+), 14 deletions(-)

diff --git a/internal/util/bytes.go b/internal/util/bytes.go
index 6508c2c..15fb165 100644
--- a/internal/util/bytes.go
+++ b/internal/util/bytes.go
@@ -6,6 +6,7 @@ import (
 	"golang.org/x/sys/cpu"
 )
 
+// Magic numbers of both kinds of MO files, when read as little endian.
 const (
 	BigEndianMagicNumber    uint32 = 0xde120495
 	LittleEndianMagicNumber uint32 = 0x950412de
@@ -41,20 +42,10 @@ func (e Endianness) Order() binary.ByteOrder {
 	}
 }
 
+// MagicNumber returns the magic number of a MO file, as it must be read and written
+// using the byte order of the file itself.
 func (e Endianness) MagicNumber() uint32 {
-	switch e {
-	case LittleEndian:
-		return LittleEndianMagicNumber
-	case BigEndian:
-		return BigEndianMagicNumber
-	case NativeEndian:
-		fallthrough
-	default:
-		if IsBigEndian {
-			return BigEndianMagicNumber
-		}
-		return LittleEndianMagicNumber
-	}
+	return LittleEndianMagicNumber
 }
 
 func (e Endianness) String() string {
diff --git a/pkg/po/parse/mo_parser.go b/pkg/po/parse/mo_parser.go
index d871851..7dfbfa7 100644
--- a/pkg/po/parse/mo_parser.go
+++ b/pkg/po/parse/mo_parser.go
@@ -108,7 +108,7 @@ func (m *MoParser) defineOrder(reader *bytes.Reader) (order bin.ByteOrder) {
 	var magic u32
 
 	if m.Config.Endianness == NativeEndian {
-		err := bin.Read(reader, NativeEndian.Order(), &magic)
+		err := bin.Read(reader, bin.LittleEndian, &magic)
 		if err != nil {
 			m.error("error reading magic number: %w", err)
 			return
-- 
2.43.0


From 8a296bd9bbc73b4fab9fd7734002867b81420913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:46 +0000
Subject: [PATCH 20/42] fix: check the bounds of every table and string of MO
 files

---
 pkg/po/parse/mo_parser.go | 121 ++++++++++++--------------------------
 1 file changed, 37 insertions(+), 84 deletions(-)

diff --git a/pkg/po/parse/mo_parser.go b/pkg/po/parse/mo_parser.go
index 7dfbfa7..c99dcf8 100644
--- a/pkg/po/parse/mo_parser.go
+++ b/pkg/po/parse/mo_parser.go
@@ -15,8 +15,6 @@ import (
 // Type aliases for cleaner code.
 type (
 	u32 = uint32
-	i64 = int64
-	i32 = int32
 )
 
 // Common byte sequences used in MO file parsing.
@@ -152,6 +150,7 @@ func (m *MoParser) ParseWithOptions(opts ...MoOption) (file *po.File) {
 // Parse reads and parses the MO file into a po.File structure.
 func (m *MoParser) Parse() (file *po.File) {
 	var err error
+	m.errors = nil
 	r := bytes.NewReader(m.data)
 
 	bo := m.defineOrder(r)
@@ -174,57 +173,34 @@ func (m *MoParser) Parse() (file *po.File) {
 		m.error("invalid minor version number (%d)", v)
 	}
 
-	// Read message ID table
-	msgIDStart := make([]u32, header.Nstrings)
-	msgIDLen := make([]u32, header.Nstrings)
-	_, err = r.Seek(i64(header.OrigTabOffset), 0)
-	if err != nil {
-		m.error("bad original table offset(%d): %w", header.OrigTabOffset, err)
+	if m.Error() != nil {
 		return
 	}
 
-	for i := u32(0); i < header.Nstrings; i++ {
-		if err = bin.Read(r, bo, &msgIDLen[i]); err != nil {
-			m.error("error reading msgid len[%d]: %w", i, err)
-			return
-		}
-		if err = bin.Read(r, bo, &msgIDStart[i]); err != nil {
-			m.error("error reading msgid start[%d]: %w", i, err)
-			return
-		}
+	// Read message ID and message string tables
+	ids, err := m.readTable(bo, header.OrigTabOffset, header.Nstrings)
+	if err != nil {
+		m.error("bad original table: %w", err)
+		return
 	}
 
-	// Read message string table
-	msgStrStart := make([]i32, header.Nstrings)
-	msgStrLen := make([]i32, header.Nstrings)
-	_, err = r.Seek(i64(header.TransTabOffset), 0)
+	strs, err := m.readTable(bo, header.TransTabOffset, header.Nstrings)
 	if err != nil {
-		m.error("bad translation table offset(%d): %w", header.TransTabOffset, err)
+		m.error("bad translation table: %w", err)
 		return
 	}
 
-	for i := u32(0); i < header.Nstrings; i++ {
-		if err = bin.Read(r, bo, &msgStrLen[i]); err != nil {
-			m.error("error reading msgstr len[%d]: %w", i, err)
-			return
-		}
-		if err = bin.Read(r, bo, &msgStrStart[i]); err != nil {
-			m.error("error reading msgstr start[%d]: %w", i, err)
-			return
-		}
+	hashTabEnd := uint64(header.HashTabOffset) + uint64(header.HashTabSize)*4
+	if header.HashTabSize > 0 && hashTabEnd > uint64(len(m.data)) {
+		m.error("hash table out of bounds[offset: %d size: %d]",
+			header.HashTabOffset, header.HashTabSize)
+		return
 	}
 
 	// Create the po.File structure with all entries
-	file = &po.File{
-		Name: m.filename,
-		Entries: m.makeEntries(
-			r,
-			&header,
-			msgIDStart,
-			msgIDLen,
-			msgStrStart,
-			msgStrLen,
-		),
+	file = &po.File{Name: m.filename}
+	for i := range ids {
+		file.Entries = append(file.Entries, makeEntry(ids[i], strs[i]))
 	}
 
 	// Validate sorting if required by configuration
@@ -238,55 +214,32 @@ func (m *MoParser) Parse() (file *po.File) {
 	return
 }
 
-// makeEntries creates po.Entries from the parsed MO file data.
-func (m *MoParser) makeEntries(
-	r *bytes.Reader,
-	header *util.MoHeader,
-	msgIDStart, msgIDLen []u32,
-	msgStrStart, msgStrLen []i32,
-) (entries po.Entries) {
-	for i := u32(0); i < header.Nstrings; i++ {
-		idStart := i64(msgIDStart[i])
-		idLen := msgIDLen[i]
-		strStart := i64(msgStrStart[i])
-		strLen := msgStrLen[i]
-
-		// Read message ID data
-		_, err := r.Seek(idStart, 0)
-		if err != nil {
-			m.error("bad msgid start[%d]: %w", idStart, err)
-		}
+// readTable reads the strings that a table with n (length, offset) pairs refers to.
+// The table and every string, with its final NUL, must lie inside the file.
+func (m *MoParser) readTable(bo bin.ByteOrder, offset, n u32) ([][]byte, error) {
+	size := uint64(len(m.data))
 
-		msgIDData := make([]byte, idLen)
-		_, err = r.Read(msgIDData)
-		if err != nil {
-			m.error(
-				"error reading msgid data[start: %d len: %d]: %w",
-				idStart,
-				idLen,
-				err,
-			)
-		}
+	if uint64(offset)+uint64(n)*8 > size {
+		return nil, fmt.Errorf("table out of bounds[offset: %d strings: %d]", offset, n)
+	}
 
-		// Read message string data
-		_, err = r.Seek(strStart, 0)
-		if err != nil {
-			m.error("bad msgstr start[%d]: %w", strStart, err)
+	table := m.data[offset:]
+	strs := make([][]byte, n)
+	for i := range strs {
+		length := uint64(bo.Uint32(table[i*8:]))
+		start := uint64(bo.Uint32(table[i*8+4:]))
+
+		if start+length >= size {
+			return nil, fmt.Errorf("string out of bounds[start: %d len: %d]", start, length)
 		}
-		msgStrData := make([]byte, strLen)
-		_, err = r.Read(msgStrData)
-		if err != nil {
-			m.error("error reading msgstr data[start: %d len: %d]: %w",
-				strStart,
-				strLen,
-				err,
-			)
+		if m.data[start+length] != 0 {
+			return nil, fmt.Errorf("unterminated string[start: %d len: %d]", start, length)
 		}
 
-		entries = append(entries, makeEntry(msgIDData, msgStrData))
+		strs[i] = m.data[start : start+length]
 	}
 
-	return
+	return strs, nil
 }
 
 // Is there a way to make this code more... clean? maybe...
@@ -320,7 +273,7 @@ func makeEntry(msgid, msgstr []byte) (entry po.Entry) {
 
 	// Handle plural forms in message string
 	msgstrParts := bytes.Split(msgstr, nul)
-	if len(msgstrParts) == 1 {
+	if len(msgstrParts) == 1 && len(msgidParts) == 1 {
 		entry.Str = string(msgstrParts[0])
 	} else {
 		for i, s := range msgstrParts {
-- 
2.43.0


From 0538cd5117033b2162ae5785f78d2719d35c8987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:49 +0000
Subject: [PATCH 21/42] fix: a duplicate that is not compiled must not hide one
 that is

---
 pkg/po/compile/mo_compile.go | 2 +-
 pkg/po/entries.go            | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/po/compile/mo_compile.go b/pkg/po/compile/mo_compile.go
index 75ac49c..33df63a 100644
--- a/pkg/po/compile/mo_compile.go
+++ b/pkg/po/compile/mo_compile.go
@@ -58,7 +58,7 @@ func (mc *MoCompiler) writeTo(writer io.Writer) error {
 	entries := mc.File.Entries
 	if mc.Config.DepureEntries {
 		mc.info("cleaning entries...")
-		entries = mc.File.Entries.CleanDuplicates().CleanFuzzy().CleanObsoletes()
+		entries = mc.File.Entries.CleanFuzzy().CleanObsoletes().CleanDuplicates()
 	}
 	if mc.Config.SortEntries {
 		mc.info("sorting entries...")
diff --git a/pkg/po/entries.go b/pkg/po/entries.go
index e0e7a5c..b0d1279 100644
--- a/pkg/po/entries.go
+++ b/pkg/po/entries.go
@@ -141,8 +141,9 @@ func (e Entries) CleanObsoletes() Entries {
 func (e Entries) CleanDuplicates() Entries {
 	return e.SolveFunc(func(a, b Entry) *Entry {
 		a.Locations = append(slices.Clip(a.Locations), b.Locations...)
-		// The same message may be used with and without a plural form.
+		// The same message may be used with and without a plural form or translation.
 		if !a.IsPlural() && a.Str == "" {
+			a.Str = b.Str
 			a.Plural = b.Plural
 			a.Plurals = b.Plurals
 		}
-- 
2.43.0


From 87dfa110be5145aa1ab50a2352b919fd480d8837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:16 +0000
Subject: [PATCH 22/42] fix: report missing inputs and honour excluded
 directories

---
 cli/xgotext/cmd/input.go |  3 +++
 internal/util/skip.go    | 11 +++++++++--
 pkg/go/parse/parser.go   |  4 ++++
 3 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/cli/xgotext/cmd/input.go b/cli/xgotext/cmd/input.go
index 17ac4a4..3f0a92f 100644
--- a/cli/xgotext/cmd/input.go
+++ b/cli/xgotext/cmd/input.go
@@ -73,6 +73,9 @@ func readFiles(paths []string) ([]*os.File, error) {
 	for _, path := range paths {
 		walker := krfs.Walk(path)
 		for walker.Step() {
+			if err := walker.Err(); err != nil {
+				return nil, err
+			}
 			if util.ShouldSkipFile(walker, exclude, &seenFiles, logger) {
 				continue
 			}
diff --git a/internal/util/skip.go b/internal/util/skip.go
index c27a3b9..21d7b23 100644
--- a/internal/util/skip.go
+++ b/internal/util/skip.go
@@ -3,6 +3,7 @@ package util
 import (
 	"log"
 	"path/filepath"
+	"strings"
 
 	"github.com/Tom5521/gotext-tools/v2/internal/slices"
 	krfs "github.com/kr/fs"
@@ -40,11 +41,17 @@ func ShouldSkipFile(
 	return isExcludedPath(w.Path(), excludedPaths)
 }
 
-// isExcludedPath checks if a path is in the exclude list defined in the configuration.
+// isExcludedPath checks if a path, or a directory it lies in, is in the exclude list
+// defined in the configuration.
 func isExcludedPath(path string, exclude []string) bool {
 	return slices.ContainsFunc(exclude, func(s string) bool {
 		abs1, err1 := filepath.Abs(s)
 		abs2, err2 := filepath.Abs(path)
-		return (abs1 == abs2) && (err1 == nil && err2 == nil)
+		if err1 != nil || err2 != nil {
+			return false
+		}
+		rel, err := filepath.Rel(abs1, abs2)
+		return err == nil && rel != ".." &&
+			!strings.HasPrefix(rel, ".."+string(filepath.Separator))
 	})
 }
diff --git a/pkg/go/parse/parser.go b/pkg/go/parse/parser.go
index 8499b4d..1303b4d 100644
--- a/pkg/go/parse/parser.go
+++ b/pkg/go/parse/parser.go
@@ -58,6 +58,10 @@ func (p *Parser) appendFiles(files ...string) error {
 	for _, file := range files {
 		walker := krfs.Walk(file)
 		for walker.Step() {
+			if err := walker.Err(); err != nil {
+				p.error("error reading %s: %w", walker.Path(), err)
+				return p.lastErr()
+			}
 			if util.ShouldSkipFile(walker, p.Config.Exclude, &p.seen, p.Config.Logger) {
 				continue
 			}
-- 
2.43.0


From 5fc78a2192de81b26ea526c20643f1abb7fe7c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:18 +0000
Subject: [PATCH 23/42] fix: report the line on which a literal begins

---
 pkg/go/parse/process.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/go/parse/process.go b/pkg/go/parse/process.go
index e03b80a..9d73b46 100644
--- a/pkg/go/parse/process.go
+++ b/pkg/go/parse/process.go
@@ -64,7 +64,7 @@ func (f *File) basicLitToEntry(n *ast.BasicLit) (po.Entry, error) {
 	return po.Entry{
 		ID: str,
 		Locations: []po.Location{{
-			Line: util.FindLineFromReader(f.reader, n.Pos()),
+			Line: util.FindLineFromReader(f.reader, n.Pos()-1),
 			File: f.name,
 		}},
 	}, nil
@@ -137,7 +137,7 @@ func (f *File) processPoCall(
 			entry.Locations = append(entry.Locations,
 				po.Location{
 					File: f.name,
-					Line: util.FindLineFromReader(f.reader, arg.pos),
+					Line: util.FindLineFromReader(f.reader, arg.pos-1),
 				},
 			)
 			fallthrough
-- 
2.43.0


From 8fc160d924698dd7a018ebe39dc025d373e8fbd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:57 +0000
Subject: [PATCH 24/42] fix: ignore empty lines in lists of file names

---
 cli/xgotext/cmd/root.go | 4 +++-
 internal/util/skip.go   | 3 +++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/cli/xgotext/cmd/root.go b/cli/xgotext/cmd/root.go
index 83f33b6..609d32b 100644
--- a/cli/xgotext/cmd/root.go
+++ b/cli/xgotext/cmd/root.go
@@ -74,7 +74,9 @@ func readFilesFrom(path string) ([]string, error) {
 	}
 	var files []string
 	for _, line := range bytes.Split(file, []byte{'\n'}) {
-		files = append(files, string(line))
+		if line = bytes.TrimSpace(line); len(line) > 0 {
+			files = append(files, string(line))
+		}
 	}
 
 	return files, nil
diff --git a/internal/util/skip.go b/internal/util/skip.go
index 21d7b23..f2dce1d 100644
--- a/internal/util/skip.go
+++ b/internal/util/skip.go
@@ -45,6 +45,9 @@ func ShouldSkipFile(
 // defined in the configuration.
 func isExcludedPath(path string, exclude []string) bool {
 	return slices.ContainsFunc(exclude, func(s string) bool {
+		if s == "" {
+			return false
+		}
 		abs1, err1 := filepath.Abs(s)
 		abs2, err2 := filepath.Abs(path)
 		if err1 != nil || err2 != nil {
-- 
2.43.0


From 09cecab11280f8bec8e14970e5b36b1f183e9598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:58 +0000
Subject: [PATCH 25/42] fix: resetting a Go file forgets everything about the
 previous one

---
 pkg/go/parse/file.go | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/pkg/go/parse/file.go b/pkg/go/parse/file.go
index 11a2004..32bd13e 100644
--- a/pkg/go/parse/file.go
+++ b/pkg/go/parse/file.go
@@ -58,16 +58,14 @@ func (f *File) error(format string, a ...any) error {
 func (f *File) Reset(d io.Reader, name string, config *Config) error {
 	f.seenNodes = nil
 	f.errors = nil
+	f.pkgName = DefaultPackageName
+	f.hasGotext = false
 
-	if r, ok := d.(*bytes.Reader); ok {
-		f.reader = r
-	} else {
-		b, err := io.ReadAll(d)
-		if err != nil {
-			return err
-		}
-		f.reader = bytes.NewReader(b)
+	b, err := io.ReadAll(d)
+	if err != nil {
+		return err
 	}
+	f.reader = bytes.NewReader(b)
 	f.name = name
 
 	if config != nil {
-- 
2.43.0


From 9e0243d4f2dced7ca09ef30e8be0632de8f29f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:00 +0000
Subject: [PATCH 26/42] fix: a malformed call or an empty literal must not hide
 other messages

---
 pkg/go/parse/file.go    |  5 ++++-
 pkg/go/parse/parser.go  |  4 +---
 pkg/go/parse/process.go | 29 +++++++++++++++++++++--------
 3 files changed, 26 insertions(+), 12 deletions(-)

diff --git a/pkg/go/parse/file.go b/pkg/go/parse/file.go
index 32bd13e..58ff72a 100644
--- a/pkg/go/parse/file.go
+++ b/pkg/go/parse/file.go
@@ -9,6 +9,7 @@ import (
 	"go/token"
 	"io"
 	"os"
+	"strconv"
 
 	"github.com/Tom5521/gotext-tools/v2/pkg/po"
 )
@@ -134,7 +135,9 @@ func (f *File) parse() error {
 // It determines the package name and checks if the desired "gotext" package is imported.
 func (f *File) determinePackageInfo() {
 	for _, imp := range f.file.Imports {
-		if imp.Path.Value == WantedImport {
+		// Import paths may be quoted in two ways.
+		path, err := strconv.Unquote(imp.Path.Value)
+		if err == nil && strconv.Quote(path) == WantedImport {
 			f.hasGotext = true
 			if imp.Name != nil {
 				f.pkgName = imp.Name.String()
diff --git a/pkg/go/parse/parser.go b/pkg/go/parse/parser.go
index 1303b4d..43d8bfe 100644
--- a/pkg/go/parse/parser.go
+++ b/pkg/go/parse/parser.go
@@ -207,9 +207,7 @@ func (p *Parser) Parse() (file *po.File) {
 	for _, f := range p.files {
 		p.info("parsing %s...", f.name)
 		entries := f.Entries()
-		if err := f.Error(); err != nil {
-			continue
-		}
+		p.errors = append(p.errors, f.Errors()...)
 		file.Entries = append(file.Entries, entries...)
 	}
 
diff --git a/pkg/go/parse/process.go b/pkg/go/parse/process.go
index 9d73b46..3027fbf 100644
--- a/pkg/go/parse/process.go
+++ b/pkg/go/parse/process.go
@@ -74,6 +74,7 @@ func (f *File) basicLitToEntry(n *ast.BasicLit) (po.Entry, error) {
 type argumentData struct {
 	str   string
 	valid bool
+	lit   *ast.BasicLit
 	err   error
 	pos   token.Pos
 }
@@ -97,19 +98,17 @@ func (f *File) extractArg(index int, call *ast.CallExpr) (a argumentData) {
 		return
 	}
 
-	if lit.Value == `""` {
-		return
-	}
-
-	f.seenNodes[lit] = struct{}{}
-
 	str, err := strconv.Unquote(lit.Value)
 	if err != nil {
 		a.err = f.error("error unquoting basic literal: %w", err)
 		return
 	}
 
-	return argumentData{str, true, err, lit.Pos()}
+	if str == "" {
+		return
+	}
+
+	return argumentData{str, true, lit, nil, lit.Pos()}
 }
 
 // processPoCall processes a gotext function call and extracts translation entries.
@@ -149,6 +148,17 @@ func (f *File) processPoCall(
 		}
 	}
 
+	if !valid {
+		return
+	}
+
+	// These literals are already part of the entry.
+	for _, arg := range args {
+		if arg.valid {
+			f.seenNodes[arg.lit] = struct{}{}
+		}
+	}
+
 	return
 }
 
@@ -187,7 +197,7 @@ func (f *File) processNode(n ast.Node) (po.Entries, []error) {
 		}
 	case *ast.BasicLit:
 		_, ok := f.seenNodes[t]
-		if t.Kind != token.STRING || ok || t.Value == `""` {
+		if t.Kind != token.STRING || ok {
 			break
 		}
 		f.seenNodes[t] = struct{}{}
@@ -196,6 +206,9 @@ func (f *File) processNode(n ast.Node) (po.Entries, []error) {
 			errors = append(errors, err)
 			break
 		}
+		if entry.ID == "" {
+			break
+		}
 		entries = append(entries, entry)
 	}
 
-- 
2.43.0


From a06859ba883109b2676cd753d9100b0b2d18fd22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:30 +0000
Subject: [PATCH 27/42] fix: restoring the last configuration works whatever
 the options were

---
 pkg/go/parse/config.go      | 4 +++-
 pkg/po/compile/mo_config.go | 4 +++-
 pkg/po/compile/po_config.go | 8 ++++++--
 pkg/po/parse/mo_config.go   | 4 +++-
 pkg/po/parse/po_config.go   | 4 +++-
 5 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/pkg/go/parse/config.go b/pkg/go/parse/config.go
index b8cd0b9..6f6197a 100644
--- a/pkg/go/parse/config.go
+++ b/pkg/go/parse/config.go
@@ -34,11 +34,13 @@ func (c *Config) RestoreLastCfg() {
 // saving the previous state so that it can be restored
 // later with [Config.RestoreLastCfg] if desired.
 func (c *Config) ApplyOptions(opts ...Option) {
-	c.lastCfg = *c
+	// Options may replace everything, the backup included.
+	last := *c
 
 	for _, opt := range opts {
 		opt(c)
 	}
+	c.lastCfg = last
 }
 
 func DefaultConfig(opts ...Option) Config {
diff --git a/pkg/po/compile/mo_config.go b/pkg/po/compile/mo_config.go
index c9f1885..b00baae 100644
--- a/pkg/po/compile/mo_config.go
+++ b/pkg/po/compile/mo_config.go
@@ -54,11 +54,13 @@ const (
 // saving the previous state so that it can be restored
 // later with [MoConfig.RestoreLastCfg] if desired.
 func (mc *MoConfig) ApplyOptions(opts ...MoOption) {
-	mc.lastCfg = *mc
+	// Options may replace everything, the backup included.
+	last := *mc
 
 	for _, opt := range opts {
 		opt(mc)
 	}
+	mc.lastCfg = last
 }
 
 // RestoreLastCfg restores the configuration state prior to the last
diff --git a/pkg/po/compile/po_config.go b/pkg/po/compile/po_config.go
index bfd7926..dfcf596 100644
--- a/pkg/po/compile/po_config.go
+++ b/pkg/po/compile/po_config.go
@@ -64,16 +64,20 @@ func NewPoConfigFromOptions(opts ...PoOption) PoConfig {
 // saving the previous state so that it can be restored
 // later with [PoConfig.RestoreLastCfg] if desired.
 func (c *PoConfig) ApplyOptions(opts ...PoOption) {
-	c.lastCfg = *c
+	// Options may replace everything, the backup included.
+	last := *c
 	for _, po := range opts {
 		po(c)
 	}
+	c.lastCfg = last
 }
 
 // RestoreLastCfg restores the configuration state prior to the last
 // [PoConfig.ApplyOptions] if it exists, otherwise it does nothing.
 func (c *PoConfig) RestoreLastCfg() {
-	*c = c.lastCfg.(PoConfig)
+	if c.lastCfg != nil {
+		*c = c.lastCfg.(PoConfig)
+	}
 }
 
 type PoLocationMode string
diff --git a/pkg/po/parse/mo_config.go b/pkg/po/parse/mo_config.go
index 6d70504..b53d39d 100644
--- a/pkg/po/parse/mo_config.go
+++ b/pkg/po/parse/mo_config.go
@@ -42,11 +42,13 @@ func (mc *MoConfig) RestoreLastCfg() {
 // saving the previous state so that it can be restored
 // later with [MoConfig.RestoreLastCfg] if desired.
 func (mc *MoConfig) ApplyOptions(opts ...MoOption) {
-	mc.lastCfg = *mc
+	// Options may replace everything, the backup included.
+	last := *mc
 
 	for _, mo := range opts {
 		mo(mc)
 	}
+	mc.lastCfg = last
 }
 
 // Endianness represents byte order options for MO files.
diff --git a/pkg/po/parse/po_config.go b/pkg/po/parse/po_config.go
index 846b87a..cb1af76 100644
--- a/pkg/po/parse/po_config.go
+++ b/pkg/po/parse/po_config.go
@@ -49,10 +49,12 @@ func (p *PoConfig) RestoreLastCfg() {
 // saving the previous state so that it can be restored
 // later with [PoConfig.RestoreLastCfg] if desired.
 func (p *PoConfig) ApplyOptions(opts ...PoOption) {
-	p.lastCfg = *p
+	// Options may replace everything, the backup included.
+	last := *p
 	for _, opt := range opts {
 		opt(p)
 	}
+	p.lastCfg = last
 }
 
 // DefaultPoConfig returns a new PoConfig with recommended defaults:
-- 
2.43.0


From a6a4e27972db4fe972a1618881b5628f3b65352f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:45 +0000
Subject: [PATCH 28/42] fix: msgomerge reads its inputs before writing and
 keeps the header

---
 cli/msgomerge/cmd/config.go |  1 -
 cli/msgomerge/cmd/root.go   | 66 ++++++++++++-------------------------
 2 files changed, 21 insertions(+), 46 deletions(-)

diff --git a/cli/msgomerge/cmd/config.go b/cli/msgomerge/cmd/config.go
index 04b9c55..2a83ff3 100644
--- a/cli/msgomerge/cmd/config.go
+++ b/cli/msgomerge/cmd/config.go
@@ -22,7 +22,6 @@ func initConfig(cmd *cobra.Command, args []string) {
 		AddLocation: compile.PoLocationMode(addLocation),
 		WordWrap:    !noWrap,
 		ForcePo:     forcePo,
-		OmitHeader:  true,
 		Verbose:     verbose,
 		Logger:      log.Default(),
 	}
diff --git a/cli/msgomerge/cmd/root.go b/cli/msgomerge/cmd/root.go
index 7b813c9..68db17d 100644
--- a/cli/msgomerge/cmd/root.go
+++ b/cli/msgomerge/cmd/root.go
@@ -1,8 +1,8 @@
 package cmd
 
 import (
+	"bytes"
 	"fmt"
-	"io"
 	"os"
 	"path/filepath"
 
@@ -34,13 +34,7 @@ Where an exact match cannot be found, fuzzy matching is used to produce better r
 %s es.po en.pot -U`,
 		use, use, use,
 	),
-	Args: func(cmd *cobra.Command, args []string) error {
-		if len(args) != 2 && len(compendium) < 1 {
-			return cobra.ExactArgs(2)(cmd, args)
-		}
-
-		return nil
-	},
+	Args:   cobra.ExactArgs(2),
 	PreRun: initConfig,
 	RunE: func(cmd *cobra.Command, args []string) (err error) {
 		defPath, refPath := args[0], args[1]
@@ -53,34 +47,12 @@ Where an exact match cannot be found, fuzzy matching is used to produce better r
 			refPath = filepath.Join(directory, refPath)
 		}
 
-		var defFile, refFile *os.File
-		if defFile, err = os.OpenFile(defPath, os.O_RDWR, os.ModePerm); err != nil {
-			return err
-		}
-		if refFile, err = os.OpenFile(refPath, os.O_RDWR, os.ModePerm); err != nil {
-			return err
-		}
-		defer defFile.Close()
-		defer refFile.Close()
-
-		var outWriter io.Writer
-		if outputPath == "-" {
-			outWriter = os.Stdout
-		} else {
-			var file *os.File
-			file, err = os.OpenFile(outputPath, os.O_TRUNC|os.O_CREATE|os.O_WRONLY, os.ModePerm)
-			if err != nil {
-				return err
-			}
-			defer file.Close()
-			outWriter = file
-		}
-
+		// Read every input before touching any output, both may be the same file.
 		var def, ref *po.File
-		if def, err = parse.PoFromFile(defFile); err != nil {
+		if def, err = parse.Po(defPath); err != nil {
 			return err
 		}
-		if ref, err = parse.PoFromFile(refFile); err != nil {
+		if ref, err = parse.Po(refPath); err != nil {
 			return err
 		}
 
@@ -97,24 +69,28 @@ Where an exact match cannot be found, fuzzy matching is used to produce better r
 			ref.Entries = ref.Solve()
 		}
 
+		out := &po.File{
+			Name:    outputPath,
+			Entries: po.MergeWithConfig(mergeCfg, def.Entries, ref.Entries),
+		}
+
+		var merged bytes.Buffer
+		err = compile.PoToWriter(out, &merged, compile.PoWithConfig(compilerCfg))
+		if err != nil {
+			return err
+		}
+
 		if update {
-			// Reset and truncate defFile
-			if _, err := defFile.Seek(0, 0); err != nil {
-				return err
-			}
-			if err := defFile.Truncate(0); err != nil {
+			if err = os.WriteFile(defPath, merged.Bytes(), os.ModePerm); err != nil {
 				return err
 			}
-
-			outWriter = io.MultiWriter(defFile, outWriter)
 		}
 
-		out := &po.File{
-			Name:    outputPath,
-			Entries: po.MergeWithConfig(mergeCfg, def.Entries, ref.Entries),
+		if outputPath == "-" {
+			_, err = os.Stdout.Write(merged.Bytes())
+			return err
 		}
-
-		return compile.PoToWriter(out, outWriter, compile.PoWithConfig(compilerCfg))
+		return os.WriteFile(outputPath, merged.Bytes(), os.ModePerm)
 	},
 }
 
-- 
2.43.0


From 1cb6c570d5982403e530517fb20e6a84e6cc8b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:45 +0000
Subject: [PATCH 29/42] fix: msgofmt writes to stdout for -, compiles only the
 PO files of a directory, honours its options there

---
 cli/msgofmt/cmd/root.go | 82 ++++++++++++++++++++++-------------------
 1 file changed, 44 insertions(+), 38 deletions(-)

diff --git a/cli/msgofmt/cmd/root.go b/cli/msgofmt/cmd/root.go
index 64dc529..c31aae5 100644
--- a/cli/msgofmt/cmd/root.go
+++ b/cli/msgofmt/cmd/root.go
@@ -38,50 +38,18 @@ If input file is -, standard input is read.`,
 	},
 	RunE: func(cmd *cobra.Command, args []string) (err error) {
 		if directory != "" {
-			output = filepath.Join(directory, output)
+			if len(args) == 0 {
+				return compileDirectory()
+			}
+			if output != "-" {
+				output = filepath.Join(directory, output)
+			}
 			for i, v := range args {
 				if v == "-" {
 					continue
 				}
 				args[i] = filepath.Join(directory, v)
 			}
-			if len(args) >= 0 {
-				var entries []os.DirEntry
-				entries, err = os.ReadDir(directory)
-				if err != nil {
-					return
-				}
-				if len(args) > 0 {
-					for _, de := range entries {
-						if !de.IsDir() && filepath.Ext(de.Name()) == ".po" {
-							args = append(args, filepath.Join(directory, de.Name()))
-						}
-					}
-				} else {
-					for _, de := range entries {
-						if de.IsDir() {
-							continue
-						}
-						basename := strings.TrimSuffix(de.Name(), filepath.Ext(de.Name()))
-						newMo := filepath.Join(directory, basename+".mo")
-
-						var poFile *po.File
-						poFile, err = parse.Po(filepath.Join(directory, de.Name()))
-						if err != nil {
-							return
-						}
-						if errs := poFile.Validate(); len(errs) > 0 {
-							err = errs[0]
-							return
-						}
-						err = compile.MoToFile(poFile, newMo)
-						if err != nil {
-							return
-						}
-					}
-					return
-				}
-			}
 		}
 
 		var allEntries po.Entries
@@ -105,10 +73,48 @@ If input file is -, standard input is read.`,
 			return
 		}
 
+		if output == "-" {
+			return compile.MoToWriter(allEntries, os.Stdout, compile.MoWithConfig(compilerCfg))
+		}
 		return compile.MoToFile(allEntries, output, compile.MoWithConfig(compilerCfg))
 	},
 }
 
+// compileDirectory compiles every PO file of the directory.
+// Nothing is written unless all of them are valid.
+func compileDirectory() error {
+	entries, err := os.ReadDir(directory)
+	if err != nil {
+		return err
+	}
+
+	var files []*po.File
+	for _, de := range entries {
+		if de.IsDir() || filepath.Ext(de.Name()) != ".po" {
+			continue
+		}
+
+		poFile, err := parse.Po(filepath.Join(directory, de.Name()))
+		if err != nil {
+			return err
+		}
+		if errs := poFile.Validate(); len(errs) > 0 {
+			return errs[0]
+		}
+		files = append(files, poFile)
+	}
+
+	for _, poFile := range files {
+		newMo := strings.TrimSuffix(poFile.Name, ".po") + ".mo"
+		err = compile.MoToFile(poFile, newMo, compile.MoWithConfig(compilerCfg))
+		if err != nil {
+			return err
+		}
+	}
+
+	return nil
+}
+
 func Execute() {
 	err := root.Execute()
 	if err != nil {
-- 
2.43.0


From a2151eb34bf761b996a6af2978173c8bf4d6d67d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:45 +0000
Subject: [PATCH 30/42] fix: msgocat honours --files-from

---
 cli/msgocat/cmd/parse.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cli/msgocat/cmd/parse.go b/cli/msgocat/cmd/parse.go
index 9c107de..bd47683 100644
--- a/cli/msgocat/cmd/parse.go
+++ b/cli/msgocat/cmd/parse.go
@@ -22,8 +22,10 @@ func expandArgsWithFiles(args []string) ([]string, error) {
 		return nil, err
 	}
 
-	if len(filesFromContent) > 0 {
-		filesFromContent = strings.Split(string(filesFromBinContent), "\n")
+	for _, name := range strings.Split(string(filesFromBinContent), "\n") {
+		if name = strings.TrimSpace(name); name != "" {
+			filesFromContent = append(filesFromContent, name)
+		}
 	}
 
 	var directoryContent []string
-- 
2.43.0


From 6ca5d99919e2cef93764f72735670c384905c87e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:45 +0000
Subject: [PATCH 31/42] fix: msgounfmt reads standard input when no file is
 given

---
 cli/msgounfmt/cmd/root.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cli/msgounfmt/cmd/root.go b/cli/msgounfmt/cmd/root.go
index f725082..e36a495 100644
--- a/cli/msgounfmt/cmd/root.go
+++ b/cli/msgounfmt/cmd/root.go
@@ -25,8 +25,10 @@ Input file location:
   FILE ...                    input .mo files
 If no input file is given or if it is -, standard input is read.`,
 	PreRunE: initCfg,
-	Args:    cobra.MinimumNArgs(1),
 	RunE: func(cmd *cobra.Command, args []string) error {
+		if len(args) == 0 {
+			args = []string{"-"}
+		}
 		file := &po.File{
 			Name: "input.mo",
 		}
-- 
2.43.0


From 8087d8675e1c00763e3d76bff7914c0b89741945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:45 +0000
Subject: [PATCH 32/42] fix: xgotext --join-existing keeps the existing file

---
 cli/xgotext/cmd/config.go |  4 +---
 cli/xgotext/cmd/join.go   | 47 ++++++++++++++-------------------------
 cli/xgotext/cmd/output.go | 22 ++++++++----------
 cli/xgotext/cmd/root.go   | 11 +++++----
 4 files changed, 34 insertions(+), 50 deletions(-)

diff --git a/cli/xgotext/cmd/config.go b/cli/xgotext/cmd/config.go
index f92b5a7..ef2d73b 100644
--- a/cli/xgotext/cmd/config.go
+++ b/cli/xgotext/cmd/config.go
@@ -59,7 +59,5 @@ func initConfig() {
 		CompilerCfg.Highlight = compile.DefaultHighlight
 	}
 
-	PoParserCfg = poparse.PoConfig{
-		Logger: logger,
-	}
+	PoParserCfg = poparse.DefaultPoConfig(poparse.PoWithLogger(logger))
 }
diff --git a/cli/xgotext/cmd/join.go b/cli/xgotext/cmd/join.go
index 31c8152..0e9ab71 100644
--- a/cli/xgotext/cmd/join.go
+++ b/cli/xgotext/cmd/join.go
@@ -1,48 +1,35 @@
 package cmd
 
 import (
+	"errors"
 	"os"
 
-	goparse "github.com/Tom5521/gotext-tools/v2/pkg/go/parse"
+	"github.com/Tom5521/gotext-tools/v2/internal/slices"
 	"github.com/Tom5521/gotext-tools/v2/pkg/po"
-	"github.com/Tom5521/gotext-tools/v2/pkg/po/compile"
 	poparse "github.com/Tom5521/gotext-tools/v2/pkg/po/parse"
 )
 
-func join(newParse *goparse.Parser, rawfile *os.File) error {
-	baseParse, err := poparse.NewPoFromReader(
-		rawfile,
-		rawfile.Name(),
-		poparse.PoWithConfig(PoParserCfg),
-	)
-	if err != nil {
-		return err
-	}
-
-	poParsed := baseParse.Parse()
-	if len(baseParse.Errors()) > 0 {
-		return baseParse.Errors()[0]
+// join returns the messages of the existing output file merged with the extracted ones.
+func join(extracted *po.File) (*po.File, error) {
+	if output == "-" {
+		return nil, errors.New("--join-existing needs an output file")
 	}
 
-	goParsed := newParse.Parse()
-	if len(newParse.Errors()) > 0 {
-		return newParse.Errors()[0]
+	existing, err := poparse.Po(outputPath(), poparse.PoWithConfig(PoParserCfg))
+	if errors.Is(err, os.ErrNotExist) {
+		return extracted, nil
 	}
-
-	poParsed.Entries = po.Merge(poParsed.Entries, goParsed.Entries)
-
-	compiler := compile.NewPo(poParsed, compile.PoWithConfig(CompilerCfg))
-
-	// Truncate file.
-	rawfile, err = os.Create(rawfile.Name())
 	if err != nil {
-		return err
+		return nil, err
 	}
 
-	err = compiler.ToWriter(rawfile)
-	if err != nil {
-		return err
+	entries := existing.Entries
+	if i := extracted.Index("", ""); i != -1 && !existing.HasHeader() {
+		entries = append(slices.Clone(extracted.Entries[i:i+1]), entries...)
 	}
 
-	return nil
+	return &po.File{
+		Name:    existing.Name,
+		Entries: po.Merge(entries, extracted.Entries, po.MergeWithFuzzyMatch(false)),
+	}, nil
 }
diff --git a/cli/xgotext/cmd/output.go b/cli/xgotext/cmd/output.go
index a0d2aef..2994645 100644
--- a/cli/xgotext/cmd/output.go
+++ b/cli/xgotext/cmd/output.go
@@ -1,27 +1,23 @@
 package cmd
 
 import (
-	"fmt"
 	"os"
 	"path/filepath"
 )
 
+// outputPath returns the path of the output file, when it isn't the standard output.
+func outputPath() string {
+	if output == "" {
+		return filepath.Join(outputDir, defaultDomain+".pot")
+	}
+	return filepath.Join(outputDir, output)
+}
+
 func processOutput() (*os.File, error) {
 	if output == "-" {
 		return os.Stdout, nil
 	}
 
-	customOutput := output != ""
-	outputFilePath := filepath.Join(outputDir, defaultDomain+".pot")
-	if customOutput {
-		outputFilePath = filepath.Join(outputDir, output)
-	}
-
-	_, err := os.OpenFile(outputFilePath, os.O_RDWR, os.ModePerm)
-	if os.IsExist(err) && !forcePo && customOutput {
-		return nil, fmt.Errorf("file %s already exists", outputFilePath)
-	}
-
 	// Truncate file.
-	return os.Create(outputFilePath)
+	return os.Create(outputPath())
 }
diff --git a/cli/xgotext/cmd/root.go b/cli/xgotext/cmd/root.go
index 609d32b..a47a2e5 100644
--- a/cli/xgotext/cmd/root.go
+++ b/cli/xgotext/cmd/root.go
@@ -44,6 +44,13 @@ Similarly for optional arguments.`,
 			)
 		}
 
+		// The output file must be read before it is truncated.
+		if joinExisting {
+			if parsedFile, err = join(parsedFile); err != nil {
+				return err
+			}
+		}
+
 		out, err := processOutput()
 		if err != nil {
 			return err
@@ -54,10 +61,6 @@ Similarly for optional arguments.`,
 			}
 		}()
 
-		if joinExisting {
-			return join(parser, out)
-		}
-
 		err = compile.PoToWriter(parsedFile, out, compile.PoWithConfig(CompilerCfg))
 		if err != nil {
 			return fmt.Errorf("error compiling translations: %w", err)
-- 
2.43.0


From bbf4362a0971041ee700c32d28e5f1481a54c3a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:46 +0000
Subject: [PATCH 33/42] fix: xgotext must not mix log messages with its output

---
 cli/xgotext/cmd/root.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/xgotext/cmd/root.go b/cli/xgotext/cmd/root.go
index a47a2e5..cb0e61b 100644
--- a/cli/xgotext/cmd/root.go
+++ b/cli/xgotext/cmd/root.go
@@ -10,7 +10,7 @@ import (
 	"github.com/spf13/cobra"
 )
 
-var logger = log.New(os.Stdout, "", log.Ltime)
+var logger = log.New(os.Stderr, "", log.Ltime)
 
 var use = "xgotext"
 
-- 
2.43.0


From d92ca1a207fca8c3ec6ccee562ec655251fbe895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:20 +0000
Subject: [PATCH 34/42] fix: report strings that reach the end of their line

---
 internal/util/po_parse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/util/po_parse.go b/internal/util/po_parse.go
index c67f122..0aa49ad 100644
--- a/internal/util/po_parse.go
+++ b/internal/util/po_parse.go
@@ -43,7 +43,7 @@ var (
 		{Name: "Integer", Pattern: `\d+`},
 		{Name: "LB", Pattern: `\[`},
 		{Name: "RB", Pattern: `\]`},
-		{Name: "String", Pattern: `"(\\.|[^"\\])*"`},
+		{Name: "String", Pattern: `"(\\.|[^"\\\n])*"`},
 		{Name: "Msgctxt", Pattern: "msgctxt"},
 		{Name: "MsgidPlural", Pattern: "msgid_plural"},
 		{Name: "Msgid", Pattern: "msgid"},
-- 
2.43.0


From c732f0959b29021dc3abc539ae7d8e1fb9c2f0f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:51 +0000
Subject: [PATCH 35/42] fix: comment out the comments of fuzzy entries too

---
 pkg/po/compile/po_compiler_format.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/po/compile/po_compiler_format.go b/pkg/po/compile/po_compiler_format.go
index 10aab5a..1eb4d5d 100644
--- a/pkg/po/compile/po_compiler_format.go
+++ b/pkg/po/compile/po_compiler_format.go
@@ -95,7 +95,9 @@ func (eb *entryBuilder) BuildEntry() []byte {
 
 		for _, line := range strings.Split(entry, "\n") {
 			plain := colorCodeRegex.ReplaceAllString(line, "")
-			if strings.HasPrefix(plain, "#") || plain == "" {
+			// The comments of a fuzzy entry are commented out too, otherwise
+			// they would become the comments and flags of the next entry.
+			if (eb.Obsolete && strings.HasPrefix(plain, "#")) || plain == "" {
 				buf.WriteString(line + "\n")
 				continue
 			}
-- 
2.43.0


From ecfb398983696fb6471e7123b3444d4dd48a1dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:21 +0000
Subject: [PATCH 36/42] fix: compare line numbers and plural indexes without
 overflow

---
 pkg/po/cmp.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/pkg/po/cmp.go b/pkg/po/cmp.go
index 6764e03..19154ce 100644
--- a/pkg/po/cmp.go
+++ b/pkg/po/cmp.go
@@ -140,7 +140,7 @@ func ComparePluralEntryByStr(a, b PluralEntry) int {
 
 // ComparePluralEntryByID compares two plural entries by their numeric IDs.
 func ComparePluralEntryByID(a, b PluralEntry) int {
-	return a.ID - b.ID
+	return compareInt(a.ID, b.ID)
 }
 
 // CompareLocationsFunc compares two slices of locations using the given comparison function.
@@ -158,10 +158,22 @@ func CompareLocation(a, b Location) int {
 
 // CompareLocationByLine compares two locations by line number.
 func CompareLocationByLine(a, b Location) int {
-	return a.Line - b.Line
+	return compareInt(a.Line, b.Line)
 }
 
 // CompareLocationByFile compares two locations by cleaned file path string.
 func CompareLocationByFile(a, b Location) int {
 	return strings.Compare(filepath.Clean(a.File), filepath.Clean(b.File))
 }
+
+// compareInt compares two numbers, a subtraction could overflow.
+func compareInt(a, b int) int {
+	switch {
+	case a < b:
+		return -1
+	case a > b:
+		return 1
+	default:
+		return 0
+	}
+}
-- 
2.43.0


From d5e95f5a97e97fc727ec93115c20ada7dc565d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:52 +0000
Subject: [PATCH 37/42] fix: update def.po only after the output was written

msgomerge -U -o missing/out.po failed after it had replaced def.po.
---
 cli/msgomerge/cmd/root.go | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/cli/msgomerge/cmd/root.go b/cli/msgomerge/cmd/root.go
index 68db17d..e1ca11c 100644
--- a/cli/msgomerge/cmd/root.go
+++ b/cli/msgomerge/cmd/root.go
@@ -80,17 +80,20 @@ Where an exact match cannot be found, fuzzy matching is used to produce better r
 			return err
 		}
 
-		if update {
-			if err = os.WriteFile(defPath, merged.Bytes(), os.ModePerm); err != nil {
-				return err
-			}
-		}
-
 		if outputPath == "-" {
 			_, err = os.Stdout.Write(merged.Bytes())
+		} else {
+			err = os.WriteFile(outputPath, merged.Bytes(), os.ModePerm)
+		}
+		if err != nil {
 			return err
 		}
-		return os.WriteFile(outputPath, merged.Bytes(), os.ModePerm)
+
+		// Last, so that a failed run leaves def.po as it was.
+		if update {
+			return os.WriteFile(defPath, merged.Bytes(), os.ModePerm)
+		}
+		return nil
 	},
 }
 
-- 
2.43.0


From 507f68c6736360980f821cdbd0d350f0505476b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:52 +0000
Subject: [PATCH 38/42] fix: check every output of msgofmt -D before writing
 the first

With --force, a directory in the place of a later output made the run fail
after files had been replaced.
---
 cli/msgofmt/cmd/root.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/cli/msgofmt/cmd/root.go b/cli/msgofmt/cmd/root.go
index c31aae5..d6e38b8 100644
--- a/cli/msgofmt/cmd/root.go
+++ b/cli/msgofmt/cmd/root.go
@@ -80,8 +80,13 @@ If input file is -, standard input is read.`,
 	},
 }
 
+// moPath returns where the directory mode writes the compiled file.
+func moPath(poFile *po.File) string {
+	return strings.TrimSuffix(poFile.Name, ".po") + ".mo"
+}
+
 // compileDirectory compiles every PO file of the directory.
-// Nothing is written unless all of them are valid.
+// Nothing is written unless all of them are valid and can be written.
 func compileDirectory() error {
 	entries, err := os.ReadDir(directory)
 	if err != nil {
@@ -101,12 +106,14 @@ func compileDirectory() error {
 		if errs := poFile.Validate(); len(errs) > 0 {
 			return errs[0]
 		}
+		if info, err := os.Stat(moPath(poFile)); err == nil && (!force || info.IsDir()) {
+			return fmt.Errorf("%s already exists", moPath(poFile))
+		}
 		files = append(files, poFile)
 	}
 
 	for _, poFile := range files {
-		newMo := strings.TrimSuffix(poFile.Name, ".po") + ".mo"
-		err = compile.MoToFile(poFile, newMo, compile.MoWithConfig(compilerCfg))
+		err = compile.MoToFile(poFile, moPath(poFile), compile.MoWithConfig(compilerCfg))
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 90ac964d5ca46d686afc20b26150f9ae8a105306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:37 +0000
Subject: [PATCH 39/42] fix: name the file that translates a message in
 conflicting translations

msgcatMergeFiles named the first file with the message even if that one
leaves it untranslated.
---
 pkg/po/msgcat_merge.go | 33 +++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/pkg/po/msgcat_merge.go b/pkg/po/msgcat_merge.go
index 9028947..3a41c02 100644
--- a/pkg/po/msgcat_merge.go
+++ b/pkg/po/msgcat_merge.go
@@ -89,6 +89,17 @@ type msgcatEntryInfo struct {
 	index      int    // Index in the entries slice
 	file       string // First file where the entry was found
 	timesFound uint
+	// First file that translates each form (0 is also the singular).
+	translators map[int]string
+}
+
+// addTranslations registers filename for the forms that only entry translates so far.
+func (info msgcatEntryInfo) addTranslations(entry Entry, filename string) {
+	for _, form := range msgcatPluralForms(entry) {
+		if _, ok := info.translators[form.ID]; !ok && form.Str != "" {
+			info.translators[form.ID] = filename
+		}
+	}
 }
 
 // handleEntry handles an individual PO entry including merging logic.
@@ -108,15 +119,20 @@ func (m *msgcatMergeProcess) handleEntry(entry Entry, filename string) {
 			entry,
 			original.file,
 			filename,
+			original.translators,
 		)
+		original.addTranslations(entry, filename)
 		return
 	}
 
-	m.entriesMap[uid] = msgcatEntryInfo{
-		index:      len(m.entriesSlice),
-		file:       filename,
-		timesFound: 1,
+	info := msgcatEntryInfo{
+		index:       len(m.entriesSlice),
+		file:        filename,
+		timesFound:  1,
+		translators: map[int]string{},
 	}
+	info.addTranslations(entry, filename)
+	m.entriesMap[uid] = info
 	m.entriesSlice = append(m.entriesSlice, entry)
 }
 
@@ -125,6 +141,7 @@ func msgcatMergeEntry(
 	originalEntry Entry,
 	newEntry Entry,
 	originalFilename, newFilename string,
+	translators map[int]string,
 ) Entry {
 	mergedEntry := Entry{
 		Flags: msgcatMergeFlags(originalEntry.Flags, newEntry.Flags),
@@ -166,14 +183,14 @@ func msgcatMergeEntry(
 		mergedEntry.Plurals, conflict = msgcatMergePlurals(
 			msgcatPluralForms(originalEntry),
 			msgcatPluralForms(newEntry),
-			originalFilename,
+			translators,
 			newFilename,
 		)
 	} else {
 		mergedEntry.Str = msgcatMergeStrings(
 			originalEntry.Str,
 			newEntry.Str,
-			originalFilename,
+			translators[0],
 			newFilename,
 		)
 		conflict = msgcatConflict(originalEntry.Str, newEntry.Str)
@@ -213,7 +230,7 @@ func msgcatMergeFlags(originalFlags, newFlags []string) []string {
 // msgcatMergePlurals merges plural forms and reports whether any of them conflict.
 func msgcatMergePlurals(
 	originalPlurals, newPlurals PluralEntries,
-	originalFilename, newFilename string,
+	translators map[int]string, newFilename string,
 ) (merged PluralEntries, conflict bool) {
 	merged = slices.Clone(originalPlurals)
 
@@ -227,7 +244,7 @@ func msgcatMergePlurals(
 		conflict = conflict || msgcatConflict(merged[i].Str, newPlural.Str)
 		merged[i].Str = msgcatMergeStrings(
 			merged[i].Str, newPlural.Str,
-			originalFilename, newFilename,
+			translators[newPlural.ID], newFilename,
 		)
 	}
 
-- 
2.43.0


From 71989d6577a1ed98df2de98ef4610108567542ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:50 +0000
Subject: [PATCH 40/42] fix: msgocat --lang kept neither the references nor the
 obsolete state of the header

---
 cli/msgocat/cmd/run.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cli/msgocat/cmd/run.go b/cli/msgocat/cmd/run.go
index 2dadb84..9abb5e0 100644
--- a/cli/msgocat/cmd/run.go
+++ b/cli/msgocat/cmd/run.go
@@ -59,6 +59,8 @@ func run(cmd *cobra.Command, args []string) error {
 			newHeader.Comments = oldHeader.Comments
 			newHeader.ExtractedComments = oldHeader.ExtractedComments
 			newHeader.Previous = oldHeader.Previous
+			newHeader.Locations = oldHeader.Locations
+			newHeader.Obsolete = oldHeader.Obsolete
 
 			mergedFiles[hindex] = newHeader
 		}
-- 
2.43.0


From 48b2eff1362b216fc9c5e74a7fcbe35e0447c2ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:39 +0000
Subject: [PATCH 41/42] fix: resolving duplicates no longer makes a message
 obsolete that is in use in one of them

---
 pkg/po/entries.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/po/entries.go b/pkg/po/entries.go
index b0d1279..e276081 100644
--- a/pkg/po/entries.go
+++ b/pkg/po/entries.go
@@ -221,6 +221,9 @@ func SolveMerge(a, b Entry) *Entry {
 		preferred = b
 	}
 
+	// A message that is in use somewhere stays in use.
+	preferred.Obsolete = a.Obsolete && b.Obsolete
+
 	// Combine the Locations from both entries.
 	preferred.Locations = append(slices.Clip(a.Locations), b.Locations...)
 
-- 
2.43.0


From d2abb04469609c8c3b775cf426d9334bd26d29d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:45 +0000
Subject: [PATCH 42/42] fix: references without a line were written with the
 line -1

---
 pkg/po/compile/po_compiler_format.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/po/compile/po_compiler_format.go b/pkg/po/compile/po_compiler_format.go
index 1eb4d5d..444d985 100644
--- a/pkg/po/compile/po_compiler_format.go
+++ b/pkg/po/compile/po_compiler_format.go
@@ -232,6 +232,10 @@ func (eb *entryBuilder) referenceComment() string {
 	default: // PoLocationModeFull, or unset.
 		writeRef = func(id int) {
 			l := eb.Locations[id]
+			if l.Line < 0 { // A reference without line.
+				fmt.Fprintf(&b, "%s\n", l.File)
+				return
+			}
 			fmt.Fprintf(&b, "%s:%d\n", l.File, l.Line)
 		}
 	}
-- 
2.43.0

