From f5690ab1da817fd15becf5235212f8a6c74403d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:21 +0000
Subject: [PATCH 01/13] fix: gentable: compute block offsets as int

Block numbers are uint16, so shifting one left by six bits overflowed for
any set of more than 1024 blocks and the generator silently wrote a table
with wrong properties.
---
 textseg/internal/charprops/gentable/generate.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/textseg/internal/charprops/gentable/generate.go b/textseg/internal/charprops/gentable/generate.go
index 07cd1e8..18392a9 100644
--- a/textseg/internal/charprops/gentable/generate.go
+++ b/textseg/internal/charprops/gentable/generate.go
@@ -246,7 +246,7 @@ func (t *treeInProgress) buildCompactedBlocks(ret *RawPropertyTree, indexLevels
 			// property block.
 			srcBlock = make([]uint16, blockSize)
 		} else {
-			srcBlockStart := srcBlockIdx << blockShift
+			srcBlockStart := int(srcBlockIdx) << blockShift
 			srcBlock = t.indices[srcBlockStart : srcBlockStart+blockSize]
 		}
 
@@ -280,7 +280,7 @@ func (t *treeInProgress) buildCompactedBlocks(ret *RawPropertyTree, indexLevels
 		// property block.
 		srcBlock = make([]uint8, blockSize)
 	} else {
-		srcBlockStart := srcBlockIdx << blockShift
+		srcBlockStart := int(srcBlockIdx) << blockShift
 		srcBlock = t.rawProps[srcBlockStart : srcBlockStart+blockSize]
 	}
 
-- 
2.43.0


From 49861b990f1b8504ef2dc84f03817457984a5b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:21 +0000
Subject: [PATCH 02/13] fix: ucdparse: reject ranges that are reversed or
 beyond U+10FFFF

Such entries were accepted: reversed ranges were silently ignored, and the
properties of code points that do not exist were silently given to U+FFFD.
---
 textseg/internal/charprops/ucdparse/ucd_scan.go | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/textseg/internal/charprops/ucdparse/ucd_scan.go b/textseg/internal/charprops/ucdparse/ucd_scan.go
index e2f3dd2..5b71e88 100644
--- a/textseg/internal/charprops/ucdparse/ucd_scan.go
+++ b/textseg/internal/charprops/ucdparse/ucd_scan.go
@@ -7,6 +7,7 @@ import (
 	"io"
 	"iter"
 	"strconv"
+	"unicode/utf8"
 )
 
 type Scanner struct {
@@ -36,24 +37,25 @@ func (sc Scanner) NextEntry() (Entry, error) {
 		rng = bytes.TrimSpace(rng)
 		fieldsRaw = bytes.TrimSpace(fieldsRaw)
 		startHex, endHex, isRange := bytes.Cut(rng, rangeSeparator)
-		var start, end rune
-		startInt, err := strconv.ParseUint(string(startHex), 16, 32)
+		var end uint64
+		start, err := strconv.ParseUint(string(startHex), 16, 32)
 		if err != nil {
 			return Entry{}, fmt.Errorf("invalid start of character range %q: %s", startHex, err)
 		}
-		start = rune(startInt)
 		if isRange {
-			endInt, err := strconv.ParseUint(string(endHex), 16, 32)
+			end, err = strconv.ParseUint(string(endHex), 16, 32)
 			if err != nil {
 				return Entry{}, fmt.Errorf("invalid end of character range %q: %s", endHex, err)
 			}
-			end = rune(endInt)
 		} else {
 			end = start
 		}
+		if end > utf8.MaxRune || end < start {
+			return Entry{}, fmt.Errorf("invalid character range %q", rng)
+		}
 		return Entry{
-			Start:  start,
-			End:    end + 1,
+			Start:  rune(start),
+			End:    rune(end) + 1,
 			Fields: Fields(fieldsRaw),
 		}, nil
 	}
-- 
2.43.0


From aa699750230478dd14e9ff76c60d7e2d1d5bb4af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:21 +0000
Subject: [PATCH 03/13] fix: gentable: ignore the properties of surrogates

utf8.EncodeRune encodes a surrogate as U+FFFD, so an entry for a surrogate
silently gave its properties to U+FFFD instead.
---
 textseg/internal/charprops/gentable/generate.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/textseg/internal/charprops/gentable/generate.go b/textseg/internal/charprops/gentable/generate.go
index 18392a9..81562b8 100644
--- a/textseg/internal/charprops/gentable/generate.go
+++ b/textseg/internal/charprops/gentable/generate.go
@@ -113,6 +113,9 @@ func newTreeInProgress() *treeInProgress {
 }
 
 func (t *treeInProgress) Set(r rune, v uint8) {
+	if !utf8.ValidRune(r) {
+		return // surrogates have no UTF-8 encoding and so no place in the tree
+	}
 	rawProps := t.ensureProps(r)
 	if v == 4 && *rawProps != 0 {
 		panic(fmt.Sprintf("conflicting properties for U+%04X: already had %02x, but now have %02x", r, *rawProps, v))
@@ -121,6 +124,9 @@ func (t *treeInProgress) Set(r rune, v uint8) {
 }
 
 func (t *treeInProgress) BitwiseOr(r rune, propMask uint8) {
+	if !utf8.ValidRune(r) {
+		return // surrogates have no UTF-8 encoding and so no place in the tree
+	}
 	rawProps := t.ensureProps(r)
 	*rawProps |= propMask
 }
-- 
2.43.0


From 0df48ce088afe5f38b61deea4f8f46b867b83826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:21 +0000
Subject: [PATCH 04/13] fix: charprops: report failure to write the generated
 table

Errors from writing the file were ignored, so the generator exited
successfully after leaving an empty or truncated table.
---
 textseg/internal/charprops/generate.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/textseg/internal/charprops/generate.go b/textseg/internal/charprops/generate.go
index a500931..a07db4d 100644
--- a/textseg/internal/charprops/generate.go
+++ b/textseg/internal/charprops/generate.go
@@ -74,5 +74,12 @@ func main() {
 		fmt.Fprintf(os.Stderr, "Error: %s\n", err)
 		os.Exit(1)
 	}
-	f.Write(src)
+	_, err = f.Write(src)
+	if closeErr := f.Close(); err == nil {
+		err = closeErr
+	}
+	if err != nil {
+		fmt.Fprintf(os.Stderr, "Error: %s\n", err)
+		os.Exit(1)
+	}
 }
-- 
2.43.0


From 8fb757eeb035f2f887767e49d90c5ab34e22b394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:21 +0000
Subject: [PATCH 05/13] fix: machine: let an emoji flag begin in any state

A regional indicator directly after an emoji, a ZWJ sequence or an Indic
consonant or linker did not count as the first half of a flag, so a caller
running the machine over a whole text got a boundary inside that flag.
---
 textseg/internal/machine/state.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/textseg/internal/machine/state.go b/textseg/internal/machine/state.go
index d671b4e..49e4733 100644
--- a/textseg/internal/machine/state.go
+++ b/textseg/internal/machine/state.go
@@ -153,14 +153,14 @@ func (s State) nextState(next charprops.CharProperties) State {
 	}
 	gcbProp := next.GCBProperty()
 	incbProp := next.InCBProperty()
+	if gcbProp == charprops.GCBRegionalIndicator && s != StateAwaitEmojiFlag {
+		// An emoji flag can begin in any state except when this character
+		// itself completes one.
+		return StateAwaitEmojiFlag
+	}
 	switch s {
 	case StateBase:
-		switch gcbProp {
-		case charprops.GCBRegionalIndicator:
-			return StateAwaitEmojiFlag
-		default:
-			return StateBase
-		}
+		return StateBase
 	case StateAwaitEmojiFlag:
 		return StateBase
 	case StateGB11BeforeZWJ:
-- 
2.43.0


From 078860944f93a3b9641b57e39d485ee2e66b7816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:21 +0000
Subject: [PATCH 06/13] fix: autoversion: return intact tokens from AllTokens

The tokens were slices of the memory that bufio.Scanner reuses, so for any
input longer than its buffer the earlier tokens were overwritten by later
parts of the input.
---
 autoversion/textseg/version_agnostic.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/autoversion/textseg/version_agnostic.go b/autoversion/textseg/version_agnostic.go
index 3681403..445a4aa 100644
--- a/autoversion/textseg/version_agnostic.go
+++ b/autoversion/textseg/version_agnostic.go
@@ -7,6 +7,7 @@ package textseg
 
 import (
 	"bufio"
+	"bytes"
 
 	realImpl "github.com/apparentlymart/go-textseg/v15/textseg"
 )
@@ -31,5 +32,13 @@ func TokenCount(buf []byte, splitFunc bufio.SplitFunc) (int, error) {
 //
 // Deprecated: This will be removed in a future version.
 func AllTokens(buf []byte, splitFunc bufio.SplitFunc) ([][]byte, error) {
-	return realImpl.AllTokens(buf, splitFunc)
+	scanner := bufio.NewScanner(bytes.NewReader(buf))
+	scanner.Split(splitFunc)
+	var ret [][]byte
+	for scanner.Scan() {
+		// The scanner reuses the memory behind its tokens, so each needs
+		// to be copied to survive the following calls to Scan.
+		ret = append(ret, bytes.Clone(scanner.Bytes()))
+	}
+	return ret, scanner.Err()
 }
-- 
2.43.0


From 8402d59810f19002f3d96d05304e3540eab6f357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:21 +0000
Subject: [PATCH 07/13] fix: autoversion: do not stall ScanUTF8Sequences at
 U+FFFD

U+FFFD and invalid bytes were both taken for an incomplete sequence until
the end of the input, so that scanning any longer stream containing one
failed with bufio.ErrTooLong.
---
 autoversion/textseg/version_agnostic.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/autoversion/textseg/version_agnostic.go b/autoversion/textseg/version_agnostic.go
index 445a4aa..581c3b4 100644
--- a/autoversion/textseg/version_agnostic.go
+++ b/autoversion/textseg/version_agnostic.go
@@ -8,6 +8,7 @@ package textseg
 import (
 	"bufio"
 	"bytes"
+	"unicode/utf8"
 
 	realImpl "github.com/apparentlymart/go-textseg/v15/textseg"
 )
@@ -18,7 +19,11 @@ import (
 //
 // Deprecated: This will be removed in a future version.
 func ScanUTF8Sequences(data []byte, atEOF bool) (int, []byte, error) {
-	return realImpl.ScanUTF8Sequences(data, atEOF)
+	if len(data) == 0 || !atEOF && !utf8.FullRune(data) {
+		return 0, nil, nil
+	}
+	_, seqLen := utf8.DecodeRune(data)
+	return seqLen, data[:seqLen], nil
 }
 
 // TokenCount is a utility that uses a bufio.SplitFunc to count the number of recognized tokens in the given buffer.
-- 
2.43.0


From 021533ed9be78540bb38ea8e7186b7babecc2e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:36 +0000
Subject: [PATCH 08/13] fix: ucdparse: reject test data for characters that do
 not exist

References to surrogates, to negative numbers and to anything beyond
U+10FFFF were silently read as U+FFFD, so the test was not the one written
in the file.
---
 textseg/internal/charprops/ucdparse/testdata_scan.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/textseg/internal/charprops/ucdparse/testdata_scan.go b/textseg/internal/charprops/ucdparse/testdata_scan.go
index 6e138f9..b63f57a 100644
--- a/textseg/internal/charprops/ucdparse/testdata_scan.go
+++ b/textseg/internal/charprops/ucdparse/testdata_scan.go
@@ -45,7 +45,7 @@ func (sc TestDataScanner) NextEntry() (TestDataEntry, error) {
 					continue
 				}
 				charInt, err := strconv.ParseInt(charHexStr, 16, 32)
-				if err != nil {
+				if err != nil || !utf8.ValidRune(rune(charInt)) {
 					return TestDataEntry{}, fmt.Errorf("invalid character reference %q", charHexStr)
 				}
 				buf := make([]byte, 4)
-- 
2.43.0


From 3c4410f86afc2db9395f81ec8e8e00e515c26ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:41 +0000
Subject: [PATCH 09/13] fix: ucdparse: let field iterators be used more than
 once

---
 textseg/internal/charprops/ucdparse/ucd_scan.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/textseg/internal/charprops/ucdparse/ucd_scan.go b/textseg/internal/charprops/ucdparse/ucd_scan.go
index 5b71e88..a5e1a85 100644
--- a/textseg/internal/charprops/ucdparse/ucd_scan.go
+++ b/textseg/internal/charprops/ucdparse/ucd_scan.go
@@ -78,8 +78,8 @@ func (e Entry) AllFields() iter.Seq[string] {
 type Fields []byte
 
 func (f Fields) Strings() iter.Seq[string] {
-	remain := []byte(f)
 	return func(yield func(string) bool) {
+		remain := []byte(f)
 		for {
 			before, after, foundSep := bytes.Cut(remain, fieldSeparator)
 			val := bytes.TrimSpace(before)
-- 
2.43.0


From 4ea08d8fa7425f25f54c738db48481c223b589fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:06 +0000
Subject: [PATCH 10/13] fix: ucdparse: reject lines that are cut short before
 their fields

---
 textseg/internal/charprops/ucdparse/ucd_scan.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/textseg/internal/charprops/ucdparse/ucd_scan.go b/textseg/internal/charprops/ucdparse/ucd_scan.go
index a5e1a85..333f8a8 100644
--- a/textseg/internal/charprops/ucdparse/ucd_scan.go
+++ b/textseg/internal/charprops/ucdparse/ucd_scan.go
@@ -32,6 +32,9 @@ func (sc Scanner) NextEntry() (Entry, error) {
 		raw, _, _ = bytes.Cut(raw, commentMarker)
 		rng, fieldsRaw, ok := bytes.Cut(raw, fieldSeparator)
 		if !ok {
+			if raw := bytes.TrimSpace(raw); len(raw) != 0 && raw[0] != '@' {
+				return Entry{}, fmt.Errorf("invalid entry %q: no field separator", raw)
+			}
 			continue // Not a data line, then. We'll ignore it.
 		}
 		rng = bytes.TrimSpace(rng)
-- 
2.43.0


From 608afd9dd407ac91b8fd21521280ac20d54dbeda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:06 +0000
Subject: [PATCH 11/13] fix: gentable: reject property values that do not exist

---
 textseg/internal/charprops/gentable/generate.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/textseg/internal/charprops/gentable/generate.go b/textseg/internal/charprops/gentable/generate.go
index 81562b8..2039bd9 100644
--- a/textseg/internal/charprops/gentable/generate.go
+++ b/textseg/internal/charprops/gentable/generate.go
@@ -51,6 +51,9 @@ func BuildRawPropertyTree(baseDir string) (RawPropertyTree, error) {
 		}
 		propName := entry.FirstField()
 		prop := charprops.LookupGCBProperty(propName)
+		if prop == charprops.GCBNone && propName != "Other" {
+			return ret, fmt.Errorf("reading GraphemeBreakProperty.txt: unsupported property value %q", propName)
+		}
 		for r := entry.Start; r < entry.End; r++ {
 			tip.Set(r, uint8(prop))
 		}
@@ -63,6 +66,9 @@ func BuildRawPropertyTree(baseDir string) (RawPropertyTree, error) {
 			return ret, fmt.Errorf("reading emoji-data.txt: %w", err)
 		}
 		propName := entry.FirstField()
+		if propName == "" {
+			return ret, fmt.Errorf("reading emoji-data.txt: missing property name")
+		}
 		prop := charprops.LookupEmojiProperty(propName)
 		if prop == 0 {
 			continue
@@ -79,11 +85,20 @@ func BuildRawPropertyTree(baseDir string) (RawPropertyTree, error) {
 			return ret, fmt.Errorf("reading DerivedCoreProperties.txt: %w", err)
 		}
 		fields := slices.Collect(entry.AllFields())
-		if len(fields) < 2 || fields[0] != "InCB" {
+		if fields[0] == "" {
+			return ret, fmt.Errorf("reading DerivedCoreProperties.txt: missing property name")
+		}
+		if fields[0] != "InCB" {
 			continue // irrelevant to our goals, then
 		}
+		if len(fields) < 2 {
+			return ret, fmt.Errorf("reading DerivedCoreProperties.txt: missing InCB property value")
+		}
 		propName := fields[1]
 		prop := charprops.LookupInCBProperty(propName)
+		if prop == charprops.InCBNone && propName != "None" {
+			return ret, fmt.Errorf("reading DerivedCoreProperties.txt: unsupported InCB property value %q", propName)
+		}
 		for r := entry.Start; r < entry.End; r++ {
 			tip.BitwiseOr(r, uint8(prop))
 		}
-- 
2.43.0


From c4545d75eeaa0362d1fd123fe43bf4e3ba690938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:49 +0000
Subject: [PATCH 12/13] fix: ucdparse: entries keep their fields while more is
 read

The fields of an entry were a slice of the line scanner's buffer, so those
of an entry kept while reading further ones were overwritten.
---
 textseg/internal/charprops/ucdparse/ucd_scan.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/textseg/internal/charprops/ucdparse/ucd_scan.go b/textseg/internal/charprops/ucdparse/ucd_scan.go
index 333f8a8..6bfb5d7 100644
--- a/textseg/internal/charprops/ucdparse/ucd_scan.go
+++ b/textseg/internal/charprops/ucdparse/ucd_scan.go
@@ -57,9 +57,12 @@ func (sc Scanner) NextEntry() (Entry, error) {
 			return Entry{}, fmt.Errorf("invalid character range %q", rng)
 		}
 		return Entry{
-			Start:  rune(start),
-			End:    rune(end) + 1,
-			Fields: Fields(fieldsRaw),
+			Start: rune(start),
+			End:   rune(end) + 1,
+
+			// The line scanner reuses its buffer, so the fields must be
+			// copied to survive the reading of further entries.
+			Fields: Fields(bytes.Clone(fieldsRaw)),
 		}, nil
 	}
 }
-- 
2.43.0


From 0ede13123134132e0c5a24f855070d760106339e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:13 +0000
Subject: [PATCH 13/13] fix: gentable: reject contradictory data

A code point listed with two different break property values silently got the
last one, and one with two different InCB values their bitwise OR, which may
be a third value.
---
 textseg/internal/charprops/gentable/generate.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/textseg/internal/charprops/gentable/generate.go b/textseg/internal/charprops/gentable/generate.go
index 2039bd9..e04b229 100644
--- a/textseg/internal/charprops/gentable/generate.go
+++ b/textseg/internal/charprops/gentable/generate.go
@@ -132,7 +132,7 @@ func (t *treeInProgress) Set(r rune, v uint8) {
 		return // surrogates have no UTF-8 encoding and so no place in the tree
 	}
 	rawProps := t.ensureProps(r)
-	if v == 4 && *rawProps != 0 {
+	if *rawProps != 0 && *rawProps != v {
 		panic(fmt.Sprintf("conflicting properties for U+%04X: already had %02x, but now have %02x", r, *rawProps, v))
 	}
 	*rawProps = v
@@ -143,6 +143,9 @@ func (t *treeInProgress) BitwiseOr(r rune, propMask uint8) {
 		return // surrogates have no UTF-8 encoding and so no place in the tree
 	}
 	rawProps := t.ensureProps(r)
+	if old := charprops.CharProperties(*rawProps).InCBProperty(); old != 0 && uint8(old) != propMask {
+		panic(fmt.Sprintf("conflicting properties for U+%04X: already had InCB %02x, but now have %02x", r, uint8(old), propMask))
+	}
 	*rawProps |= propMask
 }
 
-- 
2.43.0

