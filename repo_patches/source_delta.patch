From 640032dd63299e0fd060f0404d2c1d4d044eaaad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:50 +0000
Subject: [PATCH 1/9] fix: machine: pair regional indicators that follow any
 kind of character

When the state machine is run across cluster boundaries (as its two result
values allow), a regional indicator arriving while a GB9c or GB11 prefix was
pending moved to StateBase rather than StateAwaitEmojiFlag, so the flag that it
started was reported as two separate clusters.
---
 textseg/internal/machine/state.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/textseg/internal/machine/state.go b/textseg/internal/machine/state.go
index d671b4e..6f74922 100644
--- a/textseg/internal/machine/state.go
+++ b/textseg/internal/machine/state.go
@@ -153,6 +153,11 @@ func (s State) nextState(next charprops.CharProperties) State {
 	}
 	gcbProp := next.GCBProperty()
 	incbProp := next.InCBProperty()
+	// Similarly, a regional indicator begins a new potential flag after
+	// anything except the first half of another flag.
+	if gcbProp == charprops.GCBRegionalIndicator && s != StateAwaitEmojiFlag {
+		return StateAwaitEmojiFlag
+	}
 	switch s {
 	case StateBase:
 		switch gcbProp {
-- 
2.43.0


From fa06ce374e33c29c61cbb32be8ef70fe10c9adb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:50 +0000
Subject: [PATCH 2/9] fix: charprops: report a truncated sequence that cannot
 become valid as an error

LookupFirstChar promises Error with length 1 for a buffer that cannot possibly
be extended to a valid UTF-8 sequence, but it reported e.g. E2 41 as merely
incomplete, and so a streaming caller was made to wait for unrelated bytes
before it could be given clusters that were already decided.
---
 textseg/internal/charprops/property_table.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/textseg/internal/charprops/property_table.go b/textseg/internal/charprops/property_table.go
index 0aa85ee..fc12f47 100644
--- a/textseg/internal/charprops/property_table.go
+++ b/textseg/internal/charprops/property_table.go
@@ -34,6 +34,13 @@ func LookupFirstChar(p []byte) (props CharProperties, length int) {
 	}
 
 	if len(p) < length {
+		// If any of the bytes we do have is not a continuation byte then
+		// no additional bytes could possibly make this sequence valid.
+		for _, b := range p[1:] {
+			if (b & 0b11000000) != 0b10000000 {
+				return Error, 1
+			}
+		}
 		// Buffer begins with incomplete UTF-8 sequence.
 		return zeroProperties, 0
 	}
-- 
2.43.0


From 0c608c61237d6eafe4550fabe990f785773ec5d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:50 +0000
Subject: [PATCH 3/9] fix: gentable: do not give the properties of surrogates
 to U+FFFD

utf8.EncodeRune encodes a surrogate code point as U+FFFD, so a property listed
for the surrogates (as UCD files may do) ended up on U+FFFD instead.
---
 textseg/internal/charprops/gentable/generate.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/textseg/internal/charprops/gentable/generate.go b/textseg/internal/charprops/gentable/generate.go
index 07cd1e8..eac3360 100644
--- a/textseg/internal/charprops/gentable/generate.go
+++ b/textseg/internal/charprops/gentable/generate.go
@@ -113,6 +113,9 @@ func newTreeInProgress() *treeInProgress {
 }
 
 func (t *treeInProgress) Set(r rune, v uint8) {
+	if !utf8.ValidRune(r) {
+		return // surrogates have no UTF-8 encoding, so cannot be in the table
+	}
 	rawProps := t.ensureProps(r)
 	if v == 4 && *rawProps != 0 {
 		panic(fmt.Sprintf("conflicting properties for U+%04X: already had %02x, but now have %02x", r, *rawProps, v))
@@ -121,6 +124,9 @@ func (t *treeInProgress) Set(r rune, v uint8) {
 }
 
 func (t *treeInProgress) BitwiseOr(r rune, propMask uint8) {
+	if !utf8.ValidRune(r) {
+		return // surrogates have no UTF-8 encoding, so cannot be in the table
+	}
 	rawProps := t.ensureProps(r)
 	*rawProps |= propMask
 }
-- 
2.43.0


From f5547efee90fb21c09cb8b81800234c9f18cbfb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:50 +0000
Subject: [PATCH 4/9] fix: generate: report failure to write the generated
 table

A failed or short write left a truncated property_table_raw.go behind with a
successful exit status.
---
 textseg/internal/charprops/generate.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/textseg/internal/charprops/generate.go b/textseg/internal/charprops/generate.go
index a500931..a07db4d 100644
--- a/textseg/internal/charprops/generate.go
+++ b/textseg/internal/charprops/generate.go
@@ -74,5 +74,12 @@ func main() {
 		fmt.Fprintf(os.Stderr, "Error: %s\n", err)
 		os.Exit(1)
 	}
-	f.Write(src)
+	_, err = f.Write(src)
+	if closeErr := f.Close(); err == nil {
+		err = closeErr
+	}
+	if err != nil {
+		fmt.Fprintf(os.Stderr, "Error: %s\n", err)
+		os.Exit(1)
+	}
 }
-- 
2.43.0


From 05861d69551c2774fe2f4025f04bc1fae178feb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:50 +0000
Subject: [PATCH 5/9] fix: autoversion: ScanUTF8Sequences must not wait for EOF
 after an invalid byte

An invalid byte or a literal U+FFFD anywhere but at the end of the input was
treated as an incomplete sequence, and so a scanner stalled there until EOF or
failed with bufio.ErrTooLong.
---
 autoversion/textseg/version_agnostic.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/autoversion/textseg/version_agnostic.go b/autoversion/textseg/version_agnostic.go
index 3681403..dbe524f 100644
--- a/autoversion/textseg/version_agnostic.go
+++ b/autoversion/textseg/version_agnostic.go
@@ -7,6 +7,7 @@ package textseg
 
 import (
 	"bufio"
+	"unicode/utf8"
 
 	realImpl "github.com/apparentlymart/go-textseg/v15/textseg"
 )
@@ -17,6 +18,13 @@ import (
 //
 // Deprecated: This will be removed in a future version.
 func ScanUTF8Sequences(data []byte, atEOF bool) (int, []byte, error) {
+	if !atEOF && utf8.FullRune(data) {
+		// The v15 implementation mistakes an invalid byte, or a literal
+		// U+FFFD, for an incomplete sequence and would wait for the end of
+		// the input. The first sequence is already decided, so any bytes that
+		// might follow cannot change it.
+		atEOF = true
+	}
 	return realImpl.ScanUTF8Sequences(data, atEOF)
 }
 
-- 
2.43.0


From f15f36993b2df6f1d7da6899548acce3c30a5324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:50 +0000
Subject: [PATCH 6/9] fix: autoversion: AllTokens must return tokens that do
 not change

For an input larger than the scanner's buffer the returned tokens were slices
of a buffer that was subsequently overwritten, so their contents were wrong.
---
 autoversion/textseg/version_agnostic.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/autoversion/textseg/version_agnostic.go b/autoversion/textseg/version_agnostic.go
index dbe524f..2aa9cf3 100644
--- a/autoversion/textseg/version_agnostic.go
+++ b/autoversion/textseg/version_agnostic.go
@@ -7,6 +7,7 @@ package textseg
 
 import (
 	"bufio"
+	"bytes"
 	"unicode/utf8"
 
 	realImpl "github.com/apparentlymart/go-textseg/v15/textseg"
@@ -39,5 +40,12 @@ func TokenCount(buf []byte, splitFunc bufio.SplitFunc) (int, error) {
 //
 // Deprecated: This will be removed in a future version.
 func AllTokens(buf []byte, splitFunc bufio.SplitFunc) ([][]byte, error) {
-	return realImpl.AllTokens(buf, splitFunc)
+	// The v15 implementation retains slices of the scanner's own buffer, which
+	// the scanner then overwrites when the input is larger than that buffer,
+	// so we'll give it a private copy of each token.
+	copyTokens := func(data []byte, atEOF bool) (int, []byte, error) {
+		advance, token, err := splitFunc(data, atEOF)
+		return advance, bytes.Clone(token), err
+	}
+	return realImpl.AllTokens(buf, copyTokens)
 }
-- 
2.43.0


From c1331c0b43fba4243a05f56dc3e0eea8dae0eca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:09 +0000
Subject: [PATCH 7/9] fix: ucdparse: reject code points and ranges that do not
 exist

A code point beyond U+10FFFF, a range whose end comes before its start, or a
value that does not fit a rune was accepted as if it was meaningful, so that
data naming it was silently dropped. In test data, anything that has no UTF-8
encoding was silently replaced by U+FFFD.
---
 textseg/internal/charprops/ucdparse/testdata_scan.go | 4 ++--
 textseg/internal/charprops/ucdparse/ucd_scan.go      | 4 ++++
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/textseg/internal/charprops/ucdparse/testdata_scan.go b/textseg/internal/charprops/ucdparse/testdata_scan.go
index 6e138f9..18eb3dd 100644
--- a/textseg/internal/charprops/ucdparse/testdata_scan.go
+++ b/textseg/internal/charprops/ucdparse/testdata_scan.go
@@ -44,8 +44,8 @@ func (sc TestDataScanner) NextEntry() (TestDataEntry, error) {
 				if len(charHexStr) == 0 {
 					continue
 				}
-				charInt, err := strconv.ParseInt(charHexStr, 16, 32)
-				if err != nil {
+				charInt, err := strconv.ParseUint(charHexStr, 16, 32)
+				if err != nil || !utf8.ValidRune(rune(charInt)) {
 					return TestDataEntry{}, fmt.Errorf("invalid character reference %q", charHexStr)
 				}
 				buf := make([]byte, 4)
diff --git a/textseg/internal/charprops/ucdparse/ucd_scan.go b/textseg/internal/charprops/ucdparse/ucd_scan.go
index e2f3dd2..b2aa849 100644
--- a/textseg/internal/charprops/ucdparse/ucd_scan.go
+++ b/textseg/internal/charprops/ucdparse/ucd_scan.go
@@ -7,6 +7,7 @@ import (
 	"io"
 	"iter"
 	"strconv"
+	"unicode"
 )
 
 type Scanner struct {
@@ -51,6 +52,9 @@ func (sc Scanner) NextEntry() (Entry, error) {
 		} else {
 			end = start
 		}
+		if start < 0 || start > end || end > unicode.MaxRune {
+			return Entry{}, fmt.Errorf("invalid character range %q", rng)
+		}
 		return Entry{
 			Start:  start,
 			End:    end + 1,
-- 
2.43.0


From 416700be2c4208e259b8afebfe11f7319ddf8d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:27 +0000
Subject: [PATCH 8/9] fix: gentable: refuse all conflicting property values

Two different break values for one character were resolved silently in favour
of the last one, and two different conjunct values were combined into a third
(Consonant and Extend into Linker).
---
 textseg/internal/charprops/gentable/generate.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/textseg/internal/charprops/gentable/generate.go b/textseg/internal/charprops/gentable/generate.go
index eac3360..416f1f0 100644
--- a/textseg/internal/charprops/gentable/generate.go
+++ b/textseg/internal/charprops/gentable/generate.go
@@ -117,7 +117,7 @@ func (t *treeInProgress) Set(r rune, v uint8) {
 		return // surrogates have no UTF-8 encoding, so cannot be in the table
 	}
 	rawProps := t.ensureProps(r)
-	if v == 4 && *rawProps != 0 {
+	if *rawProps != 0 && (v == 4 || *rawProps != v) {
 		panic(fmt.Sprintf("conflicting properties for U+%04X: already had %02x, but now have %02x", r, *rawProps, v))
 	}
 	*rawProps = v
@@ -128,6 +128,9 @@ func (t *treeInProgress) BitwiseOr(r rune, propMask uint8) {
 		return // surrogates have no UTF-8 encoding, so cannot be in the table
 	}
 	rawProps := t.ensureProps(r)
+	if old := *rawProps & 0xf0; old != 0 && old != propMask {
+		panic(fmt.Sprintf("conflicting properties for U+%04X: already had %02x, but now have %02x", r, old, propMask))
+	}
 	*rawProps |= propMask
 }
 
-- 
2.43.0


From 90f87d954f85fea8f9f3d74473e0f4be76a1634d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:46 +0000
Subject: [PATCH 9/9] fix: ucdparse: iterating an entry's fields again starts
 over

The iterator returned by Fields.Strings kept its position in a variable
shared by all iterations, so a second iteration of the same sequence yielded
only the last field, or resumed where the previous one was stopped.
---
 textseg/internal/charprops/ucdparse/ucd_scan.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/textseg/internal/charprops/ucdparse/ucd_scan.go b/textseg/internal/charprops/ucdparse/ucd_scan.go
index b2aa849..952fa8d 100644
--- a/textseg/internal/charprops/ucdparse/ucd_scan.go
+++ b/textseg/internal/charprops/ucdparse/ucd_scan.go
@@ -80,8 +80,8 @@ func (e Entry) AllFields() iter.Seq[string] {
 type Fields []byte
 
 func (f Fields) Strings() iter.Seq[string] {
-	remain := []byte(f)
 	return func(yield func(string) bool) {
+		remain := []byte(f) // every iteration starts from the first field
 		for {
 			before, after, foundSep := bytes.Cut(remain, fieldSeparator)
 			val := bytes.TrimSpace(before)
-- 
2.43.0

