From ce7d0a9d5c97807d8614bbf7370152778778db71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:02 +0000
Subject: [PATCH 01/29] fix: closing tag lost when an Elem's Content grows the
 node stack

---
 node.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/node.go b/node.go
index f26ee9e..c5b9971 100644
--- a/node.go
+++ b/node.go
@@ -142,6 +142,14 @@ func (n *node) opened(w *Writer) error {
 		// FIXME
 		panic(nil)
 	}
+	if err != nil {
+		return err
+	}
+
+	// writing the node's content may have grown w.nodes, which leaves n
+	// pointing into the old backing array:
+	n = &w.nodes[w.current]
+
 	if w.Indenter != nil {
 		w.last = Event{n.state, n.kind, n.children}
 	}
@@ -156,6 +164,8 @@ func (n *node) end(w *Writer) error {
 		if err := w.nodes[w.current].opened(w); err != nil {
 			return err
 		}
+		// see opened(): n may be stale
+		n = &w.nodes[w.current]
 	}
 
 	n.state = StateEnded
-- 
2.43.0


From 5805a2cdef2707540dce8fb9c077e5a8e486840e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:18 +0000
Subject: [PATCH 02/29] fix: CheckChars never rejected discouraged characters
 when strict

---
 check.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/check.go b/check.go
index 8163d50..8b74765 100644
--- a/check.go
+++ b/check.go
@@ -56,6 +56,9 @@ func CheckName(name string) error {
 // that unicode characters referenced in the note are also excluded.
 func CheckChars(chars string, strict bool) error {
 	for i, rn := range chars {
+		if strict && isDiscouragedChar(rn) {
+			return fmt.Errorf("xmlwriter: discouraged chars at position %d: %U", i, rn)
+		}
 		if rn == 0x9 || rn == 0xA || rn == 0xD ||
 			(rn >= 0x20 && rn <= 0xD7FF) ||
 			(rn >= 0xE000 && rn <= 0xFFFD) ||
@@ -84,6 +87,14 @@ func CheckChars(chars string, strict bool) error {
 	return nil
 }
 
+// isDiscouragedChar reports whether rn is one of the control characters or
+// permanently undefined Unicode characters listed in the note in
+// https://www.w3.org/TR/xml/#NT-Char
+func isDiscouragedChar(rn rune) bool {
+	return (rn >= 0x7F && rn <= 0x84) || (rn >= 0x86 && rn <= 0x9F) || (rn >= 0xFDD0 && rn <= 0xFDEF) ||
+		(rn >= 0x1FFFE && rn&0xFFFE == 0xFFFE)
+}
+
 // CheckPubID validates a string according to the following production rule:
 // https://www.w3.org/TR/xml/#NT-PubidLiteral
 func CheckPubID(pubid string) error {
-- 
2.43.0


From c9842270a1fb95b88b61fb2863b707e041da7d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:19 +0000
Subject: [PATCH 03/29] fix: CheckChars accepted invalid UTF-8

---
 check.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/check.go b/check.go
index 8b74765..1b3efd5 100644
--- a/check.go
+++ b/check.go
@@ -2,6 +2,7 @@ package xmlwriter
 
 import (
 	"fmt"
+	"unicode/utf8"
 )
 
 // CheckEncoding validates the characters in a Doc{} node's encoding="..."
@@ -55,6 +56,9 @@ func CheckName(name string) error {
 // The 'strict' argument (which xmlwriter should activate by default) ensures
 // that unicode characters referenced in the note are also excluded.
 func CheckChars(chars string, strict bool) error {
+	if !utf8.ValidString(chars) {
+		return fmt.Errorf("xmlwriter: invalid chars: not valid UTF-8")
+	}
 	for i, rn := range chars {
 		if strict && isDiscouragedChar(rn) {
 			return fmt.Errorf("xmlwriter: discouraged chars at position %d: %U", i, rn)
-- 
2.43.0


From 1f88390781cef0f80da26ac821511f1c06c43f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:37 +0000
Subject: [PATCH 04/29] fix: comments could contain '--' across writes or end
 with '-'

---
 node.go  |  4 ++++
 nodes.go | 11 +++++++++++
 2 files changed, 15 insertions(+)

diff --git a/node.go b/node.go
index c5b9971..19522bf 100644
--- a/node.go
+++ b/node.go
@@ -64,6 +64,10 @@ type node struct {
 	// of an element if the element only contains cdata or comments
 	hasIndenter bool
 
+	// true if the last content written to a comment ended with '-', which
+	// must not be followed by another '-' or by the end of the comment
+	endsDash bool
+
 	// bogus tagged union, this keeps things from escaping to the heap
 	kind       NodeKind
 	flag       nodeFlag
diff --git a/nodes.go b/nodes.go
index 2dd7fd0..9d41f66 100644
--- a/nodes.go
+++ b/nodes.go
@@ -78,6 +78,13 @@ func (c CommentContent) write(w *Writer) error {
 	if err := w.writeBeginNext(CommentContentNode); err != nil {
 		return err
 	}
+	if s != "" && w.current >= 0 {
+		np := &w.nodes[w.current]
+		if w.Enforce && np.endsDash && s[0] == '-' {
+			return fmt.Errorf("xmlwriter: comment may not contain '--'")
+		}
+		np.endsDash = s[len(s)-1] == '-'
+	}
 	if _, err := w.printer.WriteString(s); err != nil {
 		return err
 	}
@@ -133,6 +140,10 @@ func (c Comment) opened(n *node, w *Writer, prev NodeState) error {
 }
 
 func (c Comment) end(n *node, w *Writer, prev NodeState) error {
+	if w.Enforce && n.endsDash {
+		n.state = StateOpened
+		return fmt.Errorf("xmlwriter: comment may not end with '-'")
+	}
 	w.printer.WriteString("-->")
 	return w.printer.cachedWriteError()
 }
-- 
2.43.0


From 6b019adb62f175066810b82790955140714e8499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:38 +0000
Subject: [PATCH 05/29] fix: cdata sections could contain ']]>' across writes

---
 node.go  |  4 ++++
 nodes.go | 17 +++++++++++++++++
 2 files changed, 21 insertions(+)

diff --git a/node.go b/node.go
index 19522bf..18448f3 100644
--- a/node.go
+++ b/node.go
@@ -68,6 +68,10 @@ type node struct {
 	// must not be followed by another '-' or by the end of the comment
 	endsDash bool
 
+	// number of ']' (up to 2) at the end of the content written to a cdata
+	// section so far, which may complete a ']]>' with the next write
+	endsBrackets int
+
 	// bogus tagged union, this keeps things from escaping to the heap
 	kind       NodeKind
 	flag       nodeFlag
diff --git a/nodes.go b/nodes.go
index 9d41f66..bc94016 100644
--- a/nodes.go
+++ b/nodes.go
@@ -172,6 +172,23 @@ func (c CDataContent) write(w *Writer) error {
 	if err := w.writeBeginNext(CDataContentNode); err != nil {
 		return err
 	}
+	if w.current >= 0 {
+		np := &w.nodes[w.current]
+		brackets := np.endsBrackets
+		for i := 0; i < len(s); i++ {
+			if s[i] == ']' {
+				if brackets < 2 {
+					brackets++
+				}
+				continue
+			}
+			if w.Enforce && s[i] == '>' && brackets == 2 {
+				return fmt.Errorf("xmlwriter: cdata may not contain ']]>'")
+			}
+			brackets = 0
+		}
+		np.endsBrackets = brackets
+	}
 	if _, err := w.printer.WriteString(s); err != nil {
 		return err
 	}
-- 
2.43.0


From 9492dcc37d7bc8b6d687249fbbb2369d42351d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:02 +0000
Subject: [PATCH 06/29] fix: Notation public ID was not checked when the system
 ID is missing

---
 dtd.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dtd.go b/dtd.go
index b05ba7c..3854618 100644
--- a/dtd.go
+++ b/dtd.go
@@ -441,6 +441,11 @@ func (n Notation) write(w *Writer) error {
 			return err
 		}
 	} else if n.PublicID != "" {
+		if w.Enforce {
+			if err := CheckPubID(n.PublicID); err != nil {
+				return err
+			}
+		}
 		if err := w.printer.writePublicID(n.PublicID, n.SystemID, w.Enforce); err != nil {
 			return err
 		}
-- 
2.43.0


From 554387bdad793c672344107c41c8f4e399aec21a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:03 +0000
Subject: [PATCH 07/29] fix: ErrCollector.Do replaced the first error with a
 later one

---
 errs.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/errs.go b/errs.go
index fd50dc0..2788c81 100644
--- a/errs.go
+++ b/errs.go
@@ -112,6 +112,9 @@ func (e *ErrCollector) Set(err *error) {
 // that subsequent calls after the first error are safe to make.
 //
 func (e *ErrCollector) Do(errs ...error) {
+	if e.Err != nil {
+		return
+	}
 	for i, err := range errs {
 		if err != nil {
 			_, file, line, _ := runtime.Caller(1)
-- 
2.43.0


From fb2524bdff1784e3b1bff9d972d3f2a535449c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:04 +0000
Subject: [PATCH 08/29] fix: errors opening the parent node were dropped when
 writing a child

---
 writer.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/writer.go b/writer.go
index ee9c6dd..ee6037e 100644
--- a/writer.go
+++ b/writer.go
@@ -484,7 +484,9 @@ func (w *Writer) checkParent(nodeFlags nodeFlag) error {
 }
 
 func (w *Writer) writeBeginNext(kind NodeKind) error {
-	w.Next()
+	if err := w.Next(); err != nil {
+		return err
+	}
 	return w.writeBeginCur(kind)
 }
 
-- 
2.43.0


From 00aef2a878d4744b036c8cc28f68eef2ea60f9e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:05 +0000
Subject: [PATCH 09/29] fix: attributes were accepted after the element's start
 tag was closed

---
 attr.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/attr.go b/attr.go
index f81acbf..4b9c8b0 100644
--- a/attr.go
+++ b/attr.go
@@ -66,6 +66,12 @@ func (a Attr) write(w *Writer) error {
 		}
 	}
 
+	if w.Enforce {
+		if w.current >= 0 && w.nodes[w.current].state != StateOpen {
+			return fmt.Errorf("xmlwriter: attr %q written after the start tag was closed", a.Name)
+		}
+	}
+
 	if w.Indenter != nil {
 		if err := w.writeIndent(Event{StateOpen, AttrNode, 0}); err != nil {
 			return err
-- 
2.43.0


From 6cfbf20a034d1f0ffc84cd25ee38a9970fbc7c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:06 +0000
Subject: [PATCH 10/29] fix: attributes with an empty name were accepted

---
 attr.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/attr.go b/attr.go
index 4b9c8b0..3f4e70f 100644
--- a/attr.go
+++ b/attr.go
@@ -67,6 +67,9 @@ func (a Attr) write(w *Writer) error {
 	}
 
 	if w.Enforce {
+		if a.Name == "" {
+			return fmt.Errorf("xmlwriter: attr name must not be empty")
+		}
 		if w.current >= 0 && w.nodes[w.current].state != StateOpen {
 			return fmt.Errorf("xmlwriter: attr %q written after the start tag was closed", a.Name)
 		}
-- 
2.43.0


From 44c5b876270d1045f099d5fb96600d24cc73a399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:07 +0000
Subject: [PATCH 11/29] fix: carriage returns in text did not survive a round
 trip

---
 printer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/printer.go b/printer.go
index cca62d5..c6b4198 100644
--- a/printer.go
+++ b/printer.go
@@ -143,6 +143,9 @@ func (p printer) EscapeString(s string) error {
 			esc = escLt
 		case '>':
 			esc = escGt
+		case '\r':
+			// a literal CR would be normalised to LF by the reader
+			esc = escCr
 		default:
 			if !isInCharacterRange(r) || (r == 0xFFFD && width == 1) {
 				esc = escFffd
-- 
2.43.0


From b6cb23461c59d13a0827dc2277a440755c94a271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:08 +0000
Subject: [PATCH 12/29] fix: PI content was not checked for invalid chars

---
 nodes.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nodes.go b/nodes.go
index bc94016..946586f 100644
--- a/nodes.go
+++ b/nodes.go
@@ -399,6 +399,9 @@ func (p PI) write(w *Writer) error {
 		if strings.Index(p.Content, "?>") >= 0 {
 			return fmt.Errorf("xmlwriter: PI content may not contain '?>'")
 		}
+		if err := CheckChars(p.Content, w.StrictChars); err != nil {
+			return err
+		}
 	}
 
 	if err := w.writeBeginNext(PINode); err != nil {
-- 
2.43.0


From 19ef7cbf9e2686b28e88c1c37fb4360dcaafdfa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:27 +0000
Subject: [PATCH 13/29] fix: a failed EndElemFull left the element marked as
 Full

---
 writer.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/writer.go b/writer.go
index ee6037e..88e6274 100644
--- a/writer.go
+++ b/writer.go
@@ -324,10 +324,16 @@ func (w *Writer) EndElem(name ...string) error { return w.End(ElemNode, name...)
 // the current node is not an Elem. It will always be closed using the full
 // element close style even if it contains no children: "<tag></tag>".
 func (w *Writer) EndElemFull(name ...string) error {
+	cur, wasFull := w.current, false
 	if w.current >= 0 {
+		wasFull = w.nodes[w.current].elem.Full
 		w.nodes[w.current].elem.Full = true
 	}
-	return w.End(ElemNode, name...)
+	err := w.End(ElemNode, name...)
+	if err != nil && cur >= 0 && cur == w.current {
+		w.nodes[cur].elem.Full = wasFull
+	}
+	return err
 }
 
 // EndAny ends the current node, regardless of what kind of node it is.
-- 
2.43.0


From 429b2c34fc3cb48ae051daf1e610aed4836899a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:27 +0000
Subject: [PATCH 14/29] fix: EndToDepth ended the enclosing node when nothing
 was open above depth

---
 writer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/writer.go b/writer.go
index 88e6274..5889167 100644
--- a/writer.go
+++ b/writer.go
@@ -423,6 +423,9 @@ func (w *Writer) EndAll() error {
 //
 func (w *Writer) EndToDepth(depth int, kind NodeKind, name ...string) error {
 	limit := depth + 1
+	if w.current < limit {
+		return fmt.Errorf("xmlwriter: no node to end above depth %d", depth)
+	}
 	for {
 		if w.current <= limit {
 			break
-- 
2.43.0


From fdf07681858b577fbd031162e7c4edc86d479333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:28 +0000
Subject: [PATCH 15/29] fix: NodeKind.Name was empty for PINode and panicked
 for negative kinds

---
 nodekind.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/nodekind.go b/nodekind.go
index eda607c..6a59e3e 100644
--- a/nodekind.go
+++ b/nodekind.go
@@ -12,6 +12,9 @@ type NodeKind int
 // the Name() will be empty. String() returns a human-readable representation
 // for information purposes; if a stable string is required, use this instead.
 func (n NodeKind) Name() string {
+	if n < 0 {
+		return ""
+	}
 	if int(n) < nodeKindLength {
 		return kindName[n]
 	}
@@ -70,6 +73,7 @@ var kindName = [nodeKindLength]string{
 	DocNode:            "document",
 	ElemNode:           "elem",
 	NotationNode:       "notation",
+	PINode:             "pi",
 	RawNode:            "raw",
 	TextNode:           "text",
 }
@@ -111,6 +115,7 @@ var kindFlag = [nodeKindLength]nodeFlag{
 	DocNode:            docNodeFlag,
 	ElemNode:           elemNodeFlag,
 	NotationNode:       notationNodeFlag,
+	PINode:             pINodeFlag,
 	RawNode:            rawNodeFlag,
 	TextNode:           textNodeFlag,
 }
-- 
2.43.0


From adc98fad0356a265aced50082719d9bf0803b820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:29 +0000
Subject: [PATCH 16/29] fix: attr with a URI but no prefix wrote a malformed
 namespace declaration

---
 attr.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/attr.go b/attr.go
index 3f4e70f..660136c 100644
--- a/attr.go
+++ b/attr.go
@@ -70,6 +70,9 @@ func (a Attr) write(w *Writer) error {
 		if a.Name == "" {
 			return fmt.Errorf("xmlwriter: attr name must not be empty")
 		}
+		if a.URI != "" && a.Prefix == "" {
+			return fmt.Errorf("xmlwriter: attr %q has a namespace URI but no prefix", a.Name)
+		}
 		if w.current >= 0 && w.nodes[w.current].state != StateOpen {
 			return fmt.Errorf("xmlwriter: attr %q written after the start tag was closed", a.Name)
 		}
-- 
2.43.0


From 430b35fd330521893f534176cf761231b429c54f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:30 +0000
Subject: [PATCH 17/29] fix: system IDs and entity values were not checked for
 invalid chars

---
 printer.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/printer.go b/printer.go
index c6b4198..6ad98f2 100644
--- a/printer.go
+++ b/printer.go
@@ -190,6 +190,9 @@ func (p printer) writeSystemID(systemID string, enforce bool) error {
 	dq := strings.IndexRune(systemID, '"')
 
 	if enforce {
+		if err := CheckChars(systemID, false); err != nil {
+			return err
+		}
 		sq := strings.IndexRune(systemID, '\'')
 		if dq >= 0 && sq >= 0 {
 			return fmt.Errorf("xmlwriter: DTD system ID must only contain double or single quotes, not both")
@@ -216,6 +219,9 @@ func (p printer) writeEntityValue(value string, enforce bool) error {
 	}
 
 	if enforce {
+		if err := CheckChars(value, false); err != nil {
+			return err
+		}
 		sq := strings.IndexRune(value, '\'')
 		if dq >= 0 && sq >= 0 {
 			return fmt.Errorf("xmlwriter: entity value must only contain double or single quotes, not both")
-- 
2.43.0


From 96842862ae7fffb563901e02e3df737c2db15643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:31 +0000
Subject: [PATCH 18/29] fix: indenter broke lines after trailing text of
 structured Elem content

The last event was reset to the element's own start tag after its Content
was written, so WithIndent added a newline between the text at the end of
Content and whatever came next.
---
 node.go | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/node.go b/node.go
index 18448f3..b38586e 100644
--- a/node.go
+++ b/node.go
@@ -131,6 +131,8 @@ func (n *node) opened(w *Writer) error {
 		if err := w.writeIndent(ev); err != nil {
 			return err
 		}
+		// any content written below comes after this event
+		w.last = ev
 	}
 
 	switch n.kind {
@@ -150,17 +152,6 @@ func (n *node) opened(w *Writer) error {
 		// FIXME
 		panic(nil)
 	}
-	if err != nil {
-		return err
-	}
-
-	// writing the node's content may have grown w.nodes, which leaves n
-	// pointing into the old backing array:
-	n = &w.nodes[w.current]
-
-	if w.Indenter != nil {
-		w.last = Event{n.state, n.kind, n.children}
-	}
 	return err
 }
 
-- 
2.43.0


From a4525440e9f0336640abaea114eb1570af30ec04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:06 +0000
Subject: [PATCH 19/29] fix: Depth was one less than the number of open nodes

Depth() is documented to return the number of open nodes but returned -1
on a fresh writer. EndToDepth takes the same number and is adjusted with
it, so scopes that pair the two are not affected.
---
 writer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/writer.go b/writer.go
index 5889167..c295bca 100644
--- a/writer.go
+++ b/writer.go
@@ -111,7 +111,7 @@ func OpenEncoding(w io.Writer, encstr string, encoder *encoding.Encoder, options
 
 // Depth returns the number of opened Startable nodes on the stack.
 func (w *Writer) Depth() int {
-	return w.current
+	return w.current + 1
 }
 
 // Next ensures that the current element is opened and the next one
@@ -422,7 +422,7 @@ func (w *Writer) EndAll() error {
 //	}
 //
 func (w *Writer) EndToDepth(depth int, kind NodeKind, name ...string) error {
-	limit := depth + 1
+	limit := depth
 	if w.current < limit {
 		return fmt.Errorf("xmlwriter: no node to end above depth %d", depth)
 	}
-- 
2.43.0


From 432c1d9ba9a9649f5b4d3886f0e4f68536268c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:27 +0000
Subject: [PATCH 20/29] fix: Elem URI was dropped when the element has no
 prefix

Elem{URI: "u", Name: "e"} wrote <e/>, losing the namespace. Declare it as
the default namespace, like libxml's xmlTextWriterStartElementNS does.
---
 elem.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/elem.go b/elem.go
index eba5eb7..67cf86c 100644
--- a/elem.go
+++ b/elem.go
@@ -71,18 +71,22 @@ func (e Elem) open(n *node, w *Writer) error {
 		}
 	}
 
-	if e.Prefix != "" && e.URI != "" {
+	if e.URI != "" {
 		n.elem.namespaces = append(e.namespaces, ns{prefix: e.Prefix, uri: e.URI, elem: true})
 	}
 
 	w.printer.WriteByte('<')
 	w.printer.WriteString(name)
 
-	if e.Prefix != "" && e.URI != "" {
+	if e.URI != "" {
 		// we can assume the prefix has been enforced already by open running
 		// CheckName on elem.fullName()
 		n.elem.namespaces[0].written = true
-		if err := w.printer.printAttr("xmlns:"+e.Prefix, e.URI, w.Enforce); err != nil {
+		xmlns := "xmlns"
+		if e.Prefix != "" {
+			xmlns = "xmlns:" + e.Prefix
+		}
+		if err := w.printer.printAttr(xmlns, e.URI, w.Enforce); err != nil {
 			return err
 		}
 	}
-- 
2.43.0


From 785b85fca8dfd57d8d4d954927cd1b62c6f8c5cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:06 +0000
Subject: [PATCH 21/29] fix: the indenter was told of comment and cdata writes
 that were refused

---
 node.go  |  6 ++++++
 nodes.go | 14 ++++++++------
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/node.go b/node.go
index b38586e..77bf3d5 100644
--- a/node.go
+++ b/node.go
@@ -1,5 +1,7 @@
 package xmlwriter
 
+import "fmt"
+
 // NodeState is the state of the node being written.
 type NodeState int
 
@@ -167,6 +169,10 @@ func (n *node) end(w *Writer) error {
 		n = &w.nodes[w.current]
 	}
 
+	if n.kind == CommentNode && w.Enforce && n.endsDash {
+		return fmt.Errorf("xmlwriter: comment may not end with '-'")
+	}
+
 	n.state = StateEnded
 	if w.Indenter != nil {
 		ev := Event{n.state, n.kind, n.children}
diff --git a/nodes.go b/nodes.go
index 946586f..9012f20 100644
--- a/nodes.go
+++ b/nodes.go
@@ -75,7 +75,7 @@ func (c CommentContent) write(w *Writer) error {
 		}
 	}
 
-	if err := w.writeBeginNext(CommentContentNode); err != nil {
+	if err := w.Next(); err != nil {
 		return err
 	}
 	if s != "" && w.current >= 0 {
@@ -85,6 +85,9 @@ func (c CommentContent) write(w *Writer) error {
 		}
 		np.endsDash = s[len(s)-1] == '-'
 	}
+	if err := w.writeBeginCur(CommentContentNode); err != nil {
+		return err
+	}
 	if _, err := w.printer.WriteString(s); err != nil {
 		return err
 	}
@@ -140,10 +143,6 @@ func (c Comment) opened(n *node, w *Writer, prev NodeState) error {
 }
 
 func (c Comment) end(n *node, w *Writer, prev NodeState) error {
-	if w.Enforce && n.endsDash {
-		n.state = StateOpened
-		return fmt.Errorf("xmlwriter: comment may not end with '-'")
-	}
 	w.printer.WriteString("-->")
 	return w.printer.cachedWriteError()
 }
@@ -169,7 +168,7 @@ func (c CDataContent) write(w *Writer) error {
 		}
 	}
 
-	if err := w.writeBeginNext(CDataContentNode); err != nil {
+	if err := w.Next(); err != nil {
 		return err
 	}
 	if w.current >= 0 {
@@ -189,6 +188,9 @@ func (c CDataContent) write(w *Writer) error {
 		}
 		np.endsBrackets = brackets
 	}
+	if err := w.writeBeginCur(CDataContentNode); err != nil {
+		return err
+	}
 	if _, err := w.printer.WriteString(s); err != nil {
 		return err
 	}
-- 
2.43.0


From 4ec657125dcc82a498cddbdbd9186460753b4adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:01 +0000
Subject: [PATCH 22/29] fix: a refused attr declared its namespace and was
 shown to the indenter

---
 attr.go | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/attr.go b/attr.go
index 660136c..3407b51 100644
--- a/attr.go
+++ b/attr.go
@@ -78,20 +78,21 @@ func (a Attr) write(w *Writer) error {
 		}
 	}
 
-	if w.Indenter != nil {
-		if err := w.writeIndent(Event{StateOpen, AttrNode, 0}); err != nil {
-			return err
-		}
-	}
-
 	name := a.Name
 	if a.Prefix != "" {
 		name = a.Prefix + ":" + name
 	}
 
+	// everything that can be refused must be refused before there is any effect
+	if w.Enforce {
+		if err := CheckName(name); err != nil {
+			return err
+		}
+	}
+
+	ns := ns{prefix: a.Prefix, uri: a.URI}
+	found := false
 	if a.URI != "" && w.current >= 0 {
-		ns := ns{prefix: a.Prefix, uri: a.URI}
-		found := false
 		fail := false
 		for _, existing := range w.nodes[w.current].elem.namespaces {
 			if ns.prefix == existing.prefix {
@@ -104,11 +105,19 @@ func (a Attr) write(w *Writer) error {
 		}
 		if fail {
 			return fmt.Errorf("uri already exists for ns prefix %s", a.Prefix)
-		} else if !found {
-			w.nodes[w.current].elem.namespaces = append(w.nodes[w.current].elem.namespaces, ns)
 		}
 	}
 
+	if w.Indenter != nil {
+		if err := w.writeIndent(Event{StateOpen, AttrNode, 0}); err != nil {
+			return err
+		}
+	}
+
+	if a.URI != "" && w.current >= 0 && !found {
+		w.nodes[w.current].elem.namespaces = append(w.nodes[w.current].elem.namespaces, ns)
+	}
+
 	if err := w.printer.printAttr(name, a.Value, w.Enforce); err != nil {
 		return err
 	}
-- 
2.43.0


From cc4636b2ba9ebcd3c6a8df268ee124ae74e522be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:00 +0000
Subject: [PATCH 23/29] fix: refused DTD declarations left a part of themselves
 behind

---
 dtd.go     | 138 +++++++++++++++++++++++++++++------------------------
 printer.go |  81 +++++++++++++++----------------
 2 files changed, 117 insertions(+), 102 deletions(-)

diff --git a/dtd.go b/dtd.go
index 3854618..3f42806 100644
--- a/dtd.go
+++ b/dtd.go
@@ -14,6 +14,17 @@ type DTD struct {
 func (d DTD) kind() NodeKind { return DTDNode }
 
 func (d DTD) start(w *Writer) error {
+	if w.Enforce {
+		if len(d.Name) == 0 {
+			return fmt.Errorf("xmlwriter: DTD name must not be empty")
+		}
+		if err := CheckName(d.Name); err != nil {
+			return err
+		}
+		if err := checkExternalID(d.PublicID, d.SystemID); err != nil {
+			return err
+		}
+	}
 	if err := w.pushBegin(DTDNode, noNodeFlag|docNodeFlag); err != nil {
 		return err
 	}
@@ -26,19 +37,11 @@ func (d DTD) start(w *Writer) error {
 }
 
 func (d DTD) open(n *node, w *Writer) error {
-	if w.Enforce {
-		if len(d.Name) == 0 {
-			return fmt.Errorf("xmlwriter: DTD name must not be empty")
-		}
-		if err := CheckName(d.Name); err != nil {
-			return err
-		}
-	}
 	w.printer.WriteString("<!DOCTYPE ")
 	w.printer.WriteString(d.Name)
 	if d.PublicID != "" || d.SystemID != "" {
 		w.printer.WriteByte(' ')
-		return w.printer.writeExternalID(d.PublicID, d.SystemID, w.Enforce)
+		return w.printer.writeExternalID(d.PublicID, d.SystemID)
 	}
 	return w.printer.cachedWriteError()
 }
@@ -157,6 +160,27 @@ func (d DTDEntity) write(w *Writer) error {
 		if err := w.checkParent(noNodeFlag | dtdNodeFlag); err != nil {
 			return err
 		}
+		if d.SystemID != "" || d.PublicID != "" {
+			if d.Content != "" {
+				return fmt.Errorf("xmlwriter: external ID and content cannot both be provided")
+			}
+			if err := checkExternalID(d.PublicID, d.SystemID); err != nil {
+				return err
+			}
+			if err := CheckName(d.NDataID); err != nil {
+				return err
+			}
+		} else {
+			if d.NDataID != "" {
+				return fmt.Errorf("xmlwriter: external ID required for NDataID")
+			}
+			if err := checkEntityValue(d.Content); err != nil {
+				return err
+			}
+		}
+	}
+	if d.IsPE && d.NDataID != "" && (d.SystemID != "" || d.PublicID != "") {
+		return fmt.Errorf("xmlwriter: IsPE and NDataID both provided")
 	}
 
 	if err := w.writeBeginNext(DTDEntityNode); err != nil {
@@ -172,34 +196,18 @@ func (d DTDEntity) write(w *Writer) error {
 		w.printer.WriteByte(' ')
 
 		// external ref
-		if w.Enforce && d.Content != "" {
-			return fmt.Errorf("xmlwriter: external ID and content cannot both be provided")
-		}
-		if err := w.printer.writeExternalID(d.PublicID, d.SystemID, w.Enforce); err != nil {
+		if err := w.printer.writeExternalID(d.PublicID, d.SystemID); err != nil {
 			return err
 		}
 		if d.NDataID != "" {
-			if !d.IsPE {
-				w.printer.WriteString(" NDATA ")
-				if w.Enforce {
-					if err := CheckName(d.NDataID); err != nil {
-						return err
-					}
-				}
-				w.printer.WriteString(d.NDataID)
-			} else {
-				return fmt.Errorf("xmlwriter: IsPE and NDataID both provided")
-			}
+			w.printer.WriteString(" NDATA ")
+			w.printer.WriteString(d.NDataID)
 		}
 
 	} else {
 		// explicit content (parental advisory)
-		if w.Enforce && d.NDataID != "" {
-			return fmt.Errorf("xmlwriter: external ID required for NDataID")
-		}
-
 		w.printer.WriteByte(' ')
-		if err := w.printer.writeEntityValue(d.Content, w.Enforce); err != nil {
+		if err := w.printer.writeEntityValue(d.Content); err != nil {
 			return err
 		}
 	}
@@ -227,6 +235,14 @@ type DTDAttList struct {
 }
 
 func (d DTDAttList) start(w *Writer) error {
+	if w.Enforce {
+		if len(d.Name) == 0 {
+			return fmt.Errorf("xmlwriter: DTD attlist name must not be empty")
+		}
+		if err := CheckName(d.Name); err != nil {
+			return err
+		}
+	}
 	if err := w.pushBegin(DTDAttListNode, noNodeFlag|dtdNodeFlag); err != nil {
 		return err
 	}
@@ -251,14 +267,6 @@ func (d DTDAttList) write(w *Writer) error {
 }
 
 func (d DTDAttList) open(n *node, w *Writer) error {
-	if w.Enforce {
-		if len(d.Name) == 0 {
-			return fmt.Errorf("xmlwriter: DTD attlist name must not be empty")
-		}
-		if err := CheckName(d.Name); err != nil {
-			return err
-		}
-	}
 	w.printer.WriteString("<!ATTLIST ")
 	w.printer.WriteString(d.Name)
 	return w.printer.cachedWriteError()
@@ -347,6 +355,29 @@ func (d DTDAttr) write(w *Writer) error {
 		}
 	}
 
+	dflt := d.Default
+	if dflt == DTDAttrInfer {
+		if d.Value != "" {
+			dflt = DTDAttrDefault
+		} else {
+			dflt = DTDAttrImplied
+		}
+	}
+
+	switch dflt {
+	case DTDAttrDefault, DTDAttrFixed:
+	case DTDAttrRequired:
+		if d.Value != "" {
+			return fmt.Errorf("xmlwriter: #REQUIRED DTD attr must not declare Value")
+		}
+	case DTDAttrImplied:
+		if d.Value != "" {
+			return fmt.Errorf("xmlwriter: #IMPLIED DTD attr must not declare Value")
+		}
+	default:
+		return fmt.Errorf("xmlwriter: unknown DTDAttr default type")
+	}
+
 	if err := w.writeBeginNext(DTDAttrNode); err != nil {
 		return err
 	}
@@ -360,15 +391,6 @@ func (d DTDAttr) write(w *Writer) error {
 	w.printer.WriteString(string(d.Type))
 	w.printer.WriteByte(' ')
 
-	dflt := d.Default
-	if dflt == DTDAttrInfer {
-		if d.Value != "" {
-			dflt = DTDAttrDefault
-		} else {
-			dflt = DTDAttrImplied
-		}
-	}
-
 	switch dflt {
 	case DTDAttrDefault:
 		w.printer.WriteString(`"`)
@@ -382,19 +404,10 @@ func (d DTDAttr) write(w *Writer) error {
 		w.printer.WriteByte('"')
 
 	case DTDAttrRequired:
-		if d.Value != "" {
-			return fmt.Errorf("xmlwriter: #REQUIRED DTD attr must not declare Value")
-		}
 		w.printer.WriteString("#REQUIRED")
 
 	case DTDAttrImplied:
-		if d.Value != "" {
-			return fmt.Errorf("xmlwriter: #IMPLIED DTD attr must not declare Value")
-		}
 		w.printer.WriteString("#IMPLIED")
-
-	default:
-		return fmt.Errorf("xmlwriter: unknown DTDAttr default type")
 	}
 
 	if w.Indenter != nil {
@@ -428,6 +441,12 @@ func (n Notation) write(w *Writer) error {
 		if len(n.PublicID) == 0 && len(n.SystemID) == 0 {
 			return fmt.Errorf("xmlwriter: NOTATION requires external ID: '<!NOTATION' S Name S (ExternalID | PublicID) S? '>'")
 		}
+		if err := CheckPubID(n.PublicID); err != nil {
+			return err
+		}
+		if err := checkSystemID(n.SystemID); err != nil {
+			return err
+		}
 	}
 
 	if err := w.writeBeginNext(NotationNode); err != nil {
@@ -437,16 +456,11 @@ func (n Notation) write(w *Writer) error {
 	w.printer.WriteString(n.Name)
 	w.printer.WriteByte(' ')
 	if n.SystemID != "" {
-		if err := w.printer.writeExternalID(n.PublicID, n.SystemID, w.Enforce); err != nil {
+		if err := w.printer.writeExternalID(n.PublicID, n.SystemID); err != nil {
 			return err
 		}
 	} else if n.PublicID != "" {
-		if w.Enforce {
-			if err := CheckPubID(n.PublicID); err != nil {
-				return err
-			}
-		}
-		if err := w.printer.writePublicID(n.PublicID, n.SystemID, w.Enforce); err != nil {
+		if err := w.printer.writePublicID(n.PublicID, n.SystemID); err != nil {
 			return err
 		}
 	}
diff --git a/printer.go b/printer.go
index 6ad98f2..386ac15 100644
--- a/printer.go
+++ b/printer.go
@@ -161,43 +161,25 @@ func (p printer) EscapeString(s string) error {
 	return nil
 }
 
-func (p printer) writeExternalID(publicID string, systemID string, enforce bool) error {
+func (p printer) writeExternalID(publicID string, systemID string) error {
 	// 'SYSTEM' S SystemLiteral | 'PUBLIC' S PubidLiteral S SystemLiteral
 
 	if systemID != "" && publicID == "" {
 		// SYSTEM systemID
 		p.WriteString("SYSTEM ")
-		return p.writeSystemID(systemID, enforce)
+		return p.writeSystemID(systemID)
 
 	} else if publicID != "" {
 		// PUBLIC pubID systemID
-		if enforce {
-			if systemID == "" {
-				return fmt.Errorf("xmlwriter: DTD public ID provided but system ID missing")
-			}
-			if err := CheckPubID(publicID); err != nil {
-				return err
-			}
-		}
-		return p.writePublicID(publicID, systemID, enforce)
+		return p.writePublicID(publicID, systemID)
 	}
 	return nil
 }
 
-func (p printer) writeSystemID(systemID string, enforce bool) error {
+func (p printer) writeSystemID(systemID string) error {
 	// SystemLiteral ::= ('"' [^"]* '"') | ("'" [^']* "'")
 
 	dq := strings.IndexRune(systemID, '"')
-
-	if enforce {
-		if err := CheckChars(systemID, false); err != nil {
-			return err
-		}
-		sq := strings.IndexRune(systemID, '\'')
-		if dq >= 0 && sq >= 0 {
-			return fmt.Errorf("xmlwriter: DTD system ID must only contain double or single quotes, not both")
-		}
-	}
 	var qc byte = '"'
 	if dq >= 0 {
 		qc = '\''
@@ -209,7 +191,7 @@ func (p printer) writeSystemID(systemID string, enforce bool) error {
 	return p.cachedWriteError()
 }
 
-func (p printer) writeEntityValue(value string, enforce bool) error {
+func (p printer) writeEntityValue(value string) error {
 	// EntityValue ::= '"' ([^%&"] | PEReference | Reference)* '"'
 	//              |  "'" ([^%&'] | PEReference | Reference)* "'"
 	dq := strings.IndexRune(value, '"')
@@ -218,28 +200,13 @@ func (p printer) writeEntityValue(value string, enforce bool) error {
 		qc = '\''
 	}
 
-	if enforce {
-		if err := CheckChars(value, false); err != nil {
-			return err
-		}
-		sq := strings.IndexRune(value, '\'')
-		if dq >= 0 && sq >= 0 {
-			return fmt.Errorf("xmlwriter: entity value must only contain double or single quotes, not both")
-		}
-	}
-
 	p.WriteByte(qc)
 	p.WriteString(value)
 	p.WriteByte(qc)
 	return p.cachedWriteError()
 }
 
-func (p printer) writePublicID(publicID string, systemID string, enforce bool) error {
-	if enforce {
-		if len(publicID) < 0 {
-			return fmt.Errorf("xmlwriter: public ID must not be empty")
-		}
-	}
+func (p printer) writePublicID(publicID string, systemID string) error {
 	p.WriteString("PUBLIC ")
 	p.WriteByte('"')
 	p.WriteString(publicID)
@@ -247,7 +214,7 @@ func (p printer) writePublicID(publicID string, systemID string, enforce bool) e
 	var err error
 	if systemID != "" {
 		p.WriteString("\" ")
-		err = p.writeSystemID(systemID, enforce)
+		err = p.writeSystemID(systemID)
 	} else {
 		p.WriteString("\"")
 		err = p.cachedWriteError()
@@ -255,6 +222,40 @@ func (p printer) writePublicID(publicID string, systemID string, enforce bool) e
 	return err
 }
 
+// checkExternalID validates the IDs before anything is written: a node which
+// is refused must leave nothing behind.
+func checkExternalID(publicID string, systemID string) error {
+	if publicID != "" {
+		if systemID == "" {
+			return fmt.Errorf("xmlwriter: DTD public ID provided but system ID missing")
+		}
+		if err := CheckPubID(publicID); err != nil {
+			return err
+		}
+	}
+	return checkSystemID(systemID)
+}
+
+func checkSystemID(systemID string) error {
+	if err := CheckChars(systemID, false); err != nil {
+		return err
+	}
+	if strings.IndexByte(systemID, '"') >= 0 && strings.IndexByte(systemID, '\'') >= 0 {
+		return fmt.Errorf("xmlwriter: DTD system ID must only contain double or single quotes, not both")
+	}
+	return nil
+}
+
+func checkEntityValue(value string) error {
+	if err := CheckChars(value, false); err != nil {
+		return err
+	}
+	if strings.IndexByte(value, '"') >= 0 && strings.IndexByte(value, '\'') >= 0 {
+		return fmt.Errorf("xmlwriter: entity value must only contain double or single quotes, not both")
+	}
+	return nil
+}
+
 func (p printer) printAttr(name, value string, enforce bool) error {
 	// this is shared with Doc to write version="1.0", etc
 	if enforce {
-- 
2.43.0


From bb821a37c37f526c7ea120f7a23aae84930ef522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:02 +0000
Subject: [PATCH 24/29] fix: a refused Elem or Doc was left open, half written

---
 elem.go  | 19 ++++++++++---------
 nodes.go | 38 +++++++++++++++++++++-----------------
 2 files changed, 31 insertions(+), 26 deletions(-)

diff --git a/elem.go b/elem.go
index 67cf86c..f9346d4 100644
--- a/elem.go
+++ b/elem.go
@@ -31,6 +31,15 @@ type ns struct {
 func (e Elem) kind() NodeKind { return ElemNode }
 
 func (e Elem) start(w *Writer) error {
+	if w.Enforce {
+		name := e.fullName()
+		if name == "" {
+			return fmt.Errorf("xmlwriter: element name must not be empty")
+		}
+		if err := CheckName(name); err != nil {
+			return err
+		}
+	}
 	if err := w.pushBegin(ElemNode, noNodeFlag|docNodeFlag|elemNodeFlag); err != nil {
 		return err
 	}
@@ -62,14 +71,6 @@ func (e Elem) fullName() string {
 
 func (e Elem) open(n *node, w *Writer) error {
 	name := e.fullName()
-	if w.Enforce {
-		if name == "" {
-			return fmt.Errorf("xmlwriter: element name must not be empty")
-		}
-		if err := CheckName(name); err != nil {
-			return err
-		}
-	}
 
 	if e.URI != "" {
 		n.elem.namespaces = append(e.namespaces, ns{prefix: e.Prefix, uri: e.URI, elem: true})
@@ -79,7 +80,7 @@ func (e Elem) open(n *node, w *Writer) error {
 	w.printer.WriteString(name)
 
 	if e.URI != "" {
-		// we can assume the prefix has been enforced already by open running
+		// we can assume the prefix has been enforced already by start running
 		// CheckName on elem.fullName()
 		n.elem.namespaces[0].written = true
 		xmlns := "xmlns"
diff --git a/nodes.go b/nodes.go
index 9012f20..a77f551 100644
--- a/nodes.go
+++ b/nodes.go
@@ -301,6 +301,11 @@ func (d Doc) WithStandalone(v bool) Doc { d.Standalone = &v; return d }
 func (d Doc) kind() NodeKind { return DocNode }
 
 func (d Doc) start(w *Writer) error {
+	if enc := d.encoding(w); w.Enforce && enc != "" {
+		if err := CheckEncoding(enc); err != nil {
+			return err
+		}
+	}
 	if err := w.pushBegin(DocNode, noNodeFlag); err != nil {
 		return err
 	}
@@ -312,6 +317,18 @@ func (d Doc) start(w *Writer) error {
 	return w.pushEnd()
 }
 
+// encoding returns the value of the encoding="..." attribute, or an empty
+// string if there should be none.
+func (d Doc) encoding(w *Writer) string {
+	if d.SuppressEncoding {
+		return ""
+	}
+	if d.ForcedEncoding != nil {
+		return *d.ForcedEncoding
+	}
+	return w.encoding
+}
+
 func (d Doc) open(n *node, w *Writer) error {
 	w.printer.WriteString("<?xml")
 
@@ -332,23 +349,10 @@ func (d Doc) open(n *node, w *Writer) error {
 		}
 	}
 
-	if !d.SuppressEncoding {
-		enc := ""
-		if d.ForcedEncoding != nil {
-			enc = *d.ForcedEncoding
-		} else {
-			enc = w.encoding
-		}
-		if enc != "" {
-			if w.Enforce {
-				if err := CheckEncoding(enc); err != nil {
-					return err
-				}
-			}
-			space = false
-			if err := w.printer.printAttr("encoding", enc, w.Enforce); err != nil {
-				return err
-			}
+	if enc := d.encoding(w); enc != "" {
+		space = false
+		if err := w.printer.printAttr("encoding", enc, w.Enforce); err != nil {
+			return err
 		}
 	}
 
-- 
2.43.0


From 75e3baead08d7345d37a46dfe5da2c174880514c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:11 +0000
Subject: [PATCH 25/29] fix: EndDoc ended nodes although there was no document
 to end

---
 writer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/writer.go b/writer.go
index c295bca..6c99a06 100644
--- a/writer.go
+++ b/writer.go
@@ -288,6 +288,9 @@ func (w *Writer) WriteAttr(attrs ...Attr) (err error) {
 // the same as calling End(DocNode), which will only end a Doc{} if it is the
 // current node on the stack.
 func (w *Writer) EndDoc() (err error) {
+	if w.current >= 0 && w.nodes[0].kind != DocNode {
+		return fmt.Errorf("xmlwriter: no document to end")
+	}
 	for {
 		if w.current <= 0 {
 			break
-- 
2.43.0


From 38fa5d1ca22695b01e377b8b54c2ee80d9bf2046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:31 +0000
Subject: [PATCH 26/29] fix: EndToDepth ended the nodes above one that it then
 refused to end

---
 writer.go | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/writer.go b/writer.go
index 6c99a06..bc5b1ef 100644
--- a/writer.go
+++ b/writer.go
@@ -358,17 +358,25 @@ func (w *Writer) End(kind NodeKind, name ...string) error {
 	if w.current < 0 {
 		return fmt.Errorf("xmlwriter: could not pop node")
 	}
+	if err := w.checkEnd(&w.nodes[w.current], kind, name); err != nil {
+		return err
+	}
+	return w.pop(kind)
+}
+
+// checkEnd makes sure that n is the node End() was asked to end.
+func (w *Writer) checkEnd(n *node, kind NodeKind, name []string) error {
 	switch len(name) {
 	case 0:
 	case 1:
 		nname := ""
 		switch kind {
 		case ElemNode:
-			nname = w.nodes[w.current].elem.Name
+			nname = n.elem.Name
 		case DTDNode:
-			nname = w.nodes[w.current].dtd.Name
+			nname = n.dtd.Name
 		case DTDAttListNode:
-			nname = w.nodes[w.current].dtdAttList.Name
+			nname = n.dtdAttList.Name
 		default:
 			return fmt.Errorf("xmlwriter: tried to pop named, but node was not named")
 		}
@@ -379,9 +387,9 @@ func (w *Writer) End(kind NodeKind, name ...string) error {
 	case 2:
 		switch kind {
 		case ElemNode:
-			if w.nodes[w.current].elem.Prefix != name[0] || w.nodes[w.current].elem.Name != name[1] {
+			if n.elem.Prefix != name[0] || n.elem.Name != name[1] {
 				exp := name[0] + ":" + name[1]
-				nname := w.nodes[w.current].elem.fullName()
+				nname := n.elem.fullName()
 				return fmt.Errorf("xmlwriter: %s name %q did not match expected %q", kind.Name(), nname, exp)
 			}
 		default:
@@ -390,7 +398,10 @@ func (w *Writer) End(kind NodeKind, name ...string) error {
 	default:
 		return fmt.Errorf("xmlwriter: invalid name")
 	}
-	return w.pop(kind)
+	if n.kind != kind {
+		return fmt.Errorf("xmlwriter: unexpected kind %s, expected %s", n.kind.Name(), kind.Name())
+	}
+	return nil
 }
 
 // EndAll ends every node on the stack
@@ -426,9 +437,13 @@ func (w *Writer) EndAll() error {
 //
 func (w *Writer) EndToDepth(depth int, kind NodeKind, name ...string) error {
 	limit := depth
-	if w.current < limit {
+	if limit < 0 || w.current < limit {
 		return fmt.Errorf("xmlwriter: no node to end above depth %d", depth)
 	}
+	// refuse before any of the nodes above it is ended
+	if err := w.checkEnd(&w.nodes[limit], kind, name); err != nil {
+		return err
+	}
 	for {
 		if w.current <= limit {
 			break
-- 
2.43.0


From f1b8a0d7c668ca16b032d6fd12e2b541ace233d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:45 +0000
Subject: [PATCH 27/29] fix: a Comment or CData refused for its content was
 left open

---
 nodes.go | 46 ++++++++++++++++++++++++++++++++++++----------
 1 file changed, 36 insertions(+), 10 deletions(-)

diff --git a/nodes.go b/nodes.go
index a77f551..bbb6414 100644
--- a/nodes.go
+++ b/nodes.go
@@ -66,11 +66,7 @@ func (c CommentContent) write(w *Writer) error {
 		if err := w.checkParent(noNodeFlag | commentNodeFlag); err != nil {
 			return err
 		}
-		// FIXME: we could escape this. should we?
-		if strings.Index(s, "--") >= 0 {
-			return fmt.Errorf("xmlwriter: comment may not contain '--'")
-		}
-		if err := CheckChars(s, w.StrictChars); err != nil {
+		if err := checkComment(s, w.StrictChars); err != nil {
 			return err
 		}
 	}
@@ -103,7 +99,21 @@ type Comment struct {
 	Content string
 }
 
+func checkComment(s string, strict bool) error {
+	// FIXME: we could escape this. should we?
+	if strings.Index(s, "--") >= 0 {
+		return fmt.Errorf("xmlwriter: comment may not contain '--'")
+	}
+	return CheckChars(s, strict)
+}
+
 func (c Comment) start(w *Writer) error {
+	if w.Enforce {
+		// the content is written later, when it is too late to refuse the node
+		if err := checkComment(c.Content, w.StrictChars); err != nil {
+			return err
+		}
+	}
 	if err := w.pushBegin(CommentNode, noNodeFlag|docNodeFlag|dtdNodeFlag|elemNodeFlag); err != nil {
 		return err
 	}
@@ -118,6 +128,12 @@ func (c Comment) start(w *Writer) error {
 func (c Comment) kind() NodeKind { return CommentNode }
 
 func (c Comment) write(w *Writer) error {
+	if w.Enforce && strings.HasSuffix(c.Content, "-") {
+		if err := checkComment(c.Content, w.StrictChars); err != nil {
+			return err
+		}
+		return fmt.Errorf("xmlwriter: comment may not end with '-'")
+	}
 	if err := w.StartComment(c); err != nil {
 		return err
 	}
@@ -159,11 +175,7 @@ func (c CDataContent) write(w *Writer) error {
 		if err := w.checkParent(noNodeFlag | cDataNodeFlag); err != nil {
 			return err
 		}
-		// FIXME: we could escape this. should we?
-		if strings.Index(s, "]]>") >= 0 {
-			return fmt.Errorf("xmlwriter: cdata may not contain ']]>'")
-		}
-		if err := CheckChars(s, w.StrictChars); err != nil {
+		if err := checkCData(s, w.StrictChars); err != nil {
 			return err
 		}
 	}
@@ -206,7 +218,21 @@ type CData struct {
 	Content string
 }
 
+func checkCData(s string, strict bool) error {
+	// FIXME: we could escape this. should we?
+	if strings.Index(s, "]]>") >= 0 {
+		return fmt.Errorf("xmlwriter: cdata may not contain ']]>'")
+	}
+	return CheckChars(s, strict)
+}
+
 func (c CData) start(w *Writer) error {
+	if w.Enforce {
+		// the content is written later, when it is too late to refuse the node
+		if err := checkCData(c.Content, w.StrictChars); err != nil {
+			return err
+		}
+	}
 	if err := w.pushBegin(CDataNode, noNodeFlag|elemNodeFlag); err != nil {
 		return err
 	}
-- 
2.43.0


From c1796486e9c651844ea35b5c31ae8e831ee49bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:09 +0000
Subject: [PATCH 28/29] fix: an Elem refused for one of its Attrs was left open

---
 attr.go | 38 ++++++++++++++++++++++----------------
 elem.go | 25 +++++++++++++++++++++++++
 2 files changed, 47 insertions(+), 16 deletions(-)

diff --git a/attr.go b/attr.go
index 3407b51..d0c7dd1 100644
--- a/attr.go
+++ b/attr.go
@@ -59,6 +59,24 @@ func (a Attr) Float32(v float32) Attr {
 // Float64 writes a float64 to an attribute.
 func (a Attr) Float64(v float64) Attr { a.Value = strconv.FormatFloat(v, 'g', -1, 64); return a }
 
+func (a Attr) fullName() string {
+	name := a.Name
+	if a.Prefix != "" {
+		name = a.Prefix + ":" + name
+	}
+	return name
+}
+
+func (a Attr) check() error {
+	if a.Name == "" {
+		return fmt.Errorf("xmlwriter: attr name must not be empty")
+	}
+	if a.URI != "" && a.Prefix == "" {
+		return fmt.Errorf("xmlwriter: attr %q has a namespace URI but no prefix", a.Name)
+	}
+	return CheckName(a.fullName())
+}
+
 func (a Attr) write(w *Writer) error {
 	if w.Enforce {
 		if err := w.checkParent(noNodeFlag | elemNodeFlag); err != nil {
@@ -67,28 +85,16 @@ func (a Attr) write(w *Writer) error {
 	}
 
 	if w.Enforce {
-		if a.Name == "" {
-			return fmt.Errorf("xmlwriter: attr name must not be empty")
-		}
-		if a.URI != "" && a.Prefix == "" {
-			return fmt.Errorf("xmlwriter: attr %q has a namespace URI but no prefix", a.Name)
+		// everything that can be refused must be refused before there is any effect
+		if err := a.check(); err != nil {
+			return err
 		}
 		if w.current >= 0 && w.nodes[w.current].state != StateOpen {
 			return fmt.Errorf("xmlwriter: attr %q written after the start tag was closed", a.Name)
 		}
 	}
 
-	name := a.Name
-	if a.Prefix != "" {
-		name = a.Prefix + ":" + name
-	}
-
-	// everything that can be refused must be refused before there is any effect
-	if w.Enforce {
-		if err := CheckName(name); err != nil {
-			return err
-		}
-	}
+	name := a.fullName()
 
 	ns := ns{prefix: a.Prefix, uri: a.URI}
 	found := false
diff --git a/elem.go b/elem.go
index f9346d4..04f964e 100644
--- a/elem.go
+++ b/elem.go
@@ -39,6 +39,9 @@ func (e Elem) start(w *Writer) error {
 		if err := CheckName(name); err != nil {
 			return err
 		}
+		if err := e.checkAttrs(); err != nil {
+			return err
+		}
 	}
 	if err := w.pushBegin(ElemNode, noNodeFlag|docNodeFlag|elemNodeFlag); err != nil {
 		return err
@@ -51,6 +54,28 @@ func (e Elem) start(w *Writer) error {
 	return w.pushEnd()
 }
 
+// checkAttrs makes sure that none of the Attrs will be refused after the
+// element has been begun.
+func (e Elem) checkAttrs() error {
+	for i, a := range e.Attrs {
+		if err := a.check(); err != nil {
+			return err
+		}
+		if a.URI == "" {
+			continue
+		}
+		if e.URI != "" && e.Prefix == a.Prefix && e.URI != a.URI {
+			return fmt.Errorf("uri already exists for ns prefix %s", a.Prefix)
+		}
+		for _, b := range e.Attrs[:i] {
+			if b.URI != "" && b.Prefix == a.Prefix && b.URI != a.URI {
+				return fmt.Errorf("uri already exists for ns prefix %s", a.Prefix)
+			}
+		}
+	}
+	return nil
+}
+
 func (e Elem) write(w *Writer) error {
 	if err := e.start(w); err != nil {
 		return err
-- 
2.43.0


From dfc5445f8471f5790a043ab6ea9d25ea4d60f001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:05 +0000
Subject: [PATCH 29/29] fix: a DTDAttList refused for one of its Attrs was left
 open

---
 dtd.go | 48 ++++++++++++++++++++++++++++++++----------------
 1 file changed, 32 insertions(+), 16 deletions(-)

diff --git a/dtd.go b/dtd.go
index 3f42806..29753ae 100644
--- a/dtd.go
+++ b/dtd.go
@@ -242,6 +242,11 @@ func (d DTDAttList) start(w *Writer) error {
 		if err := CheckName(d.Name); err != nil {
 			return err
 		}
+		for _, attr := range d.Attrs {
+			if err := attr.check(true); err != nil {
+				return err
+			}
+		}
 	}
 	if err := w.pushBegin(DTDAttListNode, noNodeFlag|dtdNodeFlag); err != nil {
 		return err
@@ -339,11 +344,19 @@ type DTDAttr struct {
 
 func (d DTDAttr) kind() NodeKind { return DTDAttrNode }
 
-func (d DTDAttr) write(w *Writer) error {
-	if w.Enforce {
-		if err := w.checkParent(noNodeFlag | dtdAttListNodeFlag); err != nil {
-			return err
-		}
+// defaultType returns the DTDAttrDefaultType to use for DTDAttrInfer.
+func (d DTDAttr) defaultType() DTDAttrDefaultType {
+	if d.Default != DTDAttrInfer {
+		return d.Default
+	}
+	if d.Value != "" {
+		return DTDAttrDefault
+	}
+	return DTDAttrImplied
+}
+
+func (d DTDAttr) check(enforce bool) error {
+	if enforce {
 		if len(d.Name) == 0 {
 			return fmt.Errorf("xmlwriter: DTD attr name must not be empty")
 		}
@@ -355,16 +368,7 @@ func (d DTDAttr) write(w *Writer) error {
 		}
 	}
 
-	dflt := d.Default
-	if dflt == DTDAttrInfer {
-		if d.Value != "" {
-			dflt = DTDAttrDefault
-		} else {
-			dflt = DTDAttrImplied
-		}
-	}
-
-	switch dflt {
+	switch d.defaultType() {
 	case DTDAttrDefault, DTDAttrFixed:
 	case DTDAttrRequired:
 		if d.Value != "" {
@@ -377,6 +381,18 @@ func (d DTDAttr) write(w *Writer) error {
 	default:
 		return fmt.Errorf("xmlwriter: unknown DTDAttr default type")
 	}
+	return nil
+}
+
+func (d DTDAttr) write(w *Writer) error {
+	if w.Enforce {
+		if err := w.checkParent(noNodeFlag | dtdAttListNodeFlag); err != nil {
+			return err
+		}
+	}
+	if err := d.check(w.Enforce); err != nil {
+		return err
+	}
 
 	if err := w.writeBeginNext(DTDAttrNode); err != nil {
 		return err
@@ -391,7 +407,7 @@ func (d DTDAttr) write(w *Writer) error {
 	w.printer.WriteString(string(d.Type))
 	w.printer.WriteByte(' ')
 
-	switch dflt {
+	switch d.defaultType() {
 	case DTDAttrDefault:
 		w.printer.WriteString(`"`)
 		w.printer.EscapeAttrString(d.Value)
-- 
2.43.0

