From c55ea98d0719d15d3ff104e1e74dfeee9c550f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:44 +0000
Subject: [PATCH 01/99] fix: stream objects keep their own dictionary and empty
 streams stay streams

---
 core/write/writer.go | 49 +++++++++++++++++++++++++-------------------
 1 file changed, 28 insertions(+), 21 deletions(-)

diff --git a/core/write/writer.go b/core/write/writer.go
index cde6981..1f0f583 100644
--- a/core/write/writer.go
+++ b/core/write/writer.go
@@ -101,6 +101,27 @@ func (w *PDFWriter) AddStreamObject(dict Dictionary, data []byte, compress bool)
 	objNum := w.nextObjNum
 	w.nextObjNum++
 
+	dict, streamData := prepareStream(dict, data, compress)
+
+	w.objects[objNum] = &PDFObject{
+		Number:     objNum,
+		Generation: 0,
+		Dict:       dict,
+		Stream:     streamData,
+	}
+
+	return objNum
+}
+
+// prepareStream returns a private copy of the dictionary, completed with /Length (and
+// /Filter when the data is compressed here), and the stream data to store. The caller's
+// dictionary is left alone, so it can be used for several streams.
+func prepareStream(dict Dictionary, data []byte, compress bool) (Dictionary, []byte) {
+	streamDict := make(Dictionary, len(dict)+2)
+	for key, value := range dict {
+		streamDict[strings.TrimPrefix(key, "/")] = value
+	}
+
 	streamData := data
 	if compress && len(data) > 0 {
 		var buf bytes.Buffer
@@ -108,19 +129,15 @@ func (w *PDFWriter) AddStreamObject(dict Dictionary, data []byte, compress bool)
 		zw.Write(data)
 		zw.Close()
 		streamData = buf.Bytes()
-		dict["Filter"] = "/FlateDecode"
+		streamDict["Filter"] = "/FlateDecode"
 	}
-
-	dict["Length"] = len(streamData)
-
-	w.objects[objNum] = &PDFObject{
-		Number:     objNum,
-		Generation: 0,
-		Dict:       dict,
-		Stream:     streamData,
+	if streamData == nil {
+		// an empty stream is still a stream
+		streamData = []byte{}
 	}
 
-	return objNum
+	streamDict["Length"] = len(streamData)
+	return streamDict, streamData
 }
 
 // SetObject sets or replaces an object at a specific number
@@ -137,17 +154,7 @@ func (w *PDFWriter) SetObject(objNum int, content []byte) {
 
 // SetStreamObject sets a stream object at a specific number
 func (w *PDFWriter) SetStreamObject(objNum int, dict Dictionary, data []byte, compress bool) {
-	streamData := data
-	if compress && len(data) > 0 {
-		var buf bytes.Buffer
-		zw := zlib.NewWriter(&buf)
-		zw.Write(data)
-		zw.Close()
-		streamData = buf.Bytes()
-		dict["Filter"] = "/FlateDecode"
-	}
-
-	dict["Length"] = len(streamData)
+	dict, streamData := prepareStream(dict, data, compress)
 
 	w.objects[objNum] = &PDFObject{
 		Number:     objNum,
-- 
2.43.0


From 0cbd1d7d8221d18712c973f123fbf8fafbb1565f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:44 +0000
Subject: [PATCH 02/99] fix: report a short write of the document as an error

---
 core/write/writer.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/core/write/writer.go b/core/write/writer.go
index 1f0f583..b17f08d 100644
--- a/core/write/writer.go
+++ b/core/write/writer.go
@@ -420,8 +420,14 @@ func (w *PDFWriter) Write(out io.Writer) error {
 	buf.WriteString(fmt.Sprintf("startxref\n%d\n%%%%EOF\n", xrefPos))
 
 	// Write to output
-	_, err = out.Write(buf.Bytes())
-	return err
+	n, err := out.Write(buf.Bytes())
+	if err != nil {
+		return err
+	}
+	if n < buf.Len() {
+		return io.ErrShortWrite
+	}
+	return nil
 }
 
 // formatDictionary formats a Dictionary as PDF syntax
-- 
2.43.0


From 17e197967905ce5c23d8538197e72bec756a9e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:48 +0000
Subject: [PATCH 03/99] fix: fail the write when a stream cannot be encrypted
 instead of writing it in the clear

---
 core/write/writer.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/core/write/writer.go b/core/write/writer.go
index b17f08d..7550fda 100644
--- a/core/write/writer.go
+++ b/core/write/writer.go
@@ -311,19 +311,22 @@ func (w *PDFWriter) Write(out io.Writer) error {
 		// Write content
 		if obj.Stream != nil {
 			// Stream object
-			content := w.formatDictionary(obj.Dict)
+			dict := obj.Dict
 
 			// Encrypt stream if needed
 			streamData := obj.Stream
 			if w.encryptInfo != nil {
 				encrypted, err := w.encryptStream(streamData, objNum, obj.Generation)
-				if err == nil {
-					streamData = encrypted
-					// Update length in dictionary
-					obj.Dict["Length"] = len(streamData)
-					content = w.formatDictionary(obj.Dict)
+				if err != nil {
+					// never fall back to writing the data in the clear
+					return fmt.Errorf("failed to encrypt object %d: %w", objNum, err)
 				}
+				streamData = encrypted
+				// The length of the encrypted data goes in this copy only, the
+				// object itself stays as it is for the next Write
+				dict, _ = prepareStream(obj.Dict, encrypted, false)
 			}
+			content := w.formatDictionary(dict)
 
 			buf.Write(content)
 			buf.WriteString("\nstream\n")
-- 
2.43.0


From b0be208cc06d392b99e0f3afee7dd29ac827631f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:11 +0000
Subject: [PATCH 04/99] fix: encrypt streams with RC4 for V1/V2 instead of
 writing them in the clear

---
 core/write/writer.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/core/write/writer.go b/core/write/writer.go
index 7550fda..0dafacc 100644
--- a/core/write/writer.go
+++ b/core/write/writer.go
@@ -8,6 +8,7 @@ import (
 	"crypto/cipher"
 	"crypto/md5"
 	"crypto/rand"
+	"crypto/rc4"
 	"fmt"
 	"io"
 	"sort"
@@ -505,9 +506,12 @@ func (w *PDFWriter) encryptStream(data []byte, objNum, genNum int) ([]byte, erro
 	pack2 := []byte{byte(genNum & 0xff), byte((genNum >> 8) & 0xff)}
 
 	n := w.encryptInfo.KeyLength
-	if n == 0 {
+	if n == 0 || w.encryptInfo.V == 1 {
 		n = 5
 	}
+	if n < 0 || n > len(w.encryptInfo.EncryptKey) {
+		return nil, fmt.Errorf("encryption key has %d bytes, key length is %d", len(w.encryptInfo.EncryptKey), n)
+	}
 
 	keyData := make([]byte, n+5)
 	copy(keyData, w.encryptInfo.EncryptKey[:n])
@@ -557,8 +561,17 @@ func (w *PDFWriter) encryptStream(data []byte, objNum, genNum int) ([]byte, erro
 	}
 
 	// RC4 encryption (V1, V2)
-	// Not implemented for now
-	return data, nil
+	if w.encryptInfo.V == 1 || w.encryptInfo.V == 2 {
+		rc4Cipher, err := rc4.NewCipher(keyHash.Sum(nil)[:min(n+5, 16)])
+		if err != nil {
+			return nil, err
+		}
+		encrypted := make([]byte, len(data))
+		rc4Cipher.XORKeyStream(encrypted, data)
+		return encrypted, nil
+	}
+
+	return nil, fmt.Errorf("unsupported encryption version %d", w.encryptInfo.V)
 }
 
 // Bytes returns the complete PDF as a byte slice
-- 
2.43.0


From c522cc3b7e788f521ea9364de9bd746183b21ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:40 +0000
Subject: [PATCH 05/99] fix: put /Root, /Info, /Encrypt and /ID in the
 cross-reference stream dictionary

---
 core/write/xref_stream.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/core/write/xref_stream.go b/core/write/xref_stream.go
index d482a2d..8f847e5 100644
--- a/core/write/xref_stream.go
+++ b/core/write/xref_stream.go
@@ -132,8 +132,8 @@ func (w *PDFWriter) writeXRefStream(buf *bytes.Buffer, positions map[int]int64,
 	}
 	compressedData := compressed.Bytes()
 
-	// Create xref stream dictionary
-	// Note: /Root, /Info, /Encrypt, /ID go in the trailer, not the stream dict
+	// Create xref stream dictionary. It takes the place of the trailer dictionary,
+	// so /Root, /Info, /Encrypt and /ID belong here
 	xrefStreamDict := Dictionary{
 		"/Type":   "/XRef",
 		"/Size":   totalObjects,
@@ -141,6 +141,18 @@ func (w *PDFWriter) writeXRefStream(buf *bytes.Buffer, positions map[int]int64,
 		"/Filter": "/FlateDecode",
 		"/Length": len(compressedData),
 	}
+	if w.rootRef != "" {
+		xrefStreamDict["/Root"] = w.rootRef
+	}
+	if w.infoRef != "" {
+		xrefStreamDict["/Info"] = w.infoRef
+	}
+	if w.encryptRef != "" {
+		xrefStreamDict["/Encrypt"] = w.encryptRef
+	}
+	if len(w.fileID) > 0 {
+		xrefStreamDict["/ID"] = []interface{}{w.fileID, w.fileID}
+	}
 
 	// Increment object counter
 	w.nextObjNum++
-- 
2.43.0


From a47a1c335cba41a0487563f348f5f2e4840e5a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:58 +0000
Subject: [PATCH 06/99] fix: writing a document twice writes the same objects
 twice

---
 core/write/writer.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/core/write/writer.go b/core/write/writer.go
index 0dafacc..0ce16c9 100644
--- a/core/write/writer.go
+++ b/core/write/writer.go
@@ -275,8 +275,17 @@ func (w *PDFWriter) Write(out io.Writer) error {
 	buf.Write([]byte{0x25, 0xE2, 0xE3, 0xCF, 0xD3, 0x0A}) // Binary marker
 
 	// Create object streams if enabled (before writing objects)
-	// This may add new object stream objects to w.objects
-	objStreamMap, _, err := w.createObjectStreams()
+	// This may add new object stream objects to w.objects. They, and the object
+	// numbers used for them and for the xref stream, belong to this output only:
+	// the next Write starts from the same objects again
+	nextObjNum := w.nextObjNum
+	objStreamMap, objStreams, err := w.createObjectStreams()
+	defer func() {
+		for _, group := range objStreams {
+			delete(w.objects, group.streamObjNum)
+		}
+		w.nextObjNum = nextObjNum
+	}()
 	if err != nil {
 		return fmt.Errorf("failed to create object streams: %v", err)
 	}
-- 
2.43.0


From ee9116d0da8ac7ebf2d8f908395c58f0f916c900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:58 +0000
Subject: [PATCH 07/99] fix: object streams use offsets relative to /First, a
 fixed order, and leave the encryption dictionary out

---
 core/write/object_stream.go | 34 +++++++++++-----------------------
 1 file changed, 11 insertions(+), 23 deletions(-)

diff --git a/core/write/object_stream.go b/core/write/object_stream.go
index e0bbd26..f9e5c18 100644
--- a/core/write/object_stream.go
+++ b/core/write/object_stream.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"compress/zlib"
 	"fmt"
+	"sort"
 	"strconv"
 	"strings"
 )
@@ -31,11 +32,17 @@ func (w *PDFWriter) createObjectStreams() (map[int]struct {
 		if obj.IsFree {
 			continue
 		}
+		// The encryption dictionary is needed to read an encrypted object stream,
+		// so it cannot be inside one
+		if w.encryptRef == fmt.Sprintf("%d 0 R", objNum) {
+			continue
+		}
 		// Only compress non-stream objects (stream objects are already compressed)
 		if obj.Stream == nil && obj.Content != nil {
 			eligibleObjs = append(eligibleObjs, objNum)
 		}
 	}
+	sort.Ints(eligibleObjs)
 
 	if len(eligibleObjs) == 0 {
 		return nil, nil, nil
@@ -72,9 +79,8 @@ func (w *PDFWriter) createObjectStreams() (map[int]struct {
 	currentOffset := 0
 	for i := range objInfos {
 		objInfos[i].offset = currentOffset
-		// Offset is relative to start of object data (after header)
-		// We'll add header length later
-		currentOffset += len(objInfos[i].data) + 1 // +1 for space separator
+		// Offset is relative to start of object data (/First)
+		currentOffset += len(objInfos[i].data) + 1 // +1 for the separator
 	}
 
 	// Build header: "objnum1 offset1 objnum2 offset2 ..."
@@ -87,32 +93,14 @@ func (w *PDFWriter) createObjectStreams() (map[int]struct {
 
 	headerStr := strings.TrimSpace(headerBuilder.String())
 	headerBytes := []byte(headerStr)
-	firstOffset := len(headerBytes)
-
-	// Adjust offsets to be relative to start of data (after header + space)
-	dataStartOffset := firstOffset + 1 // +1 for space after header
-	for i := range objInfos {
-		objInfos[i].offset += dataStartOffset
-	}
-
-	// Rebuild header with corrected offsets
-	headerBuilder.Reset()
-	for _, info := range objInfos {
-		headerBuilder.WriteString(strconv.Itoa(info.objNum))
-		headerBuilder.WriteString(" ")
-		headerBuilder.WriteString(strconv.Itoa(info.offset))
-		headerBuilder.WriteString(" ")
-	}
-	headerStr = strings.TrimSpace(headerBuilder.String())
-	headerBytes = []byte(headerStr)
-	firstOffset = len(headerBytes)
+	firstOffset := len(headerBytes) + 1 // +1 for space after header
 
 	// Build data section
 	var dataBuilder bytes.Buffer
 	for i, info := range objInfos {
 		dataBuilder.Write(info.data)
 		if i < len(objInfos)-1 {
-			dataBuilder.WriteByte(' ') // Space between objects
+			dataBuilder.WriteByte('\n') // Ends the object, and a comment at its end
 		}
 
 		// Track mapping
-- 
2.43.0


From be67088e6b387004b0a5dbd756f3ab4edf1ab408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:13 +0000
Subject: [PATCH 08/99] fix: adding bookmarks keeps the other catalog entries
 and the page tree reference

---
 core/write/writer.go | 74 +++++++++++++-------------------------------
 1 file changed, 21 insertions(+), 53 deletions(-)

diff --git a/core/write/writer.go b/core/write/writer.go
index 0ce16c9..e5aae6d 100644
--- a/core/write/writer.go
+++ b/core/write/writer.go
@@ -11,6 +11,7 @@ import (
 	"crypto/rc4"
 	"fmt"
 	"io"
+	"regexp"
 	"sort"
 	"strconv"
 	"strings"
@@ -197,64 +198,31 @@ func (w *PDFWriter) updateCatalogWithOutlines() {
 		return
 	}
 
-	// Parse catalog dictionary if it's a Dictionary, otherwise parse as string
-	var catalogDict Dictionary
+	// A catalog given as a Dictionary gets the entry directly
 	if catalogObj.Dict != nil {
-		catalogDict = catalogObj.Dict
-	} else {
-		// Try to parse from Content
-		catalogStr := string(catalogObj.Content)
-		// Simple parsing - find dictionary entries
-		// For now, rebuild the dictionary properly
-		// Extract existing entries and rebuild
-		if strings.Contains(catalogStr, "/Type") && strings.Contains(catalogStr, "/Pages") {
-			// Rebuild with /Outlines
-			catalogDict = Dictionary{
-				"/Type":  "/Catalog",
-				"/Pages": extractDictValueFromString(catalogStr, "/Pages"),
-			}
-			if pagesRef := extractDictValueFromString(catalogStr, "/Pages"); pagesRef != "" {
-				catalogDict["/Pages"] = pagesRef
-			}
-		} else {
-			// Fallback: just add /Outlines to string
-			catalogStr := string(catalogObj.Content)
-			if !strings.Contains(catalogStr, "/Outlines") {
-				lastIdx := strings.LastIndex(catalogStr, ">>")
-				if lastIdx > 0 {
-					catalogStr = catalogStr[:lastIdx] + fmt.Sprintf("/Outlines %s ", w.outlinesRef) + catalogStr[lastIdx:]
-					catalogObj.Content = []byte(catalogStr)
-				}
-			}
-			return
-		}
+		catalogObj.Dict["/Outlines"] = w.outlinesRef
+		catalogObj.Content = w.formatDictionary(catalogObj.Dict)
+		return
 	}
 
-	// Add /Outlines to dictionary
-	catalogDict["/Outlines"] = w.outlinesRef
-
-	// Update catalog object
-	catalogObj.Content = w.formatDictionary(catalogDict)
-	catalogObj.Dict = catalogDict
+	// Otherwise replace or add the entry in the content, keeping everything else
+	catalogStr := string(catalogObj.Content)
+	if loc := outlinesEntry.FindStringIndex(catalogStr); loc != nil {
+		catalogStr = catalogStr[:loc[0]] + "/Outlines " + w.outlinesRef + catalogStr[loc[1]:]
+	} else if lastIdx := strings.LastIndex(catalogStr, ">>"); lastIdx > 0 {
+		catalogStr = catalogStr[:lastIdx] + fmt.Sprintf("/Outlines %s ", w.outlinesRef) + catalogStr[lastIdx:]
+	} else {
+		return
+	}
+	w.objects[rootObjNum] = &PDFObject{
+		Number:     catalogObj.Number,
+		Generation: catalogObj.Generation,
+		Content:    []byte(catalogStr),
+	}
 }
 
-// extractDictValueFromString extracts a dictionary value from a string representation
-func extractDictValueFromString(dictStr, key string) string {
-	// Simple regex-like extraction
-	keyPattern := key + " "
-	idx := strings.Index(dictStr, keyPattern)
-	if idx == -1 {
-		return ""
-	}
-	start := idx + len(keyPattern)
-	// Find the value (could be a reference, array, etc.)
-	// For simplicity, extract until space or >
-	end := start
-	for end < len(dictStr) && dictStr[end] != ' ' && dictStr[end] != '>' && dictStr[end] != '\n' {
-		end++
-	}
-	return dictStr[start:end]
-}
+// outlinesEntry matches the /Outlines entry of a catalog
+var outlinesEntry = regexp.MustCompile(`/Outlines\s+\d+\s+\d+\s+R`)
 
 // SetEncryptRef sets the encrypt dictionary object reference
 func (w *PDFWriter) SetEncryptRef(objNum int) {
-- 
2.43.0


From bbd13e2fb2a87b5066b71bbb7e4983f9bf54de32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:36 +0000
Subject: [PATCH 09/99] fix: write bookmark titles, destinations and metadata
 as what they are

---
 core/write/bookmarks.go | 10 +++++++---
 core/write/metadata.go  | 14 +++++++-------
 core/write/writer.go    |  5 +++++
 3 files changed, 19 insertions(+), 10 deletions(-)

diff --git a/core/write/bookmarks.go b/core/write/bookmarks.go
index 12b3067..f6a076f 100644
--- a/core/write/bookmarks.go
+++ b/core/write/bookmarks.go
@@ -61,6 +61,10 @@ func (w *PDFWriter) createOutlineItems(bookmarks []types.Bookmark, pageObjNums m
 		} else if bookmark.Destination != "" {
 			// Use provided destination string (should be in format like "[pageObjNum /XYZ ...]")
 			dest = bookmark.Destination
+			if !strings.ContainsAny(dest[:1], "[(</") {
+				// the name of a destination
+				dest = fmt.Sprintf("(%s)", escapePDFString(dest))
+			}
 		}
 
 		// Create action for URI if provided
@@ -69,7 +73,7 @@ func (w *PDFWriter) createOutlineItems(bookmarks []types.Bookmark, pageObjNums m
 			actionDict := Dictionary{
 				"/Type": "/Action",
 				"/S":    "/URI",
-				"/URI":  fmt.Sprintf("(%s)", escapePDFString(bookmark.URI)),
+				"/URI":  rawValue(fmt.Sprintf("(%s)", escapePDFString(bookmark.URI))),
 			}
 			actionObjNum := w.AddObject(w.formatDictionary(actionDict))
 			actionRef = fmt.Sprintf("%d 0 R", actionObjNum)
@@ -93,11 +97,11 @@ func (w *PDFWriter) createOutlineItems(bookmarks []types.Bookmark, pageObjNums m
 
 		// Build outline item dictionary
 		itemDict := Dictionary{
-			"/Title": fmt.Sprintf("(%s)", escapePDFString(bookmark.Title)),
+			"/Title": rawValue(fmt.Sprintf("(%s)", escapePDFString(bookmark.Title))),
 		}
 
 		if dest != "" {
-			itemDict["/Dest"] = dest
+			itemDict["/Dest"] = rawValue(dest)
 		}
 		if actionRef != "" {
 			itemDict["/A"] = actionRef
diff --git a/core/write/metadata.go b/core/write/metadata.go
index 5d40597..d9716b3 100644
--- a/core/write/metadata.go
+++ b/core/write/metadata.go
@@ -19,22 +19,22 @@ func (w *PDFWriter) SetMetadata(metadata *types.DocumentMetadata) int {
 	dict := Dictionary{}
 
 	if metadata.Title != "" {
-		dict["/Title"] = escapePDFStringForMetadata(metadata.Title)
+		dict["/Title"] = rawValue("(" + escapePDFStringForMetadata(metadata.Title) + ")")
 	}
 	if metadata.Author != "" {
-		dict["/Author"] = escapePDFStringForMetadata(metadata.Author)
+		dict["/Author"] = rawValue("(" + escapePDFStringForMetadata(metadata.Author) + ")")
 	}
 	if metadata.Subject != "" {
-		dict["/Subject"] = escapePDFStringForMetadata(metadata.Subject)
+		dict["/Subject"] = rawValue("(" + escapePDFStringForMetadata(metadata.Subject) + ")")
 	}
 	if metadata.Keywords != "" {
-		dict["/Keywords"] = escapePDFStringForMetadata(metadata.Keywords)
+		dict["/Keywords"] = rawValue("(" + escapePDFStringForMetadata(metadata.Keywords) + ")")
 	}
 	if metadata.Creator != "" {
-		dict["/Creator"] = escapePDFStringForMetadata(metadata.Creator)
+		dict["/Creator"] = rawValue("(" + escapePDFStringForMetadata(metadata.Creator) + ")")
 	}
 	if metadata.Producer != "" {
-		dict["/Producer"] = escapePDFStringForMetadata(metadata.Producer)
+		dict["/Producer"] = rawValue("(" + escapePDFStringForMetadata(metadata.Producer) + ")")
 	}
 	if metadata.CreationDate != "" {
 		dict["/CreationDate"] = formatPDFDate(metadata.CreationDate)
@@ -55,7 +55,7 @@ func (w *PDFWriter) SetMetadata(metadata *types.DocumentMetadata) int {
 			if !strings.HasPrefix(key, "/") {
 				key = "/" + key
 			}
-			dict[key] = escapePDFStringForMetadata(value)
+			dict[key] = rawValue("(" + escapePDFStringForMetadata(value) + ")")
 		}
 	}
 
diff --git a/core/write/writer.go b/core/write/writer.go
index e5aae6d..d2cbd64 100644
--- a/core/write/writer.go
+++ b/core/write/writer.go
@@ -29,6 +29,9 @@ type PDFObject struct {
 	IsFree     bool
 }
 
+// rawValue is a dictionary value that is PDF syntax already
+type rawValue string
+
 // Dictionary represents a PDF dictionary
 type Dictionary map[string]interface{}
 
@@ -457,6 +460,8 @@ func (w *PDFWriter) formatValue(value interface{}) string {
 		// Otherwise, it's a string - format as PDF string
 		// Note: escapePDFString in metadata.go returns escaped content without parentheses
 		return "(" + v + ")"
+	case rawValue:
+		return string(v)
 	case []byte:
 		return "<" + fmt.Sprintf("%X", v) + ">"
 	case []interface{}:
-- 
2.43.0


From 37a7039d8a286ba6b7c41afb2e1cf748021c94dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:08 +0000
Subject: [PATCH 10/99] fix: keep the sign of time zones less than an hour west

---
 core/write/metadata.go | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/core/write/metadata.go b/core/write/metadata.go
index d9716b3..a3a8d3d 100644
--- a/core/write/metadata.go
+++ b/core/write/metadata.go
@@ -162,16 +162,14 @@ func formatPDFDate(dateStr string) string {
 
 	// Get timezone offset
 	_, offset := t.Zone()
-	offsetHours := offset / 3600
-	offsetMins := (offset % 3600) / 60
+	sign := '+'
+	if offset < 0 {
+		sign = '-'
+		offset = -offset
+	}
 
 	// Format timezone
-	var tzStr string
-	if offsetHours >= 0 {
-		tzStr = fmt.Sprintf("+%02d'%02d", offsetHours, offsetMins)
-	} else {
-		tzStr = fmt.Sprintf("-%02d'%02d", -offsetHours, -offsetMins)
-	}
+	tzStr := fmt.Sprintf("%c%02d'%02d", sign, offset/3600, (offset%3600)/60)
 
 	pdfDate := fmt.Sprintf("D:%04d%02d%02d%02d%02d%02d%s",
 		year, month, day, hour, min, sec, tzStr)
-- 
2.43.0


From accdba8b243392f1ef6f3315da4fe03f71396011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:08 +0000
Subject: [PATCH 11/99] fix: adding a standard font twice uses the same
 resource

---
 core/write/page.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/core/write/page.go b/core/write/page.go
index b1e192d..533f976 100644
--- a/core/write/page.go
+++ b/core/write/page.go
@@ -32,6 +32,8 @@ type PageBuilder struct {
 	content     *ContentStream
 	pageObjNum  int
 	pagesObjNum int
+
+	standardFonts map[string]string // standard font name -> resource name
 }
 
 // NewPageBuilder creates a new page builder
@@ -54,17 +56,23 @@ func (pb *PageBuilder) Content() *ContentStream {
 // Returns the resource name to use (e.g., "/F1")
 func (pb *PageBuilder) AddStandardFont(fontName string) string {
 	// Check if already added
-	for name, _ := range pb.fonts {
-		if name == fontName {
-			return "/" + name
-		}
+	if name, ok := pb.standardFonts[fontName]; ok {
+		return "/" + name
 	}
 
 	// Create font dictionary
 	resourceName := fmt.Sprintf("F%d", len(pb.fonts)+1)
+	for i := len(pb.fonts) + 2; pb.fonts[resourceName] != 0; i++ {
+		// an embedded font may have the name already
+		resourceName = fmt.Sprintf("F%d", i)
+	}
 	fontDict := fmt.Sprintf("<</Type/Font/Subtype/Type1/BaseFont/%s>>", fontName)
 	objNum := pb.writer.AddObject([]byte(fontDict))
 	pb.fonts[resourceName] = objNum
+	if pb.standardFonts == nil {
+		pb.standardFonts = make(map[string]string)
+	}
+	pb.standardFonts[fontName] = resourceName
 
 	return "/" + resourceName
 }
-- 
2.43.0


From eb18c256a7fe3cfa07ec2d75a5b98df3edab4ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:12 +0000
Subject: [PATCH 12/99] fix: page resources are written in a fixed order

---
 core/write/page.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/core/write/page.go b/core/write/page.go
index 533f976..7040c3f 100644
--- a/core/write/page.go
+++ b/core/write/page.go
@@ -3,6 +3,7 @@ package write
 
 import (
 	"fmt"
+	"sort"
 
 	"github.com/benedoc-inc/pdfer/resources/font"
 	"github.com/benedoc-inc/pdfer/types"
@@ -145,8 +146,8 @@ func (pb *PageBuilder) Build(pagesObjNum int) int {
 	// Add fonts
 	if len(pb.fonts) > 0 {
 		resources += "/Font<<"
-		for name, objNum := range pb.fonts {
-			resources += fmt.Sprintf("/%s %d 0 R", name, objNum)
+		for _, name := range sortedNames(pb.fonts) {
+			resources += fmt.Sprintf("/%s %d 0 R", name, pb.fonts[name])
 		}
 		resources += ">>"
 	}
@@ -154,8 +155,8 @@ func (pb *PageBuilder) Build(pagesObjNum int) int {
 	// Add images as XObjects
 	if len(pb.images) > 0 {
 		resources += "/XObject<<"
-		for name, objNum := range pb.images {
-			resources += fmt.Sprintf("/%s %d 0 R", name, objNum)
+		for _, name := range sortedNames(pb.images) {
+			resources += fmt.Sprintf("/%s %d 0 R", name, pb.images[name])
 		}
 		resources += ">>"
 	}
@@ -170,6 +171,17 @@ func (pb *PageBuilder) Build(pagesObjNum int) int {
 	return pb.pageObjNum
 }
 
+// sortedNames returns the resource names in a fixed order, so that the same page always
+// gives the same bytes
+func sortedNames(resources map[string]int) []string {
+	names := make([]string, 0, len(resources))
+	for name := range resources {
+		names = append(names, name)
+	}
+	sort.Strings(names)
+	return names
+}
+
 // SimplePDFBuilder provides a high-level API for creating simple PDFs
 type SimplePDFBuilder struct {
 	writer        *PDFWriter
-- 
2.43.0


From f0c5b4d03e39c06a816d3de1407e3f3bbe47cc59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:15 +0000
Subject: [PATCH 13/99] fix: building a document twice gives the same document

---
 core/write/page.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/core/write/page.go b/core/write/page.go
index 7040c3f..0be9672 100644
--- a/core/write/page.go
+++ b/core/write/page.go
@@ -229,13 +229,21 @@ func (b *SimplePDFBuilder) Bytes() ([]byte, error) {
 	}
 	kids += "]"
 
+	if b.pagesObjNum == 0 {
+		// No page was added
+		b.pagesObjNum = b.writer.nextObjNum
+		b.writer.nextObjNum++
+	}
+
 	// Create/update Pages object
 	pagesDict := fmt.Sprintf("<</Type/Pages/Kids%s/Count %d>>", kids, len(b.pages))
 	b.writer.SetObject(b.pagesObjNum, []byte(pagesDict))
 
-	// Create Catalog
-	b.catalogObjNum = b.writer.AddObject([]byte(fmt.Sprintf("<</Type/Catalog/Pages %d 0 R>>", b.pagesObjNum)))
-	b.writer.SetRoot(b.catalogObjNum)
+	// Create Catalog, once
+	if b.catalogObjNum == 0 {
+		b.catalogObjNum = b.writer.AddObject([]byte(fmt.Sprintf("<</Type/Catalog/Pages %d 0 R>>", b.pagesObjNum)))
+		b.writer.SetRoot(b.catalogObjNum)
+	}
 
 	return b.writer.Bytes()
 }
-- 
2.43.0


From 37c3f350cb7a95f45379bcd6835e187a55c6a06a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:19 +0000
Subject: [PATCH 14/99] fix: write nested maps in dictionaries as dictionaries

---
 core/write/writer.go  | 2 ++
 resources/font/pdf.go | 4 ++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/core/write/writer.go b/core/write/writer.go
index d2cbd64..281853b 100644
--- a/core/write/writer.go
+++ b/core/write/writer.go
@@ -472,6 +472,8 @@ func (w *PDFWriter) formatValue(value interface{}) string {
 		return "[" + strings.Join(items, " ") + "]"
 	case Dictionary:
 		return string(w.formatDictionary(v))
+	case map[string]interface{}:
+		return string(w.formatDictionary(v))
 	default:
 		return fmt.Sprintf("%v", v)
 	}
diff --git a/resources/font/pdf.go b/resources/font/pdf.go
index 038a41d..d42f528 100644
--- a/resources/font/pdf.go
+++ b/resources/font/pdf.go
@@ -69,8 +69,8 @@ func (f *Font) ToPDFObjects(writer PDFWriter) (*FontObjects, error) {
 		"/Type":     "/CMap",
 		"/CMapName": "/Adobe-Identity-UCS",
 		"/CIDSystemInfo": map[string]interface{}{
-			"/Registry":   "(Adobe)",
-			"/Ordering":   "(UCS)",
+			"/Registry":   "Adobe",
+			"/Ordering":   "UCS",
 			"/Supplement": 0,
 		},
 	}
-- 
2.43.0


From 6fd92ecd14e546d175f4077d9a07f759eae9c95a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:34 +0000
Subject: [PATCH 15/99] fix: a JPEG cut inside its frame header is an error,
 not a panic

---
 core/write/image.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/write/image.go b/core/write/image.go
index c4f5b58..10eefa4 100644
--- a/core/write/image.go
+++ b/core/write/image.go
@@ -188,7 +188,7 @@ func parseJPEGHeader(data []byte) (width, height int, colorSpace string, err err
 		// SOF0-SOF15 (except SOF4, SOF8, SOF12 which are not frame markers)
 		// We're interested in SOF0 (baseline), SOF1, SOF2 (progressive)
 		if marker >= 0xC0 && marker <= 0xC3 {
-			if pos+7 > len(data) {
+			if pos+8 > len(data) {
 				return 0, 0, "", fmt.Errorf("truncated SOF segment")
 			}
 
-- 
2.43.0


From b14f19f85b7391146d6573653e1161c97ac12161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:20 +0000
Subject: [PATCH 16/99] fix: find the end of an object by its tokens, not by
 the first "endobj" or "stream" in its bytes

---
 core/parse/document_parser.go |  75 +++---------
 core/parse/get_object.go      |  79 ++++---------
 core/parse/scan.go            | 215 ++++++++++++++++++++++++++++++++++
 3 files changed, 250 insertions(+), 119 deletions(-)
 create mode 100644 core/parse/scan.go

diff --git a/core/parse/document_parser.go b/core/parse/document_parser.go
index 86c6a30..69e5999 100644
--- a/core/parse/document_parser.go
+++ b/core/parse/document_parser.go
@@ -432,80 +432,33 @@ func ParseRawObject(pdfBytes []byte, objNum int, objGen int, offset int64) (*PDF
 	section := pdfBytes[offset:]
 
 	// Verify object header
-	expectedHeader := fmt.Sprintf("%d %d obj", objNum, objGen)
-	if !bytes.HasPrefix(section, []byte(expectedHeader)) {
-		// Try to find it nearby
-		headerPattern := regexp.MustCompile(fmt.Sprintf(`%d\s+%d\s+obj`, objNum, objGen))
-		if !headerPattern.Match(section[:min(50, len(section))]) {
-			return nil, fmt.Errorf("object header not found at offset %d", offset)
-		}
+	headerPattern := regexp.MustCompile(fmt.Sprintf(`\b%d\s+%d\s+obj`, objNum, objGen))
+	header := headerPattern.FindIndex(section[:min(50, len(section))])
+	if header == nil {
+		return nil, fmt.Errorf("object header not found at offset %d", offset)
 	}
 
 	// Find endobj
-	endobjIdx := bytes.Index(section, []byte("endobj"))
-	if endobjIdx == -1 {
+	ext, ok := scanObject(section, header[1])
+	if !ok {
 		return nil, fmt.Errorf("endobj not found for object %d", objNum)
 	}
 
 	// Include "endobj" in raw bytes
-	endOffset := endobjIdx + 6 // len("endobj")
+	endOffset := ext.endobj + 6 // len("endobj")
 
 	obj.RawBytes = section[:endOffset]
 	obj.EndOffset = offset + int64(endOffset)
 
 	// Check if this is a stream object
-	streamIdx := bytes.Index(obj.RawBytes, []byte("stream"))
-	if streamIdx != -1 {
+	if ext.isStream {
 		obj.IsStream = true
-
-		// Find dictionary (before "stream")
-		dictStart := bytes.Index(obj.RawBytes, []byte("<<"))
-		if dictStart != -1 {
-			// Find matching >>
-			depth := 1
-			dictEnd := dictStart + 2
-			for dictEnd < streamIdx && depth > 0 {
-				if dictEnd+1 < len(obj.RawBytes) && obj.RawBytes[dictEnd] == '<' && obj.RawBytes[dictEnd+1] == '<' {
-					depth++
-					dictEnd++
-				} else if dictEnd+1 < len(obj.RawBytes) && obj.RawBytes[dictEnd] == '>' && obj.RawBytes[dictEnd+1] == '>' {
-					depth--
-					dictEnd++
-				}
-				dictEnd++
-			}
-
-			obj.DictStart = dictStart
-			obj.DictEnd = dictEnd
-			obj.DictRaw = obj.RawBytes[dictStart:dictEnd]
-		}
-
-		// Find stream data boundaries
-		// Stream keyword followed by single EOL
-		streamDataStart := streamIdx + 6 // len("stream")
-		if streamDataStart < len(obj.RawBytes) && obj.RawBytes[streamDataStart] == '\r' {
-			streamDataStart++
-		}
-		if streamDataStart < len(obj.RawBytes) && obj.RawBytes[streamDataStart] == '\n' {
-			streamDataStart++
-		}
-
-		// Find endstream
-		endstreamIdx := bytes.Index(obj.RawBytes[streamDataStart:], []byte("endstream"))
-		if endstreamIdx != -1 {
-			streamDataEnd := streamDataStart + endstreamIdx
-			// Trim trailing EOL before endstream
-			if streamDataEnd > streamDataStart && obj.RawBytes[streamDataEnd-1] == '\n' {
-				streamDataEnd--
-			}
-			if streamDataEnd > streamDataStart && obj.RawBytes[streamDataEnd-1] == '\r' {
-				streamDataEnd--
-			}
-
-			obj.StreamStart = streamDataStart
-			obj.StreamEnd = streamDataEnd
-			obj.StreamRaw = obj.RawBytes[streamDataStart:streamDataEnd]
-		}
+		obj.DictStart = ext.valueStart
+		obj.DictEnd = ext.valueEnd
+		obj.DictRaw = obj.RawBytes[ext.valueStart:ext.valueEnd]
+		obj.StreamStart = ext.streamStart
+		obj.StreamEnd = ext.streamEnd
+		obj.StreamRaw = obj.RawBytes[ext.streamStart:ext.streamEnd]
 	}
 
 	return obj, nil
diff --git a/core/parse/get_object.go b/core/parse/get_object.go
index cd95cd7..ce430b0 100644
--- a/core/parse/get_object.go
+++ b/core/parse/get_object.go
@@ -147,7 +147,7 @@ func GetDirectObject(pdfBytes []byte, objNum int, offset int64, encryptInfo *typ
 	if headerMatch == nil {
 		// Header not exactly at offset - try to find it nearby
 		searchArea := pdfBytes[max(0, int(offset)-100):min(len(pdfBytes), int(offset)+100)]
-		pattern := regexp.MustCompile(fmt.Sprintf(`%d\s+(\d+)\s+obj`, objNum))
+		pattern := regexp.MustCompile(fmt.Sprintf(`\b%d\s+(\d+)\s+obj`, objNum))
 		match := pattern.FindIndex(searchArea)
 		if match == nil {
 			if verbose {
@@ -169,74 +169,32 @@ func GetDirectObject(pdfBytes []byte, objNum int, offset int64, encryptInfo *typ
 		genNum, _ = strconv.Atoi(string(headerMatch[1]))
 	}
 
-	// Find endobj
-	endobjPos := bytes.Index(objData, []byte("endobj"))
-	if endobjPos == -1 {
-		return nil, fmt.Errorf("endobj not found for object %d", objNum)
-	}
-
 	// Extract content between header and endobj
 	// Skip past "N G obj" to get to the content
-	contentStart := bytes.Index(objData[:endobjPos], []byte("obj"))
-	if contentStart == -1 {
-		contentStart = 0
-	} else {
-		contentStart += 3 // Skip "obj"
-		// Skip whitespace
-		for contentStart < endobjPos && (objData[contentStart] == ' ' || objData[contentStart] == '\n' || objData[contentStart] == '\r' || objData[contentStart] == '\t') {
-			contentStart++
-		}
+	contentStart := 0
+	if headerMatch != nil {
+		contentStart = len(headerMatch[0])
+	}
+	ext, ok := scanObject(objData, contentStart)
+	if !ok {
+		return nil, fmt.Errorf("endobj not found for object %d", objNum)
 	}
 
-	content := objData[contentStart:endobjPos]
+	content := objData[ext.valueStart:ext.endobj]
 
 	// Check if this is a stream object
-	streamStart := bytes.Index(content, []byte("stream"))
-	if streamStart != -1 {
+	if ext.isStream {
 		// This is a stream object
-		// Find "endstream" to get the full stream
-		endstreamPos := bytes.Index(content, []byte("endstream"))
-		if endstreamPos == -1 {
-			endstreamPos = len(content)
-		}
-		content = content[:endstreamPos+len("endstream")]
+		content = objData[ext.valueStart : ext.streamClose+len("endstream")]
+		streamStart := ext.keyword - ext.valueStart
 
 		// Decrypt stream data if needed
 		if encryptInfo != nil {
-			// Get /Length from dictionary for exact stream data size
 			dictPart := content[:streamStart]
-			lengthPattern := regexp.MustCompile(`/Length\s+(\d+)`)
-			lengthMatch := lengthPattern.FindSubmatch(dictPart)
-
-			var streamLength int
-			if lengthMatch != nil {
-				streamLength, _ = strconv.Atoi(string(lengthMatch[1]))
-			}
-
-			// Find actual stream data (after "stream\r\n" or "stream\n")
-			streamDataStart := streamStart + 6
-			// Skip exactly one EOL per PDF spec
-			if streamDataStart < len(content) && content[streamDataStart] == '\r' {
-				streamDataStart++
-			}
-			if streamDataStart < len(content) && content[streamDataStart] == '\n' {
-				streamDataStart++
-			}
-
-			// Use /Length if available, otherwise find endstream
-			var streamData []byte
-			if streamLength > 0 && streamDataStart+streamLength <= len(content) {
-				streamData = content[streamDataStart : streamDataStart+streamLength]
-			} else {
-				streamDataEnd := bytes.Index(content[streamDataStart:], []byte("endstream"))
-				if streamDataEnd == -1 {
-					streamDataEnd = len(content) - streamDataStart
-				}
-				streamData = content[streamDataStart : streamDataStart+streamDataEnd]
-			}
+			streamData := objData[ext.streamStart:ext.streamEnd]
 
 			if verbose {
-				log.Printf("Decrypting stream: %d bytes (from /Length %d), objNum=%d, genNum=%d", len(streamData), streamLength, objNum, genNum)
+				log.Printf("Decrypting stream: %d bytes, objNum=%d, genNum=%d", len(streamData), objNum, genNum)
 			}
 			decryptedStream, err := encrypt.DecryptObject(streamData, objNum, genNum, encryptInfo)
 			if err == nil {
@@ -244,8 +202,13 @@ func GetDirectObject(pdfBytes []byte, objNum int, offset int64, encryptInfo *typ
 					log.Printf("Decryption successful: %d -> %d bytes", len(streamData), len(decryptedStream))
 				}
 				// Update /Length in the dictionary to reflect decrypted size
-				newLength := fmt.Sprintf("/Length %d", len(decryptedStream))
-				dictPart = lengthPattern.ReplaceAll(dictPart, []byte(newLength))
+				if ext.lengthEnd > 0 {
+					var newDict []byte
+					newDict = append(newDict, objData[ext.valueStart:ext.lengthStart]...)
+					newDict = append(newDict, fmt.Sprintf("%d", len(decryptedStream))...)
+					newDict = append(newDict, objData[ext.lengthEnd:ext.keyword]...)
+					dictPart = newDict
+				}
 
 				// Reconstruct content with updated dictionary and decrypted stream
 				newContent := make([]byte, 0, len(dictPart)+len(decryptedStream)+20)
diff --git a/core/parse/scan.go b/core/parse/scan.go
new file mode 100644
index 0000000..a1eb765
--- /dev/null
+++ b/core/parse/scan.go
@@ -0,0 +1,215 @@
+package parse
+
+import "bytes"
+
+// isDelimiter reports whether b ends a name, number or keyword.
+func isDelimiter(b byte) bool {
+	switch b {
+	case '(', ')', '<', '>', '[', ']', '{', '}', '/', '%':
+		return true
+	}
+	return false
+}
+
+// skipSpace returns the position of the first byte at or after pos that is
+// neither white space nor part of a comment.
+func skipSpace(data []byte, pos int) int {
+	for pos < len(data) {
+		switch b := data[pos]; {
+		case b == 0 || isWhitespace(b):
+			pos++
+		case b == '%':
+			for pos < len(data) && data[pos] != '\r' && data[pos] != '\n' {
+				pos++
+			}
+		default:
+			return pos
+		}
+	}
+	return pos
+}
+
+// scanToken returns the end of the token that starts at pos. Strings are one
+// token; "<<", ">>", "[" and "]" are tokens of their own. It returns -1 if there
+// is no complete token.
+func scanToken(data []byte, pos int) int {
+	if pos >= len(data) {
+		return -1
+	}
+	switch data[pos] {
+	case '(':
+		depth := 0
+		for i := pos; i < len(data); i++ {
+			switch data[i] {
+			case '\\':
+				i++
+			case '(':
+				depth++
+			case ')':
+				depth--
+				if depth == 0 {
+					return i + 1
+				}
+			}
+		}
+		return -1
+	case '<':
+		if pos+1 < len(data) && data[pos+1] == '<' {
+			return pos + 2
+		}
+		if end := bytes.IndexByte(data[pos:], '>'); end != -1 {
+			return pos + end + 1
+		}
+		return -1
+	case '>':
+		if pos+1 < len(data) && data[pos+1] == '>' {
+			return pos + 2
+		}
+		return pos + 1
+	case '[', ']', '{', '}', ')':
+		return pos + 1
+	case '/':
+		pos++
+	}
+	for pos < len(data) && data[pos] != 0 && !isWhitespace(data[pos]) && !isDelimiter(data[pos]) {
+		pos++
+	}
+	return pos
+}
+
+// objectExtent describes the parts of an indirect object, as positions in the
+// data it was scanned from.
+type objectExtent struct {
+	valueStart  int // first byte after "N G obj" and white space
+	valueEnd    int // end of the value (for streams: of the dictionary)
+	lengthStart int // the value of /Length (lengthEnd is 0 if there is none)
+	lengthEnd   int
+	isStream    bool
+	keyword     int // position of "stream"
+	streamStart int // first byte of the stream data
+	streamEnd   int // end of the stream data
+	streamClose int // position of "endstream"
+	endobj      int // position of "endobj"
+}
+
+// scanObject finds the extent of the object whose "N G obj" header ends at pos.
+// It reads tokens, so keywords inside strings, comments or stream data do not
+// end the object. ok is false if the object is not well formed.
+func scanObject(data []byte, pos int) (ext objectExtent, ok bool) {
+	pos = skipSpace(data, pos)
+	ext.valueStart = pos
+	ext.valueEnd = pos
+
+	length := -1
+	depth := 0
+	var previous []byte // the token before the current one
+	for {
+		pos = skipSpace(data, pos)
+		end := scanToken(data, pos)
+		if end <= pos {
+			return ext, false
+		}
+		token := data[pos:end]
+		switch string(token) {
+		case "<<", "[":
+			depth++
+		case ">>", "]":
+			depth--
+			if depth < 0 {
+				return ext, false
+			}
+		case "endobj":
+			if depth != 0 {
+				return ext, false
+			}
+			ext.endobj = pos
+			return ext, true
+		case "stream":
+			if depth != 0 {
+				return ext, false
+			}
+			ext.keyword = pos
+			ext.isStream = true
+			return scanStream(data, ext, length)
+		}
+		// a direct /Length of the stream dictionary itself
+		if depth == 1 && string(previous) == "/Length" {
+			ext.lengthStart = pos
+			length, ext.lengthEnd = scanLength(data, pos, end)
+		}
+		previous = token
+		ext.valueEnd = end
+		pos = end
+	}
+}
+
+// scanLength reads the value of /Length whose first token is data[pos:end]. It
+// returns the number and the end of the value; the number is -1 if it is not
+// given directly.
+func scanLength(data []byte, pos, end int) (int, int) {
+	n := 0
+	for _, b := range data[pos:end] {
+		if b < '0' || b > '9' || n > len(data) {
+			return -1, end
+		}
+		n = n*10 + int(b-'0')
+	}
+	gen := skipSpace(data, end)
+	if genEnd := scanToken(data, gen); genEnd > gen && data[gen] >= '0' && data[gen] <= '9' {
+		ref := skipSpace(data, genEnd)
+		if ref < len(data) && data[ref] == 'R' {
+			return -1, ref + 1
+		}
+	}
+	return n, end
+}
+
+// scanStream finds the data of a stream whose "stream" keyword is at ext.keyword.
+func scanStream(data []byte, ext objectExtent, length int) (objectExtent, bool) {
+	start := ext.keyword + len("stream")
+	// exactly one end-of-line marker follows the keyword
+	if start < len(data) && data[start] == '\r' {
+		start++
+	}
+	if start < len(data) && data[start] == '\n' {
+		start++
+	}
+	ext.streamStart = start
+
+	endstream := []byte("endstream")
+	if length >= 0 && length <= len(data)-start {
+		end := start + length
+		if at := skipSpace(data, end); at <= end+2 && bytes.HasPrefix(data[at:], endstream) {
+			ext.streamEnd = end
+			ext.streamClose = at
+			return closeStream(data, ext)
+		}
+	}
+
+	// no usable length: take the first "endstream" that "endobj" follows
+	for at := start; ; {
+		i := bytes.Index(data[at:], endstream)
+		if i == -1 {
+			return ext, false
+		}
+		at += i
+		ext.streamClose = at
+		if closed, ok := closeStream(data, ext); ok {
+			end := at
+			if end > start && data[end-1] == '\n' {
+				end--
+			}
+			if end > start && data[end-1] == '\r' {
+				end--
+			}
+			closed.streamEnd = end
+			return closed, true
+		}
+		at += len(endstream)
+	}
+}
+
+func closeStream(data []byte, ext objectExtent) (objectExtent, bool) {
+	ext.endobj = skipSpace(data, ext.streamClose+len("endstream"))
+	return ext, bytes.HasPrefix(data[ext.endobj:], []byte("endobj"))
+}
-- 
2.43.0


From 983271c5f914faf057c998b8951f73c460372043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:39 +0000
Subject: [PATCH 17/99] fix: a wrong object header or an undecryptable stream
 is an error, and cross-reference streams are not decrypted

---
 core/parse/get_object.go | 51 ++++++++++++++++++++--------------------
 1 file changed, 26 insertions(+), 25 deletions(-)

diff --git a/core/parse/get_object.go b/core/parse/get_object.go
index ce430b0..c0ad9fc 100644
--- a/core/parse/get_object.go
+++ b/core/parse/get_object.go
@@ -150,32 +150,22 @@ func GetDirectObject(pdfBytes []byte, objNum int, offset int64, encryptInfo *typ
 		pattern := regexp.MustCompile(fmt.Sprintf(`\b%d\s+(\d+)\s+obj`, objNum))
 		match := pattern.FindIndex(searchArea)
 		if match == nil {
-			if verbose {
-				log.Printf("Object %d header not found near offset %d", objNum, offset)
-			}
-			// Continue anyway with content at offset
-			genNum = 0
-		} else {
-			// Adjust offset
-			newOffset := max(0, int(offset)-100) + match[0]
-			offset = int64(newOffset)
-			objData = pdfBytes[offset:]
-			headerMatch = headerPattern.FindSubmatch(objData[:min(50, len(objData))])
-			if headerMatch != nil {
-				genNum, _ = strconv.Atoi(string(headerMatch[1]))
-			}
+			return nil, fmt.Errorf("object %d header not found near offset %d", objNum, offset)
+		}
+		// Adjust offset
+		newOffset := max(0, int(offset)-100) + match[0]
+		offset = int64(newOffset)
+		objData = pdfBytes[offset:]
+		headerMatch = headerPattern.FindSubmatch(objData[:min(50, len(objData))])
+		if headerMatch == nil {
+			return nil, fmt.Errorf("object %d header not found near offset %d", objNum, offset)
 		}
-	} else {
-		genNum, _ = strconv.Atoi(string(headerMatch[1]))
 	}
+	genNum, _ = strconv.Atoi(string(headerMatch[1]))
 
 	// Extract content between header and endobj
 	// Skip past "N G obj" to get to the content
-	contentStart := 0
-	if headerMatch != nil {
-		contentStart = len(headerMatch[0])
-	}
-	ext, ok := scanObject(objData, contentStart)
+	ext, ok := scanObject(objData, len(headerMatch[0]))
 	if !ok {
 		return nil, fmt.Errorf("endobj not found for object %d", objNum)
 	}
@@ -191,6 +181,10 @@ func GetDirectObject(pdfBytes []byte, objNum int, offset int64, encryptInfo *typ
 		// Decrypt stream data if needed
 		if encryptInfo != nil {
 			dictPart := content[:streamStart]
+			if xrefTypePattern.Match(dictPart) {
+				// Cross-reference streams are never encrypted
+				return wrapObject(objNum, genNum, content), nil
+			}
 			streamData := objData[ext.streamStart:ext.streamEnd]
 
 			if verbose {
@@ -221,8 +215,8 @@ func GetDirectObject(pdfBytes []byte, objNum int, offset int64, encryptInfo *typ
 				if verbose {
 					log.Printf("Reconstructed content: %d bytes, new dict: %s", len(content), string(dictPart[:min(100, len(dictPart))]))
 				}
-			} else if verbose {
-				log.Printf("Decryption failed: %v", err)
+			} else {
+				return nil, fmt.Errorf("failed to decrypt stream of object %d: %v", objNum, err)
 			}
 		}
 	} else if encryptInfo != nil {
@@ -235,7 +229,14 @@ func GetDirectObject(pdfBytes []byte, objNum int, offset int64, encryptInfo *typ
 		}
 	}
 
-	// Reconstruct full object
+	return wrapObject(objNum, genNum, content), nil
+}
+
+// xrefTypePattern matches the type of a cross-reference stream
+var xrefTypePattern = regexp.MustCompile(`/Type\s*/XRef\b`)
+
+// wrapObject reconstructs the full object from its content
+func wrapObject(objNum, genNum int, content []byte) []byte {
 	result := fmt.Sprintf("%d %d obj\n", objNum, genNum)
 	result += string(content)
 	if !bytes.HasSuffix(content, []byte("\n")) {
@@ -243,5 +244,5 @@ func GetDirectObject(pdfBytes []byte, objNum int, offset int64, encryptInfo *typ
 	}
 	result += "endobj"
 
-	return []byte(result), nil
+	return []byte(result)
 }
-- 
2.43.0


From ff7d0beb6d1eeb176e61aba512bad1aa58a6ed9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:32 +0000
Subject: [PATCH 18/99] fix: encrypt and decrypt strings one by one, instead of
 writing them in the clear and garbling them on reading

---
 core/encrypt/parser.go   |   2 +-
 core/encrypt/strings.go  | 174 +++++++++++++++++++++++++++++++++++++++
 core/parse/get_object.go |  20 +++--
 core/parse/scan.go       |  32 ++++++-
 core/write/writer.go     |  48 ++++++++++-
 types/types.go           |   1 +
 6 files changed, 266 insertions(+), 11 deletions(-)
 create mode 100644 core/encrypt/strings.go

diff --git a/core/encrypt/parser.go b/core/encrypt/parser.go
index 648ec59..d903da2 100644
--- a/core/encrypt/parser.go
+++ b/core/encrypt/parser.go
@@ -76,7 +76,7 @@ func ParseEncryptionDictionary(pdfBytes []byte, verbose bool) (*types.PDFEncrypt
 		log.Printf("Encrypt dictionary content (first 200 chars): %s", dictContent[:min(200, len(dictContent))])
 	}
 
-	encrypt := &types.PDFEncryption{}
+	encrypt := &types.PDFEncryption{ObjNum: encryptObjNum}
 
 	// Parse /Filter
 	filterPattern := regexp.MustCompile(`/Filter\s+/(\w+)`)
diff --git a/core/encrypt/strings.go b/core/encrypt/strings.go
new file mode 100644
index 0000000..74168b5
--- /dev/null
+++ b/core/encrypt/strings.go
@@ -0,0 +1,174 @@
+package encrypt
+
+import (
+	"bytes"
+	"fmt"
+
+	"github.com/benedoc-inc/pdfer/types"
+)
+
+// MapStrings returns the object content with every string replaced by what f
+// makes of its bytes. Literal strings stay literal, hexadecimal strings stay
+// hexadecimal, and everything else is copied.
+func MapStrings(content []byte, f func([]byte) ([]byte, error)) ([]byte, error) {
+	var out bytes.Buffer
+	for i := 0; i < len(content); {
+		switch c := content[i]; {
+		case c == '%':
+			for i < len(content) && content[i] != '\r' && content[i] != '\n' {
+				out.WriteByte(content[i])
+				i++
+			}
+		case c == '(':
+			value, end := literalString(content, i)
+			if end == -1 {
+				return nil, fmt.Errorf("string is not closed")
+			}
+			mapped, err := f(value)
+			if err != nil {
+				return nil, err
+			}
+			writeLiteralString(&out, mapped)
+			i = end
+		case c == '<' && i+1 < len(content) && content[i+1] == '<':
+			out.WriteString("<<")
+			i += 2
+		case c == '<':
+			end := bytes.IndexByte(content[i:], '>')
+			if end == -1 {
+				return nil, fmt.Errorf("hexadecimal string is not closed")
+			}
+			mapped, err := f(hexString(content[i+1 : i+end]))
+			if err != nil {
+				return nil, err
+			}
+			fmt.Fprintf(&out, "<%X>", mapped)
+			i += end + 1
+		default:
+			out.WriteByte(c)
+			i++
+		}
+	}
+	return out.Bytes(), nil
+}
+
+// DecryptStrings decrypts the strings of an object that is not a stream.
+// Strings that cannot be decrypted are left as they are.
+func DecryptStrings(content []byte, objNum, genNum int, encrypt *types.PDFEncryption) ([]byte, error) {
+	return MapStrings(content, func(s []byte) ([]byte, error) {
+		decrypted, err := DecryptObject(s, objNum, genNum, encrypt)
+		if err != nil {
+			return s, nil
+		}
+		return decrypted, nil
+	})
+}
+
+// literalString decodes the literal string at pos and returns its end, or -1.
+func literalString(data []byte, pos int) ([]byte, int) {
+	value := []byte{}
+	depth := 0
+	for i := pos; i < len(data); i++ {
+		switch c := data[i]; c {
+		case '(':
+			depth++
+			if depth > 1 {
+				value = append(value, c)
+			}
+		case ')':
+			depth--
+			if depth == 0 {
+				return value, i + 1
+			}
+			value = append(value, c)
+		case '\r':
+			// an end of line in a string is a line feed
+			if i+1 < len(data) && data[i+1] == '\n' {
+				i++
+			}
+			value = append(value, '\n')
+		case '\\':
+			i++
+			if i >= len(data) {
+				return nil, -1
+			}
+			switch e := data[i]; {
+			case e == 'n':
+				value = append(value, '\n')
+			case e == 'r':
+				value = append(value, '\r')
+			case e == 't':
+				value = append(value, '\t')
+			case e == 'b':
+				value = append(value, '\b')
+			case e == 'f':
+				value = append(value, '\f')
+			case e == '\n':
+			case e == '\r':
+				if i+1 < len(data) && data[i+1] == '\n' {
+					i++
+				}
+			case e >= '0' && e <= '7':
+				n := 0
+				for j := 0; j < 3 && i < len(data) && data[i] >= '0' && data[i] <= '7'; j++ {
+					n = n*8 + int(data[i]-'0')
+					i++
+				}
+				i--
+				value = append(value, byte(n))
+			default:
+				value = append(value, e)
+			}
+		default:
+			value = append(value, c)
+		}
+	}
+	return nil, -1
+}
+
+// writeLiteralString writes s as a literal string.
+func writeLiteralString(out *bytes.Buffer, s []byte) {
+	out.WriteByte('(')
+	for _, c := range s {
+		switch c {
+		case '(', ')', '\\':
+			out.WriteByte('\\')
+			out.WriteByte(c)
+		case '\r':
+			out.WriteString("\\r")
+		case '\n':
+			out.WriteString("\\n")
+		default:
+			out.WriteByte(c)
+		}
+	}
+	out.WriteByte(')')
+}
+
+// hexString decodes the digits of a hexadecimal string.
+func hexString(digits []byte) []byte {
+	value := []byte{}
+	n, half := 0, false
+	for _, c := range digits {
+		switch {
+		case c >= '0' && c <= '9':
+			c -= '0'
+		case c >= 'a' && c <= 'f':
+			c -= 'a' - 10
+		case c >= 'A' && c <= 'F':
+			c -= 'A' - 10
+		default:
+			continue
+		}
+		n = n<<4 | int(c)
+		if half {
+			value = append(value, byte(n))
+			n = 0
+		}
+		half = !half
+	}
+	if half {
+		value = append(value, byte(n<<4))
+	}
+	return value
+}
diff --git a/core/parse/get_object.go b/core/parse/get_object.go
index c0ad9fc..c9eb327 100644
--- a/core/parse/get_object.go
+++ b/core/parse/get_object.go
@@ -204,6 +204,11 @@ func GetDirectObject(pdfBytes []byte, objNum int, offset int64, encryptInfo *typ
 					dictPart = newDict
 				}
 
+				dictPart, err = encrypt.DecryptStrings(dictPart, objNum, genNum, encryptInfo)
+				if err != nil {
+					return nil, fmt.Errorf("failed to decrypt strings of object %d: %v", objNum, err)
+				}
+
 				// Reconstruct content with updated dictionary and decrypted stream
 				newContent := make([]byte, 0, len(dictPart)+len(decryptedStream)+20)
 				newContent = append(newContent, dictPart...)
@@ -220,13 +225,16 @@ func GetDirectObject(pdfBytes []byte, objNum int, offset int64, encryptInfo *typ
 			}
 		}
 	} else if encryptInfo != nil {
-		// Not a stream - decrypt string values in dictionary
-		// For now, just decrypt the entire content (simplified approach)
-		// TODO: Parse dictionary properly and decrypt only string values
-		decrypted, err := encrypt.DecryptObject(content, objNum, genNum, encryptInfo)
-		if err == nil {
-			content = decrypted
+		// Not a stream - decrypt string values (the encryption dictionary is
+		// never encrypted itself)
+		if objNum == encryptInfo.ObjNum {
+			return wrapObject(objNum, genNum, content), nil
+		}
+		decrypted, err := encrypt.DecryptStrings(content, objNum, genNum, encryptInfo)
+		if err != nil {
+			return nil, fmt.Errorf("failed to decrypt strings of object %d: %v", objNum, err)
 		}
+		content = decrypted
 	}
 
 	return wrapObject(objNum, genNum, content), nil
diff --git a/core/parse/scan.go b/core/parse/scan.go
index a1eb765..6fd4573 100644
--- a/core/parse/scan.go
+++ b/core/parse/scan.go
@@ -1,6 +1,9 @@
 package parse
 
-import "bytes"
+import (
+	"bytes"
+	"strconv"
+)
 
 // isDelimiter reports whether b ends a name, number or keyword.
 func isDelimiter(b byte) bool {
@@ -213,3 +216,30 @@ func closeStream(data []byte, ext objectExtent) (objectExtent, bool) {
 	ext.endobj = skipSpace(data, ext.streamClose+len("endstream"))
 	return ext, bytes.HasPrefix(data[ext.endobj:], []byte("endobj"))
 }
+
+// SplitStream splits the content of an object (what stands between "N G obj" and
+// "endobj") into its dictionary and its stream data. ok is false if the object is
+// not a stream.
+func SplitStream(content []byte) (dict, data []byte, ok bool) {
+	object := append(append([]byte{}, content...), "\nendobj"...)
+	ext, found := scanObject(object, 0)
+	if !found || !ext.isStream {
+		return nil, nil, false
+	}
+	dict = append(dict, object[ext.valueStart:ext.valueEnd]...)
+	return dict, object[ext.streamStart:ext.streamEnd], true
+}
+
+// SetLength returns the stream dictionary with its /Length set to n.
+func SetLength(dict []byte, n int) []byte {
+	ext, _ := scanObject(dict, 0)
+	value := []byte(strconv.Itoa(n))
+	if ext.lengthEnd > 0 {
+		return append(append(append([]byte{}, dict[:ext.lengthStart]...), value...), dict[ext.lengthEnd:]...)
+	}
+	end := bytes.LastIndex(dict, []byte(">>"))
+	if end == -1 {
+		return dict
+	}
+	return append(append(append(append([]byte{}, dict[:end]...), " /Length "...), value...), dict[end:]...)
+}
diff --git a/core/write/writer.go b/core/write/writer.go
index 281853b..2bfb116 100644
--- a/core/write/writer.go
+++ b/core/write/writer.go
@@ -16,6 +16,8 @@ import (
 	"strconv"
 	"strings"
 
+	"github.com/benedoc-inc/pdfer/core/encrypt"
+	"github.com/benedoc-inc/pdfer/core/parse"
 	"github.com/benedoc-inc/pdfer/types"
 )
 
@@ -308,6 +310,12 @@ func (w *PDFWriter) Write(out io.Writer) error {
 				dict, _ = prepareStream(obj.Dict, encrypted, false)
 			}
 			content := w.formatDictionary(dict)
+			if w.encryptInfo != nil {
+				content, err = w.encryptStrings(content, objNum, obj.Generation)
+				if err != nil {
+					return fmt.Errorf("failed to encrypt object %d: %w", objNum, err)
+				}
+			}
 
 			buf.Write(content)
 			buf.WriteString("\nstream\n")
@@ -316,9 +324,13 @@ func (w *PDFWriter) Write(out io.Writer) error {
 		} else if obj.Content != nil {
 			// Encrypt content if needed (for non-stream objects like strings in dicts)
 			content := obj.Content
-			// Note: For non-stream objects, encryption is more complex
-			// (need to encrypt individual strings, not the whole object)
-			// For simplicity, we skip encryption of non-stream content here
+			// (the encryption dictionary itself stays readable)
+			if w.encryptInfo != nil && fmt.Sprintf("%d 0 R", objNum) != w.encryptRef {
+				content, err = w.encryptContent(content, objNum, obj.Generation)
+				if err != nil {
+					return fmt.Errorf("failed to encrypt object %d: %w", objNum, err)
+				}
+			}
 			buf.Write(content)
 		}
 
@@ -479,6 +491,36 @@ func (w *PDFWriter) formatValue(value interface{}) string {
 	}
 }
 
+// encryptContent encrypts the strings, and the data if it is a stream, of an object
+// given as raw content
+func (w *PDFWriter) encryptContent(content []byte, objNum, genNum int) ([]byte, error) {
+	dict, data, isStream := parse.SplitStream(content)
+	if !isStream {
+		return w.encryptStrings(content, objNum, genNum)
+	}
+	encrypted, err := w.encryptStream(data, objNum, genNum)
+	if err != nil {
+		return nil, err
+	}
+	dict, err = w.encryptStrings(parse.SetLength(dict, len(encrypted)), objNum, genNum)
+	if err != nil {
+		return nil, err
+	}
+	var buf bytes.Buffer
+	buf.Write(dict)
+	buf.WriteString("\nstream\n")
+	buf.Write(encrypted)
+	buf.WriteString("\nendstream")
+	return buf.Bytes(), nil
+}
+
+// encryptStrings encrypts the strings of an object or of a stream dictionary
+func (w *PDFWriter) encryptStrings(content []byte, objNum, genNum int) ([]byte, error) {
+	return encrypt.MapStrings(content, func(s []byte) ([]byte, error) {
+		return w.encryptStream(s, objNum, genNum)
+	})
+}
+
 // encryptStream encrypts stream data using the PDF's encryption settings
 func (w *PDFWriter) encryptStream(data []byte, objNum, genNum int) ([]byte, error) {
 	if w.encryptInfo == nil || len(w.encryptInfo.EncryptKey) == 0 {
diff --git a/types/types.go b/types/types.go
index 433b90f..24ad007 100644
--- a/types/types.go
+++ b/types/types.go
@@ -16,6 +16,7 @@ type PDFEncryption struct {
 	P               int32  // Permissions
 	EncryptMetadata bool
 	EncryptKey      []byte // Master encryption key
+	ObjNum          int    // Object number of the encryption dictionary (0 if unknown)
 }
 
 // FormData represents the data to fill into the form
-- 
2.43.0


From ee38ce8d701a4dc701d7c93b0ccd1850c440d592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:56 +0000
Subject: [PATCH 19/99] fix: a newer revision replaces an object wherever it
 was stored, and deletes the ones it frees

---
 core/parse/incremental.go   | 12 ++++++++++++
 core/parse/object_stream.go |  6 +++++-
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/core/parse/incremental.go b/core/parse/incremental.go
index 22737ba..17c5697 100644
--- a/core/parse/incremental.go
+++ b/core/parse/incremental.go
@@ -14,6 +14,7 @@ type xrefSection struct {
 	StartXRef int64                     // Byte offset where this xref section starts
 	Objects   map[int]int64             // Object number -> byte offset (Type 1 entries)
 	Streams   map[int]ObjectStreamEntry // Object number -> object stream info (Type 2 entries)
+	Free      map[int]bool              // Object numbers this section marks free
 	Prev      int64                     // Offset of previous xref section (from /Prev in trailer)
 	Root      string                    // /Root reference from trailer
 	Info      string                    // /Info reference from trailer
@@ -280,6 +281,7 @@ func (p *incrementalParser) parseTraditionalxrefSection(startXRef int64) (*xrefS
 		StartXRef: startXRef,
 		Objects:   make(map[int]int64),
 		Streams:   make(map[int]ObjectStreamEntry),
+		Free:      make(map[int]bool),
 	}
 
 	xrefData := p.pdfBytes[startXRef:]
@@ -328,6 +330,8 @@ func (p *incrementalParser) parseTraditionalxrefSection(startXRef int64) (*xrefS
 
 			if err1 == nil && err2 == nil && flag == "n" {
 				section.Objects[currentObjNum] = offset
+			} else if err1 == nil && err2 == nil && flag == "f" {
+				section.Free[currentObjNum] = true
 			}
 			currentObjNum++
 		}
@@ -404,6 +408,7 @@ func (p *incrementalParser) parseXRefStreamSection(startXRef int64) (*xrefSectio
 
 	section.Objects = result.Objects
 	section.Streams = result.ObjectStreams
+	section.Free = result.Free
 
 	// Extract trailer info from stream dictionary
 	xrefData := p.pdfBytes[startXRef:]
@@ -437,13 +442,20 @@ func (p *incrementalParser) parseXRefStreamSection(startXRef int64) (*xrefSectio
 func (p *incrementalParser) mergeSections() {
 	// sections are already ordered oldest to newest
 	for _, section := range p.sections {
+		// Objects deleted by this section
+		for objNum := range section.Free {
+			delete(p.mergedObjs, objNum)
+			delete(p.mergedStreams, objNum)
+		}
 		// Regular objects
 		for objNum, offset := range section.Objects {
 			p.mergedObjs[objNum] = offset
+			delete(p.mergedStreams, objNum)
 		}
 		// Object stream entries
 		for objNum, entry := range section.Streams {
 			p.mergedStreams[objNum] = entry
+			delete(p.mergedObjs, objNum)
 		}
 	}
 
diff --git a/core/parse/object_stream.go b/core/parse/object_stream.go
index 2eff238..76f823d 100644
--- a/core/parse/object_stream.go
+++ b/core/parse/object_stream.go
@@ -26,6 +26,8 @@ type XRefResult struct {
 	Objects map[int]int64
 	// Objects in object streams (Type 2): objNum -> ObjectStreamEntry
 	ObjectStreams map[int]ObjectStreamEntry
+	// Free objects (Type 0)
+	Free map[int]bool
 }
 
 // ParseXRefStreamFull parses a PDF cross-reference stream and returns both regular and compressed object info
@@ -33,6 +35,7 @@ func ParseXRefStreamFull(pdfBytes []byte, startXRef int64, verbose bool) (*XRefR
 	result := &XRefResult{
 		Objects:       make(map[int]int64),
 		ObjectStreams: make(map[int]ObjectStreamEntry),
+		Free:          make(map[int]bool),
 	}
 
 	// The xref stream object should be at startXRef
@@ -232,7 +235,8 @@ func ParseXRefStreamFull(pdfBytes []byte, startXRef int64, verbose bool) (*XRefR
 
 			switch typeVal {
 			case 0:
-				// Type 0: free object - skip
+				// Type 0: free object
+				result.Free[objNum] = true
 			case 1:
 				// Type 1: uncompressed, in-use object
 				// field2 = byte offset, field3 = generation
-- 
2.43.0


From 67358b3ebd7b4e7f64ce8daabc494a0d0f2849b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:53 +0000
Subject: [PATCH 20/99] fix: byte-perfect parsing sees objects in object
 streams and deletions

---
 core/parse/api.go             | 29 ++++++++++++++++++++++-------
 core/parse/document_parser.go |  9 +++++++++
 2 files changed, 31 insertions(+), 7 deletions(-)

diff --git a/core/parse/api.go b/core/parse/api.go
index 5e78d64..4f44165 100644
--- a/core/parse/api.go
+++ b/core/parse/api.go
@@ -145,12 +145,22 @@ func (p *PDF) parseBytePerfect() error {
 
 	// Build unified xref from document revisions
 	for _, rev := range doc.Revisions {
-		for objNum, obj := range rev.Objects {
-			p.xref.Objects[objNum] = &ObjectRef{
-				Number:     obj.Number,
-				Generation: obj.Generation,
-				Offset:     obj.Offset,
-				InStream:   false, // Raw objects are always direct in this mode
+		for _, entry := range rev.XRef.Entries {
+			if !entry.InUse {
+				delete(p.xref.Objects, entry.ObjectNum)
+			} else if entry.InObjectStream {
+				p.xref.Objects[entry.ObjectNum] = &ObjectRef{
+					Number:       entry.ObjectNum,
+					InStream:     true,
+					StreamObjNum: entry.StreamObjNum,
+					StreamIndex:  entry.IndexInStream,
+				}
+			} else {
+				p.xref.Objects[entry.ObjectNum] = &ObjectRef{
+					Number:     entry.ObjectNum,
+					Generation: entry.Generation,
+					Offset:     entry.Offset,
+				}
 			}
 		}
 		if rev.Trailer != nil && rev.Trailer.Size > p.xref.Size {
@@ -302,9 +312,14 @@ func (p *PDF) GetRawObject(objNum int) (*PDFRawObject, error) {
 		return nil, types.NewPDFError(types.ErrCodeInvalidInput, "raw objects only available with BytePerfect parsing")
 	}
 
+	ref, ok := p.xref.Objects[objNum]
+	if !ok || ref.InStream {
+		return nil, types.NewPDFErrorf(types.ErrCodeObjectNotFound, "object %d not found", objNum).WithContext("object_number", objNum)
+	}
+
 	// Search all revisions (newest first for most recent version)
 	for i := len(p.doc.Revisions) - 1; i >= 0; i-- {
-		if obj, ok := p.doc.Revisions[i].Objects[objNum]; ok {
+		if obj, ok := p.doc.Revisions[i].Objects[objNum]; ok && obj.Offset == ref.Offset {
 			return obj, nil
 		}
 	}
diff --git a/core/parse/document_parser.go b/core/parse/document_parser.go
index 69e5999..0325d0d 100644
--- a/core/parse/document_parser.go
+++ b/core/parse/document_parser.go
@@ -5,6 +5,7 @@ import (
 	"bytes"
 	"fmt"
 	"regexp"
+	"sort"
 	"strconv"
 )
 
@@ -325,6 +326,14 @@ func parseXRefStreamRaw(pdfBytes []byte, startXRef int64, xref *XRefData) (*XRef
 		})
 	}
 
+	for objNum := range result.Free {
+		xref.Entries = append(xref.Entries, XRefEntry{ObjectNum: objNum})
+	}
+
+	sort.SliceStable(xref.Entries, func(i, j int) bool {
+		return xref.Entries[i].ObjectNum < xref.Entries[j].ObjectNum
+	})
+
 	return xref, nil
 }
 
-- 
2.43.0


From 8bfc7352a3479f26f53dff8ecc0a2513617d2813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:26 +0000
Subject: [PATCH 21/99] fix: objects are located through the latest
 cross-reference section and its predecessors

---
 core/parse/get_object.go  | 81 +++++++++++++--------------------------
 core/parse/incremental.go |  5 +++
 core/parse/parser.go      | 57 ++++++++-------------------
 3 files changed, 49 insertions(+), 94 deletions(-)

diff --git a/core/parse/get_object.go b/core/parse/get_object.go
index c9eb327..67bfe04 100644
--- a/core/parse/get_object.go
+++ b/core/parse/get_object.go
@@ -24,74 +24,47 @@ func FindObjectLocation(pdfBytes []byte, objNum int, verbose bool) (*ObjectLocat
 	// ALWAYS use xref table first - it's the authoritative source
 	// Direct search using bytes.Index is dangerous because "5 0 obj" matches inside "265 0 obj"
 
-	// Parse xref to find object
-	startxrefPattern := regexp.MustCompile(`startxref\s+(\d+)`)
-	startxrefMatch := startxrefPattern.FindStringSubmatch(string(pdfBytes))
-	if startxrefMatch == nil {
+	if !bytes.Contains(pdfBytes, []byte("startxref")) {
 		return nil, fmt.Errorf("startxref not found")
 	}
 
-	startXRef, err := strconv.ParseInt(startxrefMatch[1], 10, 64)
-	if err != nil || startXRef <= 0 {
-		return nil, fmt.Errorf("invalid startxref: %s", startxrefMatch[1])
-	}
-
-	// Bounds check
-	if startXRef >= int64(len(pdfBytes)) {
-		return nil, fmt.Errorf("startxref offset %d is beyond PDF length %d", startXRef, len(pdfBytes))
-	}
-
-	// Determine if this is a traditional xref or xref stream
-	xrefSection := pdfBytes[startXRef:]
-
-	// Check if it's an xref stream (PDF 1.5+)
-	// Xref streams start with "N 0 obj" instead of "xref"
-	if bytes.Contains(xrefSection[:min(100, len(xrefSection))], []byte("obj")) {
-		// It's an xref stream - use full parsing
-		result, err := ParseXRefStreamFull(pdfBytes, startXRef, verbose)
-		if err != nil {
+	// Parse the xref sections of all revisions to find the object
+	parser := newIncrementalParser(pdfBytes, verbose)
+	if err := parser.parse(); err != nil {
+		if verbose {
+			log.Printf("Failed to parse xref: %v", err)
+		}
+	} else {
+		// Check if object is in object stream
+		if entry, ok := parser.mergedStreams[objNum]; ok {
 			if verbose {
-				log.Printf("Failed to parse xref stream: %v", err)
-			}
-		} else {
-			// Check if object is in object stream
-			if entry, ok := result.ObjectStreams[objNum]; ok {
-				if verbose {
-					log.Printf("Object %d is in object stream %d at index %d", objNum, entry.StreamObjNum, entry.IndexInStream)
-				}
-				return &ObjectLocation{
-					IsDirect:      false,
-					StreamObjNum:  entry.StreamObjNum,
-					IndexInStream: entry.IndexInStream,
-				}, nil
+				log.Printf("Object %d is in object stream %d at index %d", objNum, entry.StreamObjNum, entry.IndexInStream)
 			}
+			return &ObjectLocation{
+				IsDirect:      false,
+				StreamObjNum:  entry.StreamObjNum,
+				IndexInStream: entry.IndexInStream,
+			}, nil
+		}
 
-			// Check regular objects
-			if offset, ok := result.Objects[objNum]; ok {
-				if verbose {
-					log.Printf("Object %d at byte offset %d (from xref stream)", objNum, offset)
-				}
-				return &ObjectLocation{IsDirect: true, ByteOffset: offset}, nil
+		// Check regular objects
+		if offset, ok := parser.mergedObjs[objNum]; ok {
+			if verbose {
+				log.Printf("Object %d at byte offset %d (from xref)", objNum, offset)
 			}
+			return &ObjectLocation{IsDirect: true, ByteOffset: offset}, nil
 		}
-	} else if bytes.HasPrefix(xrefSection, []byte("xref")) {
-		// Traditional xref table
-		objMap, err := ParseTraditionalXRefTable(pdfBytes, startXRef)
-		if err == nil {
-			if offset, ok := objMap[objNum]; ok {
-				if verbose {
-					log.Printf("Object %d at byte offset %d (from traditional xref)", objNum, offset)
-				}
-				return &ObjectLocation{IsDirect: true, ByteOffset: offset}, nil
-			}
+
+		if parser.mergedFree[objNum] {
+			return nil, fmt.Errorf("object %d not found: it is free", objNum)
 		}
 	}
 
 	// Not found in xref - try regex search for object header with word boundary
 	// Use negative lookbehind equivalent: require whitespace or start of file before objNum
 	pattern := regexp.MustCompile(fmt.Sprintf(`(^|\s|[\r\n])%d\s+0\s+obj`, objNum))
-	matches := pattern.FindIndex(pdfBytes)
-	if matches != nil {
+	if all := pattern.FindAllIndex(pdfBytes, -1); len(all) > 0 {
+		matches := all[len(all)-1] // the latest one
 		// Find the actual start of the object number
 		offset := int64(matches[0])
 		// Skip the preceding whitespace/newline
diff --git a/core/parse/incremental.go b/core/parse/incremental.go
index 17c5697..e533f14 100644
--- a/core/parse/incremental.go
+++ b/core/parse/incremental.go
@@ -28,6 +28,7 @@ type incrementalParser struct {
 	sections      []*xrefSection            // Ordered from oldest to newest
 	mergedObjs    map[int]int64             // Final merged object map
 	mergedStreams map[int]ObjectStreamEntry // Final merged object stream entries
+	mergedFree    map[int]bool              // Objects that are free in the end
 	verbose       bool
 }
 
@@ -38,6 +39,7 @@ func newIncrementalParser(pdfBytes []byte, verbose bool) *incrementalParser {
 		sections:      make([]*xrefSection, 0),
 		mergedObjs:    make(map[int]int64),
 		mergedStreams: make(map[int]ObjectStreamEntry),
+		mergedFree:    make(map[int]bool),
 		verbose:       verbose,
 	}
 }
@@ -446,16 +448,19 @@ func (p *incrementalParser) mergeSections() {
 		for objNum := range section.Free {
 			delete(p.mergedObjs, objNum)
 			delete(p.mergedStreams, objNum)
+			p.mergedFree[objNum] = true
 		}
 		// Regular objects
 		for objNum, offset := range section.Objects {
 			p.mergedObjs[objNum] = offset
 			delete(p.mergedStreams, objNum)
+			delete(p.mergedFree, objNum)
 		}
 		// Object stream entries
 		for objNum, entry := range section.Streams {
 			p.mergedStreams[objNum] = entry
 			delete(p.mergedObjs, objNum)
+			delete(p.mergedFree, objNum)
 		}
 	}
 
diff --git a/core/parse/parser.go b/core/parse/parser.go
index 01296fe..0c8b7d7 100644
--- a/core/parse/parser.go
+++ b/core/parse/parser.go
@@ -86,10 +86,11 @@ func ParsePDFTrailer(pdfBytes []byte) (*PDFTrailer, error) {
 		trailer.EncryptRef = encryptMatch[0]
 	}
 
-	// Find startxref
+	// Find startxref (the last one belongs to the latest revision)
 	startXRefPattern := regexp.MustCompile(`startxref\s+(\d+)`)
-	startXRefMatch := startXRefPattern.FindStringSubmatch(pdfStr)
-	if startXRefMatch != nil {
+	startXRefMatches := startXRefPattern.FindAllStringSubmatch(pdfStr, -1)
+	if len(startXRefMatches) > 0 {
+		startXRefMatch := startXRefMatches[len(startXRefMatches)-1]
 		offset, err := strconv.ParseInt(startXRefMatch[1], 10, 64)
 		if err == nil {
 			trailer.StartXRef = offset
@@ -101,48 +102,24 @@ func ParsePDFTrailer(pdfBytes []byte) (*PDFTrailer, error) {
 
 // FindObjectByNumber finds a PDF object by its number
 func FindObjectByNumber(pdfBytes []byte, objNum int, encryptInfo *types.PDFEncryption, verbose bool) (int, error) {
-	// First, try direct search (works for unencrypted or if object header is visible)
-	objPattern := []byte(fmt.Sprintf("%d 0 obj", objNum))
-	objIndex := bytes.Index(pdfBytes, objPattern)
-	if objIndex != -1 {
+	loc, err := FindObjectLocation(pdfBytes, objNum, verbose)
+	if err == nil && loc.IsDirect {
 		if verbose {
-			log.Printf("Found object %d at byte position %d (direct search)", objNum, objIndex)
+			log.Printf("Found object %d at byte position %d", objNum, loc.ByteOffset)
 		}
-		return objIndex, nil
+		return int(loc.ByteOffset), nil
+	}
+	if err == nil {
+		return -1, fmt.Errorf("object %d not found: it is in object stream %d", objNum, loc.StreamObjNum)
 	}
 
-	// If not found, try parsing cross-reference table (works for encrypted PDFs)
-	// Find startxref directly (works even without trailer keyword)
-	startxrefPattern := regexp.MustCompile(`startxref\s+(\d+)`)
-	startxrefMatch := startxrefPattern.FindStringSubmatch(string(pdfBytes))
-
-	if startxrefMatch != nil {
-		startXRef, err := strconv.ParseInt(startxrefMatch[1], 10, 64)
-		if err == nil && startXRef > 0 {
-			if verbose {
-				log.Printf("Found startxref at offset %d, attempting to parse cross-reference", startXRef)
-			}
-			objMap, xrefErr := ParseCrossReferenceTableWithEncryption(pdfBytes, startXRef, encryptInfo, verbose)
-			if xrefErr != nil {
-				if verbose {
-					log.Printf("Error parsing xref table: %v", xrefErr)
-				}
-			} else {
-				if verbose {
-					log.Printf("Parsed xref table: found %d objects", len(objMap))
-				}
-				if offset, ok := objMap[objNum]; ok {
-					if verbose {
-						log.Printf("Found object %d via cross-reference table at offset %d", objNum, offset)
-					}
-					return int(offset), nil
-				} else if verbose {
-					log.Printf("Object %d not found in xref table (available objects: %v)", objNum, GetSampleObjectNumbers(objMap, 10))
-				}
-			}
+	// No usable cross-reference: search for the object header
+	objPattern := regexp.MustCompile(fmt.Sprintf(`\b%d 0 obj\b`, objNum))
+	if match := objPattern.FindIndex(pdfBytes); match != nil && !bytes.Contains(pdfBytes, []byte("startxref")) {
+		if verbose {
+			log.Printf("Found object %d at byte position %d (direct search)", objNum, match[0])
 		}
-	} else if verbose {
-		log.Printf("No startxref found in PDF")
+		return match[0], nil
 	}
 
 	return -1, fmt.Errorf("object %d not found", objNum)
-- 
2.43.0


From fe6e15a85fae8bd5d7979e2c927c80b4fe74bd8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:59 +0000
Subject: [PATCH 22/99] fix: read cross-reference and object streams from their
 own dictionaries, within their bounds and with every predictor

---
 core/parse/object_stream.go | 459 +++++++++++++++++-------------------
 core/parse/xref_stream.go   | 132 +----------
 2 files changed, 223 insertions(+), 368 deletions(-)

diff --git a/core/parse/object_stream.go b/core/parse/object_stream.go
index 76f823d..90293e2 100644
--- a/core/parse/object_stream.go
+++ b/core/parse/object_stream.go
@@ -10,7 +10,6 @@ import (
 	"strconv"
 	"strings"
 
-	"github.com/benedoc-inc/pdfer/core/encrypt"
 	"github.com/benedoc-inc/pdfer/types"
 )
 
@@ -39,172 +38,14 @@ func ParseXRefStreamFull(pdfBytes []byte, startXRef int64, verbose bool) (*XRefR
 	}
 
 	// The xref stream object should be at startXRef
-	xrefSection := pdfBytes[startXRef:]
-	xrefStr := string(xrefSection[:min(500, len(xrefSection))])
-
-	// Find object number - it should be near the start
-	objPattern := regexp.MustCompile(`(\d+)\s+0\s+obj`)
-	objMatch := objPattern.FindStringSubmatch(xrefStr)
-	if objMatch == nil {
-		var searchStart int64 = 0
-		if startXRef > 100 {
-			searchStart = startXRef - 100
-		}
-		searchSection := pdfBytes[searchStart : startXRef+500]
-		searchStr := string(searchSection)
-		objMatch = objPattern.FindStringSubmatch(searchStr)
-		if objMatch == nil {
-			return nil, fmt.Errorf("xref stream object not found")
-		}
-	}
-
-	// Find the stream dictionary
-	dictStart := bytes.Index(xrefSection, []byte("<<"))
-	if dictStart == -1 {
-		return nil, fmt.Errorf("xref stream dictionary not found")
-	}
-
-	// Find /Size entry
-	sizePattern := regexp.MustCompile(`/Size\s+(\d+)`)
-	sizeMatch := sizePattern.FindStringSubmatch(xrefStr[dictStart:])
-	if sizeMatch == nil {
-		return nil, fmt.Errorf("/Size not found in xref stream")
-	}
-
-	// Find /W entry (field widths)
-	wPattern := regexp.MustCompile(`/W\s*\[\s*(\d+)\s+(\d+)\s+(\d+)\s*\]`)
-	wMatch := wPattern.FindStringSubmatch(xrefStr[dictStart:])
-	if wMatch == nil {
-		return nil, fmt.Errorf("/W not found in xref stream")
-	}
-
-	w1, _ := strconv.Atoi(wMatch[1])
-	w2, _ := strconv.Atoi(wMatch[2])
-	w3, _ := strconv.Atoi(wMatch[3])
-
-	// Find /Index entry
-	indexPattern := regexp.MustCompile(`/Index\s*\[\s*([^\]]+)\]`)
-	indexMatch := indexPattern.FindStringSubmatch(xrefStr[dictStart:])
-
-	var subsections []struct{ first, count int }
-	if indexMatch != nil {
-		indexFields := strings.Fields(indexMatch[1])
-		for i := 0; i < len(indexFields)-1; i += 2 {
-			first, _ := strconv.Atoi(indexFields[i])
-			count, _ := strconv.Atoi(indexFields[i+1])
-			subsections = append(subsections, struct{ first, count int }{first, count})
-		}
-	} else {
-		size, _ := strconv.Atoi(sizeMatch[1])
-		subsections = []struct{ first, count int }{{0, size}}
-	}
-
-	// Find and decompress stream content
-	streamKeywordPos := bytes.Index(xrefSection[dictStart:], []byte("stream"))
-	if streamKeywordPos == -1 {
-		return nil, fmt.Errorf("stream keyword not found")
-	}
-	streamKeywordStart := dictStart + streamKeywordPos
-
-	streamDataStart := streamKeywordStart + 6
-	for streamDataStart < len(xrefSection) && (xrefSection[streamDataStart] == '\r' || xrefSection[streamDataStart] == '\n' || xrefSection[streamDataStart] == ' ' || xrefSection[streamDataStart] == '\t') {
-		streamDataStart++
-	}
-
-	streamEndPos := bytes.Index(xrefSection[streamDataStart:], []byte("endstream"))
-	if streamEndPos == -1 {
-		return nil, fmt.Errorf("endstream not found")
-	}
-
-	streamContent := xrefSection[streamDataStart : streamDataStart+streamEndPos]
-
-	// Decompress (xref streams are NOT encrypted)
-	var decompressed []byte
-	var err error
-
-	zlibReader, zlibErr := zlib.NewReader(bytes.NewReader(streamContent))
-	if zlibErr == nil {
-		decompressed, err = io.ReadAll(zlibReader)
-		zlibReader.Close()
-		if err != nil {
-			flateReader := flate.NewReader(bytes.NewReader(streamContent))
-			decompressed, err = io.ReadAll(flateReader)
-			flateReader.Close()
-		}
-	} else {
-		flateReader := flate.NewReader(bytes.NewReader(streamContent))
-		decompressed, err = io.ReadAll(flateReader)
-		flateReader.Close()
-	}
-
+	w, subsections, decompressed, err := readXRefStream(pdfBytes, startXRef)
 	if err != nil {
-		return nil, fmt.Errorf("error decompressing xref stream: %v", err)
-	}
-
-	// Check for predictor (PNG filter)
-	// Look for /DecodeParms with /Predictor
-	decodeparmsPattern := regexp.MustCompile(`/DecodeParms\s*<<([^>]+)>>`)
-	decodeparmsMatch := decodeparmsPattern.FindStringSubmatch(string(xrefSection[:min(500, len(xrefSection))]))
-
-	if decodeparmsMatch != nil {
-		predictorPattern := regexp.MustCompile(`/Predictor\s+(\d+)`)
-		columnsPattern := regexp.MustCompile(`/Columns\s+(\d+)`)
-
-		predictorMatch := predictorPattern.FindStringSubmatch(decodeparmsMatch[1])
-		columnsMatch := columnsPattern.FindStringSubmatch(decodeparmsMatch[1])
-
-		if predictorMatch != nil && columnsMatch != nil {
-			predictor, _ := strconv.Atoi(predictorMatch[1])
-			columns, _ := strconv.Atoi(columnsMatch[1])
-
-			if predictor >= 10 && predictor <= 15 {
-				// PNG predictor - apply filter
-				rowSize := columns + 1 // +1 for filter byte
-				numRows := len(decompressed) / rowSize
-
-				decoded := make([]byte, numRows*columns)
-				prevRow := make([]byte, columns)
-
-				for row := 0; row < numRows; row++ {
-					rowStart := row * rowSize
-					if rowStart+rowSize > len(decompressed) {
-						break
-					}
-					filterByte := decompressed[rowStart]
-					rowData := decompressed[rowStart+1 : rowStart+rowSize]
-
-					switch filterByte {
-					case 0: // None
-						copy(decoded[row*columns:], rowData)
-					case 1: // Sub
-						for i := 0; i < columns; i++ {
-							left := byte(0)
-							if i > 0 {
-								left = decoded[row*columns+i-1]
-							}
-							decoded[row*columns+i] = rowData[i] + left
-						}
-					case 2: // Up (most common for Predictor 12)
-						for i := 0; i < columns; i++ {
-							decoded[row*columns+i] = rowData[i] + prevRow[i]
-						}
-					default:
-						copy(decoded[row*columns:], rowData)
-					}
-
-					copy(prevRow, decoded[row*columns:row*columns+columns])
-				}
-
-				decompressed = decoded
-			}
-		}
+		return nil, err
 	}
+	w1, w2, w3 := w[0], w[1], w[2]
 
 	// Parse entries
 	entrySize := w1 + w2 + w3
-	if entrySize == 0 {
-		return nil, fmt.Errorf("invalid entry size")
-	}
 
 	entryIndex := 0
 	for _, sub := range subsections {
@@ -215,8 +56,11 @@ func ParseXRefStreamFull(pdfBytes []byte, startXRef int64, verbose bool) (*XRefR
 
 			entry := decompressed[entryIndex*entrySize : entryIndex*entrySize+entrySize]
 
-			// Parse type (first w1 bytes)
+			// Parse type (first w1 bytes, 1 if there are none)
 			typeVal := 0
+			if w1 == 0 {
+				typeVal = 1
+			}
 			for i := 0; i < w1 && i < len(entry); i++ {
 				typeVal = typeVal<<8 | int(entry[i])
 			}
@@ -264,97 +108,225 @@ func ParseXRefStreamFull(pdfBytes []byte, startXRef int64, verbose bool) (*XRefR
 	return result, nil
 }
 
-// GetObjectFromStream extracts an object from an object stream (ObjStm)
-// This implements PyPDF's _get_object_from_stream method
-func GetObjectFromStream(pdfBytes []byte, objNum int, streamObjNum int, indexInStream int, encryptInfo *types.PDFEncryption, verbose bool) ([]byte, error) {
-	// Step 1: Get the object stream itself
-	// First, we need to find the object stream's byte offset
-	// This requires having the xref table for direct objects
-
-	// For now, search for the object stream in the PDF
-	streamPattern := fmt.Sprintf(`%d\s+0\s+obj`, streamObjNum)
-	re := regexp.MustCompile(streamPattern)
-	matches := re.FindIndex(pdfBytes)
-	if matches == nil {
-		return nil, fmt.Errorf("object stream %d not found", streamObjNum)
+// readXRefStream reads the cross-reference stream at startXRef: the field widths, the
+// subsections (first object number and count) and the decoded entries
+func readXRefStream(pdfBytes []byte, startXRef int64) (w [3]int, subsections []xrefSubsection, data []byte, err error) {
+	if startXRef < 0 || startXRef >= int64(len(pdfBytes)) {
+		return w, nil, nil, fmt.Errorf("invalid startxref offset: %d", startXRef)
 	}
 
-	streamObjStart := matches[0]
-
-	// Find the object stream's dictionary and stream data
-	objSection := pdfBytes[streamObjStart:]
+	// Find object number - it should be near the start
+	objPattern := regexp.MustCompile(`(\d+)\s+(\d+)\s+obj`)
+	searchStart := startXRef
+	objMatch := objPattern.FindSubmatchIndex(pdfBytes[startXRef:min(startXRef+100, int64(len(pdfBytes)))])
+	if objMatch == nil {
+		// Try searching a bit before startXRef in case of offset issues
+		searchStart = max(0, startXRef-100)
+		objMatch = objPattern.FindSubmatchIndex(pdfBytes[searchStart:min(startXRef+500, int64(len(pdfBytes)))])
+		if objMatch == nil {
+			return w, nil, nil, fmt.Errorf("xref stream object not found")
+		}
+	}
+	obj, err := ParseRawObjectAt(pdfBytes, searchStart+int64(objMatch[0]))
+	if err != nil {
+		return w, nil, nil, fmt.Errorf("xref stream object not found: %v", err)
+	}
+	if !obj.IsStream {
+		return w, nil, nil, fmt.Errorf("stream keyword not found")
+	}
+	dict := string(obj.DictRaw)
 
-	// Find dictionary
-	dictStart := bytes.Index(objSection, []byte("<<"))
-	if dictStart == -1 {
-		return nil, fmt.Errorf("object stream dictionary not found")
+	// Find /Size entry (total number of objects)
+	sizePattern := regexp.MustCompile(`/Size\s+(\d+)`)
+	sizeMatch := sizePattern.FindStringSubmatch(dict)
+	if sizeMatch == nil {
+		return w, nil, nil, fmt.Errorf("/Size not found in xref stream")
 	}
 
-	// Find dictionary end to get dict content
-	dictEnd := bytes.Index(objSection[dictStart:], []byte(">>"))
-	if dictEnd == -1 {
-		return nil, fmt.Errorf("dictionary end not found")
+	// Find /W entry (field widths: [w1 w2 w3])
+	wPattern := regexp.MustCompile(`/W\s*\[\s*(\d+)\s+(\d+)\s+(\d+)\s*\]`)
+	wMatch := wPattern.FindStringSubmatch(dict)
+	if wMatch == nil {
+		return w, nil, nil, fmt.Errorf("/W not found in xref stream")
+	}
+	for i := range w {
+		w[i], err = strconv.Atoi(wMatch[i+1])
+		if err != nil || w[i] > 8 {
+			return w, nil, nil, fmt.Errorf("invalid field width in xref stream: %s", wMatch[i+1])
+		}
+	}
+	entrySize := w[0] + w[1] + w[2]
+	if entrySize == 0 {
+		return w, nil, nil, fmt.Errorf("invalid entry size")
 	}
-	dictContent := string(objSection[dictStart : dictStart+dictEnd+2])
 
-	// Get /Length from dictionary
-	lengthPattern := regexp.MustCompile(`/Length\s+(\d+)`)
-	lengthMatch := lengthPattern.FindStringSubmatch(dictContent)
-	if lengthMatch == nil {
-		return nil, fmt.Errorf("/Length not found in object stream dictionary")
+	data, err = decodeStructureStream(dict, obj.StreamRaw)
+	if err != nil {
+		return w, nil, nil, fmt.Errorf("error decompressing xref stream: %v", err)
 	}
-	streamLength, _ := strconv.Atoi(lengthMatch[1])
 
-	// Find stream keyword
-	streamKeyword := bytes.Index(objSection[dictStart:], []byte("stream"))
-	if streamKeyword == -1 {
-		return nil, fmt.Errorf("stream keyword not found in object stream")
+	// Find /Index entry if present (subsections)
+	// Format: /Index [first1 count1 first2 count2 ...]
+	indexFields := []string{"0", sizeMatch[1]}
+	indexPattern := regexp.MustCompile(`/Index\s*\[\s*([^\]]+)\]`)
+	if indexMatch := indexPattern.FindStringSubmatch(dict); indexMatch != nil {
+		indexFields = strings.Fields(indexMatch[1])
+	}
+	entries := len(data) / entrySize
+	for i := 0; i+1 < len(indexFields); i += 2 {
+		first, err1 := strconv.Atoi(indexFields[i])
+		count, err2 := strconv.Atoi(indexFields[i+1])
+		if err1 != nil || err2 != nil || first < 0 || count < 0 {
+			return w, nil, nil, fmt.Errorf("invalid /Index in xref stream")
+		}
+		// there are no more entries than the data holds
+		count = min(count, entries)
+		entries -= count
+		subsections = append(subsections, xrefSubsection{first, count})
 	}
-	streamKeyword += dictStart
+	return w, subsections, data, nil
+}
 
-	// Skip "stream" and exactly one EOL marker (per PDF spec)
-	streamDataStart := streamKeyword + 6
-	if streamDataStart < len(objSection) && objSection[streamDataStart] == '\r' {
-		streamDataStart++
+// xrefSubsection is a range of object numbers in a cross-reference stream
+type xrefSubsection struct{ first, count int }
+
+// decodeStructureStream decodes the data of a cross-reference or object stream
+func decodeStructureStream(dict string, data []byte) ([]byte, error) {
+	filters := regexp.MustCompile(`/Filter\s*(/\w+|\[[^\]]*\])`).FindStringSubmatch(dict)
+	if filters == nil {
+		return data, nil
 	}
-	if streamDataStart < len(objSection) && objSection[streamDataStart] == '\n' {
-		streamDataStart++
+	var err error
+	for _, filter := range regexp.MustCompile(`/\w+`).FindAllString(filters[1], -1) {
+		if filter != "/FlateDecode" {
+			data, err = DecodeFilter(data, filter)
+		} else {
+			data, err = inflate(data)
+		}
+		if err != nil {
+			return nil, err
+		}
 	}
 
-	// Use /Length to get exact stream data
-	if streamDataStart+streamLength > len(objSection) {
-		return nil, fmt.Errorf("stream length %d exceeds available data", streamLength)
+	// Check for predictor (PNG filter)
+	// Look for /DecodeParms with /Predictor
+	decodeparmsPattern := regexp.MustCompile(`/DecodeParms\s*\[?\s*<<([^>]*)>>`)
+	decodeparmsMatch := decodeparmsPattern.FindStringSubmatch(dict)
+	if decodeparmsMatch == nil {
+		return data, nil
+	}
+	predictorMatch := regexp.MustCompile(`/Predictor\s+(\d+)`).FindStringSubmatch(decodeparmsMatch[1])
+	if predictorMatch == nil {
+		return data, nil
+	}
+	predictor, _ := strconv.Atoi(predictorMatch[1])
+	columns := 1
+	if match := regexp.MustCompile(`/Columns\s+(\d+)`).FindStringSubmatch(decodeparmsMatch[1]); match != nil {
+		columns, err = strconv.Atoi(match[1])
+		if err != nil || columns < 1 || columns > 1<<20 {
+			return nil, fmt.Errorf("invalid /Columns %s", match[1])
+		}
+	}
+	if predictor < 10 || predictor > 15 {
+		return data, nil
 	}
 
-	streamData := objSection[streamDataStart : streamDataStart+streamLength]
+	// PNG predictor - apply filter
+	rowSize := columns + 1 // +1 for filter byte
+	numRows := len(data) / rowSize
 
-	// Decrypt stream data if needed (object streams ARE encrypted)
-	if encryptInfo != nil {
-		decrypted, err := encrypt.DecryptObject(streamData, streamObjNum, 0, encryptInfo)
-		if err != nil {
-			return nil, fmt.Errorf("failed to decrypt object stream: %v", err)
+	decoded := make([]byte, numRows*columns)
+	prevRow := make([]byte, columns)
+
+	for row := 0; row < numRows; row++ {
+		rowStart := row * rowSize
+		filterByte := data[rowStart]
+		rowData := data[rowStart+1 : rowStart+rowSize]
+		current := decoded[row*columns : (row+1)*columns]
+
+		for i := range current {
+			left, upperLeft := byte(0), byte(0)
+			if i > 0 {
+				left, upperLeft = current[i-1], prevRow[i-1]
+			}
+			switch filterByte {
+			case 1: // Sub
+				current[i] = rowData[i] + left
+			case 2: // Up (most common for Predictor 12)
+				current[i] = rowData[i] + prevRow[i]
+			case 3: // Average
+				current[i] = rowData[i] + byte((int(left)+int(prevRow[i]))/2)
+			case 4: // Paeth
+				current[i] = rowData[i] + paeth(left, prevRow[i], upperLeft)
+			default: // None
+				current[i] = rowData[i]
+			}
 		}
-		streamData = decrypted
+
+		prevRow = current
 	}
+	return decoded, nil
+}
 
-	// Decompress stream data (FlateDecode)
-	var decompressed []byte
-	var err error
+// paeth is the PNG predictor that picks the neighbour closest to left + up - upperLeft
+func paeth(left, up, upperLeft byte) byte {
+	estimate := int(left) + int(up) - int(upperLeft)
+	distance := func(b byte) int {
+		if d := estimate - int(b); d >= 0 {
+			return d
+		}
+		return int(b) - estimate
+	}
+	switch {
+	case distance(left) <= distance(up) && distance(left) <= distance(upperLeft):
+		return left
+	case distance(up) <= distance(upperLeft):
+		return up
+	}
+	return upperLeft
+}
+
+// inflate decompresses FlateDecode data, which is usually zlib-wrapped but can be raw
+// deflate
+func inflate(data []byte) ([]byte, error) {
+	zlibReader, err := zlib.NewReader(bytes.NewReader(data))
+	if err == nil {
+		defer zlibReader.Close()
+		return io.ReadAll(zlibReader)
+	}
+	flateReader := flate.NewReader(bytes.NewReader(data))
+	defer flateReader.Close()
+	return io.ReadAll(flateReader)
+}
 
-	zlibReader, zlibErr := zlib.NewReader(bytes.NewReader(streamData))
-	if zlibErr == nil {
-		decompressed, err = io.ReadAll(zlibReader)
-		zlibReader.Close()
+// GetObjectFromStream extracts an object from an object stream (ObjStm)
+// This implements PyPDF's _get_object_from_stream method
+func GetObjectFromStream(pdfBytes []byte, objNum int, streamObjNum int, indexInStream int, encryptInfo *types.PDFEncryption, verbose bool) ([]byte, error) {
+	// Step 1: Get the object stream itself. It is a direct object, found through
+	// the cross-reference, and it is encrypted as a whole
+	loc, err := FindObjectLocation(pdfBytes, streamObjNum, verbose)
+	if err != nil {
+		return nil, fmt.Errorf("object stream %d not found: %v", streamObjNum, err)
+	}
+	if !loc.IsDirect {
+		return nil, fmt.Errorf("object stream %d is itself in an object stream", streamObjNum)
+	}
+	streamObj, err := GetDirectObject(pdfBytes, streamObjNum, loc.ByteOffset, encryptInfo, verbose)
+	if err != nil {
+		return nil, fmt.Errorf("failed to read object stream %d: %v", streamObjNum, err)
+	}
+	raw, err := ParseRawObjectAt(streamObj, 0)
+	if err != nil {
+		return nil, fmt.Errorf("failed to read object stream %d: %v", streamObjNum, err)
+	}
+	if !raw.IsStream {
+		return nil, fmt.Errorf("object %d is not an object stream", streamObjNum)
 	}
+	dictSection := string(raw.DictRaw)
 
-	if err != nil || zlibErr != nil {
-		// Try raw deflate
-		flateReader := flate.NewReader(bytes.NewReader(streamData))
-		decompressed, err = io.ReadAll(flateReader)
-		flateReader.Close()
-		if err != nil {
-			return nil, fmt.Errorf("failed to decompress object stream: %v", err)
-		}
+	decompressed, err := decodeStructureStream(dictSection, raw.StreamRaw)
+	if err != nil {
+		return nil, fmt.Errorf("failed to decompress object stream: %v", err)
 	}
 
 	// Parse object stream header
@@ -364,21 +336,21 @@ func GetObjectFromStream(pdfBytes []byte, objNum int, streamObjNum int, indexInS
 	// - Header format: "objnum1 offset1 objnum2 offset2 ..."
 
 	// Find /N and /First from dictionary
-	dictSection := string(objSection[dictStart:streamKeyword])
-
 	nPattern := regexp.MustCompile(`/N\s+(\d+)`)
 	nMatch := nPattern.FindStringSubmatch(dictSection)
 	if nMatch == nil {
 		return nil, fmt.Errorf("/N not found in object stream dictionary")
 	}
-	_ = nMatch[1] // Number of objects (for validation if needed)
 
 	firstPattern := regexp.MustCompile(`/First\s+(\d+)`)
 	firstMatch := firstPattern.FindStringSubmatch(dictSection)
 	if firstMatch == nil {
 		return nil, fmt.Errorf("/First not found in object stream dictionary")
 	}
-	firstOffset, _ := strconv.Atoi(firstMatch[1])
+	firstOffset, err := strconv.Atoi(firstMatch[1])
+	if err != nil || firstOffset > len(decompressed) {
+		return nil, fmt.Errorf("/First %s is beyond the object stream", firstMatch[1])
+	}
 
 	// Parse header: pairs of "objnum offset"
 	type objEntry struct {
@@ -390,6 +362,9 @@ func GetObjectFromStream(pdfBytes []byte, objNum int, streamObjNum int, indexInS
 	headerData := decompressed[:firstOffset]
 	headerStr := string(headerData)
 	fields := strings.Fields(headerStr)
+	if n, err := strconv.Atoi(nMatch[1]); err == nil && len(fields) > 2*n {
+		fields = fields[:2*n]
+	}
 
 	for i := 0; i < len(fields)-1; i += 2 {
 		on, _ := strconv.Atoi(fields[i])
@@ -397,7 +372,7 @@ func GetObjectFromStream(pdfBytes []byte, objNum int, streamObjNum int, indexInS
 		entries = append(entries, objEntry{objNum: on, offset: off})
 	}
 
-	if indexInStream >= len(entries) {
+	if indexInStream < 0 || indexInStream >= len(entries) {
 		return nil, fmt.Errorf("index %d out of range (stream has %d objects)", indexInStream, len(entries))
 	}
 
@@ -423,14 +398,14 @@ func GetObjectFromStream(pdfBytes []byte, objNum int, streamObjNum int, indexInS
 	var objDataEnd int
 
 	// Find next object's offset or end of stream
-	if indexInStream < len(entries)-1 {
-		nextEntry := entries[indexInStream+1]
-		objDataEnd = firstOffset + nextEntry.offset
-	} else {
-		objDataEnd = len(decompressed)
+	objDataEnd = len(decompressed)
+	for _, e := range entries {
+		if e.offset > targetEntry.offset && firstOffset+e.offset < objDataEnd {
+			objDataEnd = firstOffset + e.offset
+		}
 	}
 
-	if objDataStart >= len(decompressed) || objDataEnd > len(decompressed) {
+	if targetEntry.offset < 0 || objDataStart >= objDataEnd {
 		return nil, fmt.Errorf("object data offset out of range")
 	}
 
diff --git a/core/parse/xref_stream.go b/core/parse/xref_stream.go
index ced4bbf..ebaad8b 100644
--- a/core/parse/xref_stream.go
+++ b/core/parse/xref_stream.go
@@ -1,14 +1,7 @@
 package parse
 
 import (
-	"bytes"
-	"compress/flate"
-	"compress/zlib"
 	"fmt"
-	"io"
-	"regexp"
-	"strconv"
-	"strings"
 
 	"github.com/benedoc-inc/pdfer/types"
 )
@@ -25,131 +18,15 @@ func ParseXRefStreamWithEncryption(pdfBytes []byte, startXRef int64, encryptInfo
 	objMap := make(map[int]int64)
 
 	// The xref stream object should be at startXRef
-	// Find object number - it should be at or near startXRef
-	xrefSection := pdfBytes[startXRef:]
-	xrefStr := string(xrefSection[:min(500, len(xrefSection))])
-
-	// Find object number - it should be near the start (usually the first thing)
-	objPattern := regexp.MustCompile(`(\d+)\s+0\s+obj`)
-	objMatch := objPattern.FindStringSubmatch(xrefStr)
-	if objMatch == nil {
-		// Try searching a bit before startXRef in case of offset issues
-		var searchStart int64 = 0
-		if startXRef > 100 {
-			searchStart = startXRef - 100
-		}
-		searchSection := pdfBytes[searchStart : startXRef+500]
-		searchStr := string(searchSection)
-		objMatch = objPattern.FindStringSubmatch(searchStr)
-		if objMatch == nil {
-			return nil, fmt.Errorf("xref stream object not found")
-		}
-	}
-
-	// Find the stream dictionary
-	dictStart := bytes.Index(xrefSection, []byte("<<"))
-	if dictStart == -1 {
-		return nil, fmt.Errorf("xref stream dictionary not found")
-	}
-
-	// Find /Size entry (total number of objects)
-	sizePattern := regexp.MustCompile(`/Size\s+(\d+)`)
-	sizeMatch := sizePattern.FindStringSubmatch(xrefStr[dictStart:])
-	if sizeMatch == nil {
-		return nil, fmt.Errorf("/Size not found in xref stream")
-	}
-
-	// Find /W entry (field widths: [w1 w2 w3])
-	wPattern := regexp.MustCompile(`/W\s*\[\s*(\d+)\s+(\d+)\s+(\d+)\s*\]`)
-	wMatch := wPattern.FindStringSubmatch(xrefStr[dictStart:])
-	if wMatch == nil {
-		return nil, fmt.Errorf("/W not found in xref stream")
-	}
-
-	w1, _ := strconv.Atoi(wMatch[1]) // Type field width
-	w2, _ := strconv.Atoi(wMatch[2]) // Field 2 width (usually offset)
-	w3, _ := strconv.Atoi(wMatch[3]) // Field 3 width (usually generation)
-
-	// Find /Index entry if present (subsections)
-	// Format: /Index [first1 count1 first2 count2 ...]
-	// /Index defines which object numbers are in this xref stream
-	indexPattern := regexp.MustCompile(`/Index\s*\[\s*([^\]]+)\]`)
-	indexMatch := indexPattern.FindStringSubmatch(xrefStr[dictStart:])
-
-	var subsections []struct{ first, count int }
-	if indexMatch != nil {
-		// Parse index array - this tells us which object numbers are in this stream
-		indexFields := strings.Fields(indexMatch[1])
-		for i := 0; i < len(indexFields)-1; i += 2 {
-			first, _ := strconv.Atoi(indexFields[i])
-			count, _ := strconv.Atoi(indexFields[i+1])
-			subsections = append(subsections, struct{ first, count int }{first, count})
-		}
-	} else {
-		// Default: single subsection starting at 0, up to /Size
-		size, _ := strconv.Atoi(sizeMatch[1])
-		subsections = []struct{ first, count int }{{0, size}}
-	}
-
-	// Find stream content
-	// Look for "stream" after the dictionary
-	streamKeywordPos := bytes.Index(xrefSection[dictStart:], []byte("stream"))
-	if streamKeywordPos == -1 {
-		return nil, fmt.Errorf("stream keyword not found")
-	}
-	streamKeywordStart := dictStart + streamKeywordPos
-
-	// Skip "stream" keyword (6 bytes) and any whitespace
-	streamDataStart := streamKeywordStart + 6
-	for streamDataStart < len(xrefSection) && (xrefSection[streamDataStart] == '\r' || xrefSection[streamDataStart] == '\n' || xrefSection[streamDataStart] == ' ' || xrefSection[streamDataStart] == '\t') {
-		streamDataStart++
-	}
-
-	// Find endstream
-	streamEndPos := bytes.Index(xrefSection[streamDataStart:], []byte("endstream"))
-	if streamEndPos == -1 {
-		return nil, fmt.Errorf("endstream not found")
-	}
-
-	// Extract stream content (raw bytes, don't trim)
-	streamContent := xrefSection[streamDataStart : streamDataStart+streamEndPos]
-
-	// Note: Xref streams are typically NOT encrypted (they're needed to decrypt other objects)
-	// The stream content should be FlateDecode compressed binary data
-	// FlateDecode can be either raw deflate or zlib-wrapped
-
-	// Try zlib decompression first (FlateDecode is usually zlib-wrapped)
-	// If that fails, try raw deflate
-	var decompressed []byte
-	var err error
-
-	zlibReader, zlibErr := zlib.NewReader(bytes.NewReader(streamContent))
-	if zlibErr == nil {
-		decompressed, err = io.ReadAll(zlibReader)
-		zlibReader.Close()
-		if err != nil {
-			// zlib read failed, try raw deflate
-			flateReader := flate.NewReader(bytes.NewReader(streamContent))
-			decompressed, err = io.ReadAll(flateReader)
-			flateReader.Close()
-		}
-	} else {
-		// zlib.NewReader failed (not zlib format), try raw deflate
-		flateReader := flate.NewReader(bytes.NewReader(streamContent))
-		decompressed, err = io.ReadAll(flateReader)
-		flateReader.Close()
-	}
-
+	w, subsections, decompressed, err := readXRefStream(pdfBytes, startXRef)
 	if err != nil {
-		return nil, fmt.Errorf("error decompressing xref stream (tried zlib and deflate): %v", err)
+		return nil, err
 	}
+	w1, w2, w3 := w[0], w[1], w[2]
 
 	// Parse decompressed stream data
 	// Each entry is w1+w2+w3 bytes
 	entrySize := w1 + w2 + w3
-	if entrySize == 0 {
-		return nil, fmt.Errorf("invalid entry size: w1=%d, w2=%d, w3=%d", w1, w2, w3)
-	}
 
 	entryIndex := 0
 
@@ -163,6 +40,9 @@ func ParseXRefStreamWithEncryption(pdfBytes []byte, startXRef int64, encryptInfo
 
 			// Parse entry based on type (first w1 bytes)
 			typeVal := 0
+			if w1 == 0 {
+				typeVal = 1 // the default type
+			}
 			for i := 0; i < w1 && i < len(entry); i++ {
 				typeVal = typeVal<<8 | int(entry[i])
 			}
-- 
2.43.0


From ea0f1dc55705f974a40ccddc922e1c6673e92716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:07 +0000
Subject: [PATCH 23/99] fix: read cross-reference sections of any size, with
 every line ending, and within bounds; a broken latest section is an error

---
 core/parse/api.go             |   5 +-
 core/parse/document_parser.go |  52 +++++--------
 core/parse/incremental.go     | 141 +++++++++++-----------------------
 core/parse/parser.go          |  12 ++-
 core/parse/scan.go            |  55 +++++++++++++
 5 files changed, 133 insertions(+), 132 deletions(-)

diff --git a/core/parse/api.go b/core/parse/api.go
index 4f44165..b8c4a7e 100644
--- a/core/parse/api.go
+++ b/core/parse/api.go
@@ -200,7 +200,10 @@ func (p *PDF) parseStandard() error {
 			InfoRef:    trailer.InfoRef,
 		}
 		// Parse xref from startxref
-		objMap, _ := ParseCrossReferenceTableWithEncryption(p.raw, trailer.StartXRef, p.encryption, p.opts.Verbose)
+		objMap, err := ParseCrossReferenceTableWithEncryption(p.raw, trailer.StartXRef, p.encryption, p.opts.Verbose)
+		if err != nil {
+			return types.WrapError(types.ErrCodeMalformedPDF, "failed to parse PDF structure", err)
+		}
 		for objNum, offset := range objMap {
 			p.xref.Objects[objNum] = &ObjectRef{
 				Number: objNum,
diff --git a/core/parse/document_parser.go b/core/parse/document_parser.go
index 0325d0d..8fbc0c2 100644
--- a/core/parse/document_parser.go
+++ b/core/parse/document_parser.go
@@ -7,6 +7,7 @@ import (
 	"regexp"
 	"sort"
 	"strconv"
+	"strings"
 )
 
 // ParsePDFDocument parses a complete PDF preserving all raw bytes for reconstruction
@@ -132,10 +133,11 @@ func parseRevision(pdfBytes []byte, revNum int, eofOffset int, doc *PDFDocument)
 
 	searchSection := string(pdfBytes[searchStart:eofOffset])
 	startxrefPattern := regexp.MustCompile(`startxref\s+(\d+)`)
-	match := startxrefPattern.FindStringSubmatch(searchSection)
-	if match == nil {
+	matches := startxrefPattern.FindAllStringSubmatch(searchSection, -1)
+	if len(matches) == 0 {
 		return nil, fmt.Errorf("startxref not found before %%EOF at %d", eofOffset)
 	}
+	match := matches[len(matches)-1]
 
 	startXRef, _ := strconv.ParseInt(match[1], 10, 64)
 	rev.StartXRef = startXRef
@@ -218,34 +220,34 @@ func parseTraditionalXRefRaw(pdfBytes []byte, startXRef int64, xref *XRefData) (
 	// Find end of xref table (at "trailer" keyword)
 	trailerIdx := bytes.Index(section, []byte("trailer"))
 	if trailerIdx == -1 {
-		// No trailer found - look for end of entries
-		trailerIdx = min(10000, len(section))
+		// No trailer found - take everything
+		trailerIdx = len(section)
 	}
 
 	xref.RawBytes = section[:trailerIdx]
 
 	// Parse entries
-	lines := bytes.Split(xref.RawBytes, []byte("\n"))
+	lines := regexp.MustCompile(`\r\n|\r|\n`).Split(string(xref.RawBytes), -1)
 
 	currentObjNum := 0
 	inSubsection := false
 
 	for i, line := range lines {
-		line = bytes.TrimSpace(line)
+		line = strings.TrimSpace(line)
 		if len(line) == 0 {
 			continue
 		}
 
 		// Skip "xref" keyword
-		if i == 0 && bytes.Equal(line, []byte("xref")) {
+		if i == 0 && line == "xref" {
 			continue
 		}
 
 		// Check for subsection header (two numbers)
-		parts := bytes.Fields(line)
+		parts := strings.Fields(line)
 		if len(parts) == 2 {
-			firstObj, err1 := strconv.Atoi(string(parts[0]))
-			_, err2 := strconv.Atoi(string(parts[1]))
+			firstObj, err1 := strconv.Atoi(parts[0])
+			_, err2 := strconv.Atoi(parts[1])
 			if err1 == nil && err2 == nil {
 				currentObjNum = firstObj
 				inSubsection = true
@@ -255,9 +257,9 @@ func parseTraditionalXRefRaw(pdfBytes []byte, startXRef int64, xref *XRefData) (
 
 		// Parse entry (20 bytes: offset generation flag)
 		if inSubsection && len(parts) >= 3 {
-			offset, err1 := strconv.ParseInt(string(parts[0]), 10, 64)
-			gen, err2 := strconv.Atoi(string(parts[1]))
-			flag := string(parts[2])
+			offset, err1 := strconv.ParseInt(parts[0], 10, 64)
+			gen, err2 := strconv.Atoi(parts[1])
+			flag := parts[2]
 
 			if err1 == nil && err2 == nil {
 				entry := XRefEntry{
@@ -339,8 +341,10 @@ func parseXRefStreamRaw(pdfBytes []byte, startXRef int64, xref *XRefData) (*XRef
 
 // ParseTrailerDataRaw parses trailer data preserving raw bytes
 func ParseTrailerDataRaw(pdfBytes []byte, startXRef int64, eofOffset int) (*TrailerData, error) {
+	if startXRef < 0 || startXRef >= int64(len(pdfBytes)) {
+		return nil, fmt.Errorf("invalid startxref: %d", startXRef)
+	}
 	section := pdfBytes[startXRef:]
-	sectionStr := string(section[:min(5000, len(section))])
 
 	trailer := &TrailerData{}
 
@@ -348,6 +352,7 @@ func ParseTrailerDataRaw(pdfBytes []byte, startXRef int64, eofOffset int) (*Trai
 	if !bytes.HasPrefix(section, []byte("xref")) {
 		// XRef stream - parse dictionary from stream object
 		trailer.Offset = 0 // No separate trailer
+		sectionStr := xrefStreamDict(section)
 
 		// Extract trailer-equivalent info from stream dictionary
 		if match := regexp.MustCompile(`/Size\s+(\d+)`).FindStringSubmatch(sectionStr); match != nil {
@@ -366,24 +371,7 @@ func ParseTrailerDataRaw(pdfBytes []byte, startXRef int64, eofOffset int) (*Trai
 			trailer.Prev, _ = strconv.ParseInt(match[1], 10, 64)
 		}
 
-		// Find dictionary boundaries for RawBytes
-		dictStart := bytes.Index(section, []byte("<<"))
-		if dictStart != -1 {
-			// Find matching >>
-			depth := 1
-			dictEnd := dictStart + 2
-			for dictEnd < len(section) && depth > 0 {
-				if dictEnd+1 < len(section) && section[dictEnd] == '<' && section[dictEnd+1] == '<' {
-					depth++
-					dictEnd++
-				} else if dictEnd+1 < len(section) && section[dictEnd] == '>' && section[dictEnd+1] == '>' {
-					depth--
-					dictEnd++
-				}
-				dictEnd++
-			}
-			trailer.RawBytes = section[dictStart:dictEnd]
-		}
+		trailer.RawBytes = []byte(sectionStr)
 
 		return trailer, nil
 	}
diff --git a/core/parse/incremental.go b/core/parse/incremental.go
index e533f14..685514d 100644
--- a/core/parse/incremental.go
+++ b/core/parse/incremental.go
@@ -102,19 +102,26 @@ func (p *incrementalParser) findLastStartXRef() (int64, error) {
 		return 0, fmt.Errorf("no %%EOF marker found")
 	}
 
-	// Take the last %%EOF
-	lastEOF := eofMatches[len(eofMatches)-1][0]
+	// Take the last %%EOF that has a startxref right before it
+	startxrefPattern := regexp.MustCompile(`startxref\s+(\d+)`)
+	var match []string
+	lastEOF := 0
+	for i := len(eofMatches) - 1; i >= 0 && match == nil; i-- {
+		lastEOF = eofMatches[i][0]
+
+		// Search backwards from %%EOF for startxref
+		searchStart := lastEOF - 100
+		if searchStart < 0 {
+			searchStart = 0
+		}
 
-	// Search backwards from %%EOF for startxref
-	searchStart := lastEOF - 100
-	if searchStart < 0 {
-		searchStart = 0
+		searchSection := pdfStr[searchStart:lastEOF]
+		matches := startxrefPattern.FindAllStringSubmatch(searchSection, -1)
+		if len(matches) > 0 {
+			match = matches[len(matches)-1]
+		}
 	}
 
-	searchSection := pdfStr[searchStart:lastEOF]
-	startxrefPattern := regexp.MustCompile(`startxref\s+(\d+)`)
-	match := startxrefPattern.FindStringSubmatch(searchSection)
-
 	if match == nil {
 		return 0, fmt.Errorf("startxref not found before %%EOF")
 	}
@@ -167,6 +174,10 @@ func (p *incrementalParser) parseXRefChain(startXRef int64) error {
 	// Parse each section
 	for _, offset := range offsets {
 		section, err := p.parsexrefSection(offset)
+		if err != nil && offset == startXRef {
+			// without the latest section everything would silently be outdated
+			return err
+		}
 		if err != nil {
 			if p.verbose {
 				fmt.Printf("Warning: failed to parse xref at offset %d: %v\n", offset, err)
@@ -185,7 +196,7 @@ func (p *incrementalParser) parseXRefChain(startXRef int64) error {
 
 // findPrevOffset finds the /Prev value in the trailer at the given xref offset
 func (p *incrementalParser) findPrevOffset(startXRef int64) (int64, error) {
-	if startXRef >= int64(len(p.pdfBytes)) {
+	if startXRef < 0 || startXRef >= int64(len(p.pdfBytes)) {
 		return 0, fmt.Errorf("startXRef out of bounds")
 	}
 
@@ -194,38 +205,12 @@ func (p *incrementalParser) findPrevOffset(startXRef int64) (int64, error) {
 	// Check if this is an xref stream or traditional xref
 	if bytes.HasPrefix(section, []byte("xref")) {
 		// Traditional xref - find trailer and /Prev
-		trailerIdx := bytes.Index(section, []byte("trailer"))
-		if trailerIdx == -1 {
+		_, trailer := traditionalXRef(section)
+		if trailer == nil {
 			return 0, fmt.Errorf("no trailer found")
 		}
 
-		// Find the end of the trailer dictionary (>>)
-		trailerStart := trailerIdx + 7 // len("trailer")
-		dictStart := bytes.Index(section[trailerStart:], []byte("<<"))
-		if dictStart == -1 {
-			return 0, fmt.Errorf("trailer dictionary not found")
-		}
-		dictStart += trailerStart
-
-		// Find matching >> for trailer dict
-		depth := 1
-		dictEnd := dictStart + 2
-		for dictEnd < len(section) && depth > 0 {
-			if dictEnd+1 < len(section) && section[dictEnd] == '<' && section[dictEnd+1] == '<' {
-				depth++
-				dictEnd++
-			} else if dictEnd+1 < len(section) && section[dictEnd] == '>' && section[dictEnd+1] == '>' {
-				depth--
-				if depth == 0 {
-					dictEnd += 2
-					break
-				}
-				dictEnd++
-			}
-			dictEnd++
-		}
-
-		trailerDict := string(section[dictStart:dictEnd])
+		trailerDict := string(trailer)
 		prevPattern := regexp.MustCompile(`/Prev\s+(\d+)`)
 		match := prevPattern.FindStringSubmatch(trailerDict)
 		if match == nil {
@@ -236,13 +221,7 @@ func (p *incrementalParser) findPrevOffset(startXRef int64) (int64, error) {
 	}
 
 	// Cross-reference stream - /Prev is in the stream dictionary
-	// Find the dictionary end (before "stream" keyword)
-	streamIdx := bytes.Index(section, []byte("stream"))
-	if streamIdx == -1 {
-		streamIdx = min(2000, len(section))
-	}
-
-	dictSection := string(section[:streamIdx])
+	dictSection := xrefStreamDict(section)
 	prevPattern := regexp.MustCompile(`/Prev\s+(\d+)`)
 	match := prevPattern.FindStringSubmatch(dictSection)
 	if match == nil {
@@ -254,7 +233,7 @@ func (p *incrementalParser) findPrevOffset(startXRef int64) (int64, error) {
 
 // parsexrefSection parses a single xref section at the given offset
 func (p *incrementalParser) parsexrefSection(startXRef int64) (*xrefSection, error) {
-	if startXRef >= int64(len(p.pdfBytes)) {
+	if startXRef < 0 || startXRef >= int64(len(p.pdfBytes)) {
 		return nil, fmt.Errorf("startXRef out of bounds: %d >= %d", startXRef, len(p.pdfBytes))
 	}
 
@@ -286,11 +265,10 @@ func (p *incrementalParser) parseTraditionalxrefSection(startXRef int64) (*xrefS
 		Free:      make(map[int]bool),
 	}
 
-	xrefData := p.pdfBytes[startXRef:]
-	xrefStr := string(xrefData[:min(10000, len(xrefData))])
+	table, trailer := traditionalXRef(p.pdfBytes[startXRef:])
 
 	// Parse xref entries
-	lines := regexp.MustCompile(`\r?\n`).Split(xrefStr, -1)
+	lines := regexp.MustCompile(`\r\n|\r|\n`).Split(string(table), -1)
 
 	currentObjNum := 0
 	inSubsection := false
@@ -340,49 +318,23 @@ func (p *incrementalParser) parseTraditionalxrefSection(startXRef int64) (*xrefS
 	}
 
 	// Parse trailer for /Root, /Encrypt, /Prev, /Size
-	trailerIdx := bytes.Index(xrefData, []byte("trailer"))
-	if trailerIdx != -1 {
-		// Find the trailer dictionary bounds
-		trailerStart := trailerIdx + 7 // len("trailer")
-		dictStart := bytes.Index(xrefData[trailerStart:], []byte("<<"))
-		if dictStart != -1 {
-			dictStart += trailerStart
-
-			// Find matching >>
-			depth := 1
-			dictEnd := dictStart + 2
-			for dictEnd < len(xrefData) && depth > 0 {
-				if dictEnd+1 < len(xrefData) && xrefData[dictEnd] == '<' && xrefData[dictEnd+1] == '<' {
-					depth++
-					dictEnd++
-				} else if dictEnd+1 < len(xrefData) && xrefData[dictEnd] == '>' && xrefData[dictEnd+1] == '>' {
-					depth--
-					if depth == 0 {
-						dictEnd += 2
-						break
-					}
-					dictEnd++
-				}
-				dictEnd++
-			}
-
-			trailerDict := string(xrefData[dictStart:dictEnd])
+	if trailer != nil {
+		trailerDict := string(trailer)
 
-			if match := regexp.MustCompile(`/Root\s+(\d+\s+\d+\s+R)`).FindStringSubmatch(trailerDict); match != nil {
-				section.Root = match[1]
-			}
-			if match := regexp.MustCompile(`/Info\s+(\d+\s+\d+\s+R)`).FindStringSubmatch(trailerDict); match != nil {
-				section.Info = match[1]
-			}
-			if match := regexp.MustCompile(`/Encrypt\s+(\d+\s+\d+\s+R)`).FindStringSubmatch(trailerDict); match != nil {
-				section.Encrypt = match[1]
-			}
-			if match := regexp.MustCompile(`/Prev\s+(\d+)`).FindStringSubmatch(trailerDict); match != nil {
-				section.Prev, _ = strconv.ParseInt(match[1], 10, 64)
-			}
-			if match := regexp.MustCompile(`/Size\s+(\d+)`).FindStringSubmatch(trailerDict); match != nil {
-				section.Size, _ = strconv.Atoi(match[1])
-			}
+		if match := regexp.MustCompile(`/Root\s+(\d+\s+\d+\s+R)`).FindStringSubmatch(trailerDict); match != nil {
+			section.Root = match[1]
+		}
+		if match := regexp.MustCompile(`/Info\s+(\d+\s+\d+\s+R)`).FindStringSubmatch(trailerDict); match != nil {
+			section.Info = match[1]
+		}
+		if match := regexp.MustCompile(`/Encrypt\s+(\d+\s+\d+\s+R)`).FindStringSubmatch(trailerDict); match != nil {
+			section.Encrypt = match[1]
+		}
+		if match := regexp.MustCompile(`/Prev\s+(\d+)`).FindStringSubmatch(trailerDict); match != nil {
+			section.Prev, _ = strconv.ParseInt(match[1], 10, 64)
+		}
+		if match := regexp.MustCompile(`/Size\s+(\d+)`).FindStringSubmatch(trailerDict); match != nil {
+			section.Size, _ = strconv.Atoi(match[1])
 		}
 	}
 
@@ -413,8 +365,7 @@ func (p *incrementalParser) parseXRefStreamSection(startXRef int64) (*xrefSectio
 	section.Free = result.Free
 
 	// Extract trailer info from stream dictionary
-	xrefData := p.pdfBytes[startXRef:]
-	xrefStr := string(xrefData[:min(2000, len(xrefData))])
+	xrefStr := xrefStreamDict(p.pdfBytes[startXRef:])
 
 	if match := regexp.MustCompile(`/Root\s+(\d+\s+\d+\s+R)`).FindStringSubmatch(xrefStr); match != nil {
 		section.Root = match[1]
diff --git a/core/parse/parser.go b/core/parse/parser.go
index 0c8b7d7..8ce506d 100644
--- a/core/parse/parser.go
+++ b/core/parse/parser.go
@@ -157,9 +157,13 @@ func ParseCrossReferenceTableWithEncryption(pdfBytes []byte, startXRef int64, en
 func ParseTraditionalXRefTable(pdfBytes []byte, startXRef int64) (map[int]int64, error) {
 	objMap := make(map[int]int64)
 
-	// Read from startxref position
-	xrefSection := pdfBytes[startXRef:]
-	xrefStr := string(xrefSection[:min(10000, len(xrefSection))])
+	if startXRef < 0 || startXRef >= int64(len(pdfBytes)) {
+		return nil, fmt.Errorf("invalid startxref offset: %d", startXRef)
+	}
+
+	// Read from startxref position up to the trailer
+	table, _ := traditionalXRef(pdfBytes[startXRef:])
+	xrefStr := string(table)
 
 	// Find xref keyword
 	xrefPos := strings.Index(xrefStr, "xref")
@@ -172,7 +176,7 @@ func ParseTraditionalXRefTable(pdfBytes []byte, startXRef int64) (map[int]int64,
 	// - First line after "xref": "0 N" means starting object 0, N entries
 	// - Subsequent lines: "offset generation f" or "offset generation n"
 	//   where f=free, n=in-use
-	lines := strings.Split(xrefStr[xrefPos:], "\n")
+	lines := regexp.MustCompile(`\r\n|\r|\n`).Split(xrefStr[xrefPos:], -1)
 
 	currentObjNum := 0
 	inSubsection := false
diff --git a/core/parse/scan.go b/core/parse/scan.go
index 6fd4573..d80c31b 100644
--- a/core/parse/scan.go
+++ b/core/parse/scan.go
@@ -243,3 +243,58 @@ func SetLength(dict []byte, n int) []byte {
 	}
 	return append(append(append(append([]byte{}, dict[:end]...), " /Length "...), value...), dict[end:]...)
 }
+
+// dictEnd returns the end of the dictionary that starts with "<<" at start, or -1.
+func dictEnd(data []byte, start int) int {
+	depth := 0
+	for pos := start; ; {
+		pos = skipSpace(data, pos)
+		end := scanToken(data, pos)
+		if end <= pos {
+			return -1
+		}
+		switch string(data[pos:end]) {
+		case "<<":
+			depth++
+		case ">>":
+			depth--
+			if depth == 0 {
+				return end
+			}
+		}
+		pos = end
+	}
+}
+
+// traditionalXRef returns the table of a traditional cross-reference section that
+// starts with "xref" (everything before "trailer") and its trailer dictionary, which
+// is nil if there is none.
+func traditionalXRef(section []byte) (table, trailer []byte) {
+	trailerIdx := bytes.Index(section, []byte("trailer"))
+	if trailerIdx == -1 {
+		return section, nil
+	}
+	table = section[:trailerIdx]
+	start := skipSpace(section, trailerIdx+len("trailer"))
+	if !bytes.HasPrefix(section[start:], []byte("<<")) {
+		return table, nil
+	}
+	if end := dictEnd(section, start); end != -1 {
+		trailer = section[start:end]
+	}
+	return table, trailer
+}
+
+// xrefStreamDict returns the dictionary of the cross-reference stream that section
+// starts with, or "" if there is none.
+func xrefStreamDict(section []byte) string {
+	start := bytes.Index(section, []byte("<<"))
+	if start == -1 {
+		return ""
+	}
+	end := dictEnd(section, start)
+	if end == -1 {
+		return ""
+	}
+	return string(section[start:end])
+}
-- 
2.43.0


From 4dc1a4c475e3e25a108a20c3b663fab0e1e21cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:06 +0000
Subject: [PATCH 24/99] fix: find the encryption dictionary and the file
 identifier through the trailer and read their strings; an unreadable one is
 an error

---
 core/encrypt/key_derivation.go |  61 ++-----
 core/encrypt/parser.go         | 281 ++++-----------------------------
 core/encrypt/trailer.go        | 201 +++++++++++++++++++++++
 core/parse/api.go              |   8 +-
 4 files changed, 248 insertions(+), 303 deletions(-)
 create mode 100644 core/encrypt/trailer.go

diff --git a/core/encrypt/key_derivation.go b/core/encrypt/key_derivation.go
index bbbb6cb..1c47e6d 100644
--- a/core/encrypt/key_derivation.go
+++ b/core/encrypt/key_derivation.go
@@ -277,64 +277,23 @@ func DeriveUserKeyFromOwner(ownerKey []byte, encrypt *types.PDFEncryption, verbo
 // Returns the first element of the ID array (ID[0])
 // File ID can be in hex format: <7FB157EB...> or binary: (binary data)
 func ExtractFileID(pdfBytes []byte, verbose bool) []byte {
-	pdfStr := string(pdfBytes)
-
-	// Find /ID in trailer - format: /ID [ <hex1> <hex2> ] or /ID [ (binary1) (binary2) ]
-	// Try hex format first: /ID[<hex><hex>] or /ID [<hex><hex>]
-	hexIDPattern := regexp.MustCompile(`/ID\s*\[\s*<([0-9A-Fa-f]+)>`)
-	hexMatch := hexIDPattern.FindStringSubmatch(pdfStr)
-	if hexMatch != nil {
-		// Decode hex string
-		hexStr := hexMatch[1]
-		fileID := parseHexString(hexStr)
-		if len(fileID) > 0 {
-			if verbose {
-				log.Printf("Extracted file ID[0] (hex): %d bytes, hex: %x", len(fileID), fileID)
-			}
-			return fileID
-		}
-	}
-
-	// Try alternative pattern without space: /ID[<hex>
-	hexIDPattern2 := regexp.MustCompile(`/ID\[<([0-9A-Fa-f]+)>`)
-	hexMatch2 := hexIDPattern2.FindStringSubmatch(pdfStr)
-	if hexMatch2 != nil {
-		hexStr := hexMatch2[1]
-		fileID := parseHexString(hexStr)
-		if len(fileID) > 0 {
-			if verbose {
-				log.Printf("Extracted file ID[0] (hex, alt pattern): %d bytes, hex: %x", len(fileID), fileID)
-			}
-			return fileID
+	value, read := trailerEntry(pdfBytes, "ID")
+	if value == nil && !read {
+		if at := regexp.MustCompile(`/ID\s*\[\s*[<(]`).FindIndex(pdfBytes); at != nil {
+			value = pdfBytes[bytes.IndexByte(pdfBytes[at[0]:], '[')+at[0]:]
 		}
 	}
-
-	// Try binary format: /ID [ (binary1) (binary2) ]
-	idPattern := regexp.MustCompile(`/ID\s*\[\s*\(`)
-	match := idPattern.FindStringIndex(pdfStr)
-	if match != nil {
-		// Find the first binary string in parentheses
-		idStart := match[1] - 1 // Position of '('
-		parenStart := bytes.Index(pdfBytes[idStart:], []byte("("))
-		if parenStart != -1 {
-			parenStart += idStart + 1
-			parenEnd := bytes.Index(pdfBytes[parenStart:], []byte(")"))
-			if parenEnd != -1 {
-				fileID := pdfBytes[parenStart : parenStart+parenEnd]
-				if verbose {
-					log.Printf("Extracted file ID[0] (binary): %d bytes, hex: %x", len(fileID), fileID[:min(16, len(fileID))])
-				}
-				return fileID
-			}
-		}
+	fileID := []byte{}
+	if len(value) > 0 && value[0] == '[' {
+		fileID = append(fileID, stringValue(value[skipSpace(value, 1):])...)
 	}
 
 	if verbose {
-		log.Printf("No file ID found in trailer")
+		log.Printf("Extracted file ID[0]: %d bytes, hex: %x", len(fileID), fileID[:min(16, len(fileID))])
 	}
 
-	// Return empty if not found (some PDFs work without file ID)
-	return []byte{}
+	// Empty if not found (some PDFs work without file ID)
+	return fileID
 }
 
 // parseHexString parses a hex string like "0123456789ABCDEF" to bytes
diff --git a/core/encrypt/parser.go b/core/encrypt/parser.go
index d903da2..1cbb2b6 100644
--- a/core/encrypt/parser.go
+++ b/core/encrypt/parser.go
@@ -1,11 +1,8 @@
 package encrypt
 
 import (
-	"bytes"
 	"fmt"
 	"log"
-	"regexp"
-	"strconv"
 	"strings"
 
 	"github.com/benedoc-inc/pdfer/types"
@@ -13,121 +10,23 @@ import (
 
 // ParseEncryptionDictionary parses the /Encrypt dictionary from PDF
 func ParseEncryptionDictionary(pdfBytes []byte, verbose bool) (*types.PDFEncryption, error) {
-	pdfStr := string(pdfBytes)
-
-	// Find /Encrypt reference in trailer
-	encryptPattern := regexp.MustCompile(`/Encrypt\s+(\d+)\s+(\d+)\s+R`)
-	encryptMatch := encryptPattern.FindStringSubmatchIndex(pdfStr)
-
-	var encryptObjNum int
-	var err error
-
-	if encryptMatch == nil {
-		return nil, fmt.Errorf("/Encrypt dictionary not found")
-	}
-
-	encryptObjNum, err = strconv.Atoi(pdfStr[encryptMatch[2]:encryptMatch[3]])
+	entries, encryptObjNum, err := encryptionDictionary(pdfBytes)
 	if err != nil {
-		return nil, fmt.Errorf("invalid Encrypt object number: %v", err)
+		return nil, err
 	}
 
 	if verbose {
 		log.Printf("Found /Encrypt dictionary: object %d", encryptObjNum)
 	}
 
-	// Find the Encrypt object
-	objPattern := []byte(fmt.Sprintf("%d 0 obj", encryptObjNum))
-	objIndex := bytes.Index(pdfBytes, objPattern)
-	if objIndex == -1 {
-		return nil, fmt.Errorf("Encrypt object %d not found", encryptObjNum)
-	}
-
-	// Find dictionary content - need to handle nested dictionaries
-	dictStart := bytes.Index(pdfBytes[objIndex:], []byte("<<"))
-	if dictStart == -1 {
-		return nil, fmt.Errorf("Encrypt dictionary start not found")
-	}
-	dictStart += objIndex
-
-	// Find matching >> (handle nested dictionaries)
-	depth := 0
-	dictEnd := dictStart
-	for i := dictStart; i < len(pdfBytes) && i < dictStart+2000; i++ {
-		if i+1 < len(pdfBytes) && pdfBytes[i] == '<' && pdfBytes[i+1] == '<' {
-			depth++
-			i++ // Skip second '<'
-		} else if i+1 < len(pdfBytes) && pdfBytes[i] == '>' && pdfBytes[i+1] == '>' {
-			depth--
-			if depth == 0 {
-				dictEnd = i + 2
-				break
-			}
-			i++ // Skip second '>'
-		}
-	}
-
-	if dictEnd == dictStart {
-		return nil, fmt.Errorf("Encrypt dictionary end not found")
-	}
-
-	dictContent := pdfStr[dictStart:dictEnd]
-
-	if verbose {
-		log.Printf("Encrypt dictionary content (first 200 chars): %s", dictContent[:min(200, len(dictContent))])
-	}
-
-	encrypt := &types.PDFEncryption{ObjNum: encryptObjNum}
-
-	// Parse /Filter
-	filterPattern := regexp.MustCompile(`/Filter\s+/(\w+)`)
-	if match := filterPattern.FindStringSubmatch(dictContent); match != nil {
-		encrypt.Filter = match[1]
-	}
-
-	// Parse /V (encryption version) - must be at top level, not in nested dicts
-	vPattern := regexp.MustCompile(`/V\s+(\d+)`)
-	matches := vPattern.FindAllStringSubmatch(dictContent, -1)
-	// Take the first match that's not inside a nested dictionary structure
-	for _, match := range matches {
-		// Check if it's at top level (simple heuristic: not immediately after /CF or /StdCF)
-		matchPos := strings.Index(dictContent, match[0])
-		beforeMatch := dictContent[:matchPos]
-		// If we see /CF or /StdCF before this, it's nested - skip
-		if !strings.Contains(beforeMatch[max(0, len(beforeMatch)-50):], "/CF") &&
-			!strings.Contains(beforeMatch[max(0, len(beforeMatch)-50):], "/StdCF") {
-			encrypt.V, _ = strconv.Atoi(match[1])
-			break
-		}
-	}
-
-	// Parse /R (revision) - must be at top level
-	rPattern := regexp.MustCompile(`/R\s+(\d+)`)
-	matches = rPattern.FindAllStringSubmatch(dictContent, -1)
-	for _, match := range matches {
-		matchPos := strings.Index(dictContent, match[0])
-		beforeMatch := dictContent[:matchPos]
-		if !strings.Contains(beforeMatch[max(0, len(beforeMatch)-50):], "/CF") &&
-			!strings.Contains(beforeMatch[max(0, len(beforeMatch)-50):], "/StdCF") {
-			encrypt.R, _ = strconv.Atoi(match[1])
-			break
-		}
-	}
-
-	// Parse /Length (key length in bits) - look for top-level /Length
-	// Note: There may be nested /Length in /CF dictionaries, we want the top-level one
-	lengthPattern := regexp.MustCompile(`/Length\s+(\d+)`)
-	matches = lengthPattern.FindAllStringSubmatch(dictContent, -1)
-	for _, match := range matches {
-		matchPos := strings.Index(dictContent, match[0])
-		beforeMatch := dictContent[:matchPos]
-		// Top-level /Length should not be inside /CF
-		if !strings.Contains(beforeMatch[max(0, len(beforeMatch)-50):], "/CF") {
-			keyBits, _ := strconv.Atoi(match[1])
-			if keyBits > 0 {
-				encrypt.KeyLength = keyBits / 8
-				break
-			}
-		}
+	encrypt := &types.PDFEncryption{
+		ObjNum: encryptObjNum,
+		Filter: strings.TrimPrefix(string(entries["Filter"]), "/"),
+		V:      int(leadingInt(entries["V"])),
+		R:      int(leadingInt(entries["R"])),
+		P:      int32(leadingInt(entries["P"])),
+		O:      stringValue(entries["O"]),
+		U:      stringValue(entries["U"]),
 	}
 
 	// Set defaults if not found
@@ -137,152 +36,34 @@ func ParseEncryptionDictionary(pdfBytes []byte, verbose bool) (*types.PDFEncrypt
 	if encrypt.R == 0 {
 		encrypt.R = 4 // Default revision
 	}
-	if encrypt.KeyLength == 0 {
-		// Default key length based on revision
-		if encrypt.R == 2 {
-			encrypt.KeyLength = 5 // 40 bits
-		} else if encrypt.R >= 5 {
-			encrypt.KeyLength = 32 // 256 bits for AES-256 (V5/R5/R6)
-		} else {
-			encrypt.KeyLength = 16 // 128 bits for AES-128 (V4/R4)
-		}
-	}
 
-	// Parse /O (owner password hash) - binary data in parentheses or hex string
-	// Try hex format first: /O <hex>
-	oHexPattern := regexp.MustCompile(`/O\s*<([0-9A-Fa-f]+)>`)
-	oHexMatch := oHexPattern.FindStringSubmatch(dictContent)
-	if oHexMatch != nil {
-		hexStr := oHexMatch[1]
-		encrypt.O = parseHexString(hexStr)
-		if verbose {
-			log.Printf("Extracted O value (hex): %d bytes", len(encrypt.O))
-		}
-	} else {
-		// Try binary format: /O (binary)
-		oPattern := regexp.MustCompile(`/O\s*\(`)
-		oMatch := oPattern.FindStringIndex(dictContent)
-		if oMatch != nil {
-			oStartInDict := dictStart + oMatch[1] - 1 // Position of '('
-			parenStart := bytes.Index(pdfBytes[oStartInDict:], []byte("("))
-			if parenStart != -1 {
-				parenStart += oStartInDict + 1
-				parenEnd := bytes.Index(pdfBytes[parenStart:], []byte(")"))
-				if parenEnd != -1 {
-					encrypt.O = make([]byte, parenEnd)
-					copy(encrypt.O, pdfBytes[parenStart:parenStart+parenEnd])
-					if verbose {
-						log.Printf("Extracted O value (binary): %d bytes", len(encrypt.O))
-					}
-				}
-			}
+	// Key length in bytes
+	bits := leadingInt(entries["Length"])
+	switch {
+	case encrypt.R >= 5:
+		encrypt.KeyLength = 32 // 256 bits for AES-256 (V5/R5/R6)
+	case bits > 0:
+		if bits < 40 || bits > 128 || bits%8 != 0 {
+			return nil, fmt.Errorf("invalid key length: %d bits", bits)
 		}
+		encrypt.KeyLength = int(bits / 8)
+	case encrypt.R == 2:
+		encrypt.KeyLength = 5 // 40 bits
+	default:
+		encrypt.KeyLength = 16 // 128 bits for AES-128 (V4/R4)
 	}
 
-	// Parse /U (user password hash) - binary data in parentheses or hex string
-	// Try hex format first: /U <hex>
-	uHexPattern := regexp.MustCompile(`/U\s*<([0-9A-Fa-f]+)>`)
-	uHexMatch := uHexPattern.FindStringSubmatch(dictContent)
-	if uHexMatch != nil {
-		hexStr := uHexMatch[1]
-		encrypt.U = parseHexString(hexStr)
-		if verbose {
-			log.Printf("Extracted U value (hex): %d bytes", len(encrypt.U))
-		}
-	} else {
-		// Try binary format: /U (binary)
-		uPattern := regexp.MustCompile(`/U\s*\(`)
-		uMatch := uPattern.FindStringIndex(dictContent)
-		if uMatch != nil {
-			uStartInDict := dictStart + uMatch[1] - 1 // Position of '('
-			parenStart := bytes.Index(pdfBytes[uStartInDict:], []byte("("))
-			if parenStart != -1 {
-				parenStart += uStartInDict + 1
-				parenEnd := bytes.Index(pdfBytes[parenStart:], []byte(")"))
-				if parenEnd != -1 {
-					encrypt.U = make([]byte, parenEnd)
-					copy(encrypt.U, pdfBytes[parenStart:parenStart+parenEnd])
-					if verbose {
-						log.Printf("Extracted U value (binary): %d bytes", len(encrypt.U))
-					}
-				}
-			}
-		}
-	}
-
-	// Parse /P (permissions)
-	pPattern := regexp.MustCompile(`/P\s+(-?\d+)`)
-	if match := pPattern.FindStringSubmatch(dictContent); match != nil {
-		pVal, _ := strconv.ParseInt(match[1], 10, 32)
-		encrypt.P = int32(pVal)
-	}
-
-	// Parse /EncryptMetadata
-	if strings.Contains(dictContent, "/EncryptMetadata false") {
-		encrypt.EncryptMetadata = false
-	} else {
-		encrypt.EncryptMetadata = true
-	}
+	encrypt.EncryptMetadata = string(entries["EncryptMetadata"]) != "false"
 
-	// Parse /UE (encrypted user encryption key) - V5+ only
-	// Format: /UE <hex> or /UE (binary)
+	// Wrapped encryption keys - V5+ only
 	if encrypt.R >= 5 {
-		ueHexPattern := regexp.MustCompile(`/UE\s*<([0-9A-Fa-f]+)>`)
-		ueHexMatch := ueHexPattern.FindStringSubmatch(dictContent)
-		if ueHexMatch != nil {
-			hexStr := ueHexMatch[1]
-			encrypt.UE = parseHexString(hexStr)
-			if verbose {
-				log.Printf("Extracted UE value (hex): %d bytes", len(encrypt.UE))
-			}
-		} else {
-			uePattern := regexp.MustCompile(`/UE\s*\(`)
-			ueMatch := uePattern.FindStringIndex(dictContent)
-			if ueMatch != nil {
-				ueStartInDict := dictStart + ueMatch[1] - 1
-				parenStart := bytes.Index(pdfBytes[ueStartInDict:], []byte("("))
-				if parenStart != -1 {
-					parenStart += ueStartInDict + 1
-					parenEnd := bytes.Index(pdfBytes[parenStart:], []byte(")"))
-					if parenEnd != -1 {
-						encrypt.UE = make([]byte, parenEnd)
-						copy(encrypt.UE, pdfBytes[parenStart:parenStart+parenEnd])
-						if verbose {
-							log.Printf("Extracted UE value (binary): %d bytes", len(encrypt.UE))
-						}
-					}
-				}
-			}
-		}
+		encrypt.UE = stringValue(entries["UE"])
+		encrypt.OE = stringValue(entries["OE"])
+	}
 
-		// Parse /OE (encrypted owner encryption key) - V5+ only
-		oeHexPattern := regexp.MustCompile(`/OE\s*<([0-9A-Fa-f]+)>`)
-		oeHexMatch := oeHexPattern.FindStringSubmatch(dictContent)
-		if oeHexMatch != nil {
-			hexStr := oeHexMatch[1]
-			encrypt.OE = parseHexString(hexStr)
-			if verbose {
-				log.Printf("Extracted OE value (hex): %d bytes", len(encrypt.OE))
-			}
-		} else {
-			oePattern := regexp.MustCompile(`/OE\s*\(`)
-			oeMatch := oePattern.FindStringIndex(dictContent)
-			if oeMatch != nil {
-				oeStartInDict := dictStart + oeMatch[1] - 1
-				parenStart := bytes.Index(pdfBytes[oeStartInDict:], []byte("("))
-				if parenStart != -1 {
-					parenStart += oeStartInDict + 1
-					parenEnd := bytes.Index(pdfBytes[parenStart:], []byte(")"))
-					if parenEnd != -1 {
-						encrypt.OE = make([]byte, parenEnd)
-						copy(encrypt.OE, pdfBytes[oeStartInDict:oeStartInDict+parenEnd])
-						if verbose {
-							log.Printf("Extracted OE value (binary): %d bytes", len(encrypt.OE))
-						}
-					}
-				}
-			}
-		}
+	if verbose {
+		log.Printf("Encrypt dictionary: O %d bytes, U %d bytes, UE %d bytes, OE %d bytes",
+			len(encrypt.O), len(encrypt.U), len(encrypt.UE), len(encrypt.OE))
 	}
 
 	return encrypt, nil
diff --git a/core/encrypt/trailer.go b/core/encrypt/trailer.go
new file mode 100644
index 0000000..335c59e
--- /dev/null
+++ b/core/encrypt/trailer.go
@@ -0,0 +1,201 @@
+package encrypt
+
+import (
+	"bytes"
+	"errors"
+	"fmt"
+	"regexp"
+	"strconv"
+)
+
+// ErrNotEncrypted says that the PDF has no encryption dictionary.
+var ErrNotEncrypted = errors.New("/Encrypt dictionary not found")
+
+// trailerEntry finds key in the trailer of the latest revision or, when it is not
+// there, in those of its predecessors. read is false when the file has no
+// cross-reference section to start from.
+func trailerEntry(pdf []byte, key string) (value []byte, read bool) {
+	at := bytes.LastIndex(pdf, []byte("startxref"))
+	if at == -1 {
+		return nil, false
+	}
+	pos := int(leadingInt(pdf[at+len("startxref"):]))
+	seen := map[int]bool{}
+	for pos > 0 && pos < len(pdf) && !seen[pos] {
+		seen[pos] = true
+		start := pos
+		if i := skipSpace(pdf, pos); bytes.HasPrefix(pdf[i:], []byte("xref")) {
+			i = bytes.Index(pdf[i:], []byte("trailer"))
+			if i == -1 {
+				return nil, read
+			}
+			start = skipSpace(pdf, pos) + i + len("trailer")
+		} else if m := objectHeader.FindIndex(pdf[i:min(i+64, len(pdf))]); m != nil {
+			start = i + m[1]
+		} else {
+			return nil, read
+		}
+		entries, _, err := dictEntries(pdf, start)
+		if err != nil {
+			return nil, read
+		}
+		read = true
+		if v := entries[key]; v != nil {
+			return v, true
+		}
+		pos = int(leadingInt(entries["Prev"]))
+	}
+	return nil, read
+}
+
+var (
+	objectHeader = regexp.MustCompile(`^\d+\s+\d+\s+obj\b`)
+	reference    = regexp.MustCompile(`^(\d+)\s+(\d+)\s+R\b`)
+)
+
+// encryptionDictionary returns the entries of the encryption dictionary and the
+// number of the object that holds it, 0 if it is part of the trailer.
+func encryptionDictionary(pdf []byte) (map[string][]byte, int, error) {
+	value, read := trailerEntry(pdf, "Encrypt")
+	if value == nil {
+		if read {
+			return nil, 0, ErrNotEncrypted
+		}
+		m := regexp.MustCompile(`/Encrypt\s+(\d+\s+\d+\s+R)`).FindSubmatch(pdf)
+		if m == nil {
+			return nil, 0, ErrNotEncrypted
+		}
+		value = m[1]
+	}
+	if bytes.HasPrefix(value, []byte("<<")) {
+		entries, _, err := dictEntries(value, 0)
+		return entries, 0, err
+	}
+	ref := reference.FindSubmatch(value)
+	if ref == nil {
+		if string(value) == "null" {
+			return nil, 0, ErrNotEncrypted
+		}
+		return nil, 0, fmt.Errorf("invalid /Encrypt entry")
+	}
+	objNum, err := strconv.Atoi(string(ref[1]))
+	if err != nil {
+		return nil, 0, fmt.Errorf("invalid Encrypt object number: %v", err)
+	}
+	header := regexp.MustCompile(fmt.Sprintf(`(?:^|[^0-9])0*%d\s+0*%s\s+obj\b`, objNum, ref[2]))
+	matches := header.FindAllIndex(pdf, -1)
+	for i := len(matches) - 1; i >= 0; i-- {
+		entries, _, err := dictEntries(pdf, matches[i][1])
+		if err == nil && entries["O"] != nil && entries["U"] != nil {
+			return entries, objNum, nil
+		}
+	}
+	return nil, 0, fmt.Errorf("Encrypt object %d not found", objNum)
+}
+
+// dictEntries returns the raw values of the dictionary at pos by key and its end.
+func dictEntries(data []byte, pos int) (map[string][]byte, int, error) {
+	pos = skipSpace(data, pos)
+	if !bytes.HasPrefix(data[pos:], []byte("<<")) {
+		return nil, 0, fmt.Errorf("dictionary expected")
+	}
+	entries := map[string][]byte{}
+	key, start := "", -1
+	add := func(end int) {
+		if key != "" && start != -1 {
+			entries[key] = bytes.TrimSpace(data[start:end])
+		}
+	}
+	depth := 0
+	for i := pos + 2; i < len(data); {
+		switch c := data[i]; {
+		case c == '%':
+			for i < len(data) && data[i] != '\r' && data[i] != '\n' {
+				i++
+			}
+			continue
+		case c == '(':
+			_, end := literalString(data, i)
+			if end == -1 {
+				return nil, 0, fmt.Errorf("string is not closed")
+			}
+			i = end
+			continue
+		case c == '<' && i+1 < len(data) && data[i+1] == '<':
+			depth++
+			i += 2
+			continue
+		case c == '>' && i+1 < len(data) && data[i+1] == '>':
+			if depth == 0 {
+				add(i)
+				return entries, i + 2, nil
+			}
+			depth--
+			i += 2
+			continue
+		case c == '[':
+			depth++
+		case c == ']':
+			depth--
+		case c == '/':
+			end := i + 1
+			for end < len(data) && !isSpace(data[end]) && bytes.IndexByte([]byte("()<>[]{}/%"), data[end]) == -1 {
+				end++
+			}
+			if depth == 0 && (start == -1 || len(bytes.TrimSpace(data[start:i])) > 0) {
+				add(i)
+				key, start = string(data[i+1:end]), end
+			}
+			i = end
+			continue
+		}
+		i++
+	}
+	return nil, 0, fmt.Errorf("dictionary is not closed")
+}
+
+// stringValue decodes a literal or hexadecimal string.
+func stringValue(value []byte) []byte {
+	switch {
+	case len(value) == 0:
+		return nil
+	case value[0] == '(':
+		s, end := literalString(value, 0)
+		if end == -1 {
+			return nil
+		}
+		return s
+	case value[0] == '<':
+		end := bytes.IndexByte(value, '>')
+		if end == -1 {
+			return nil
+		}
+		return hexString(value[1:end])
+	}
+	return nil
+}
+
+func isSpace(c byte) bool {
+	return c == ' ' || c == '\n' || c == '\r' || c == '\t' || c == '\f' || c == 0
+}
+
+func skipSpace(data []byte, pos int) int {
+	for pos < len(data) && isSpace(data[pos]) {
+		pos++
+	}
+	return pos
+}
+
+// leadingInt reads the integer at the start of value, 0 if there is none.
+func leadingInt(value []byte) int64 {
+	i := skipSpace(value, 0)
+	end := i
+	for end < len(value) && (value[end] >= '0' && value[end] <= '9' || end == i && value[end] == '-') {
+		end++
+	}
+	n, err := strconv.ParseInt(string(value[i:end]), 10, 64)
+	if err != nil {
+		return 0
+	}
+	return n
+}
diff --git a/core/parse/api.go b/core/parse/api.go
index b8c4a7e..5957767 100644
--- a/core/parse/api.go
+++ b/core/parse/api.go
@@ -28,6 +28,8 @@
 package parse
 
 import (
+	"errors"
+
 	"github.com/benedoc-inc/pdfer/core/encrypt"
 	"github.com/benedoc-inc/pdfer/types"
 )
@@ -118,10 +120,12 @@ func OpenWithOptions(data []byte, opts ParseOptions) (*PDF, error) {
 func (p *PDF) handleEncryption() error {
 	// Try to parse encryption dictionary
 	enc, err := encrypt.ParseEncryptionDictionary(p.raw, p.opts.Verbose)
-	if err != nil {
-		// No encryption or parse error - assume unencrypted
+	if errors.Is(err, encrypt.ErrNotEncrypted) {
 		return nil
 	}
+	if err != nil {
+		return types.WrapError(types.ErrCodeDecryptionFailed, "cannot read the encryption dictionary", err)
+	}
 
 	if enc != nil {
 		// PDF is encrypted - validate password
-- 
2.43.0


From 432d3778fb53a9607a10f826db6883912de20035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:51 +0000
Subject: [PATCH 25/99] fix: derive the keys of RC4 and AES-128 documents with
 the padding string and the rounds of the standard

---
 core/encrypt/key_derivation.go | 92 +++++++++++++---------------------
 1 file changed, 36 insertions(+), 56 deletions(-)

diff --git a/core/encrypt/key_derivation.go b/core/encrypt/key_derivation.go
index 1c47e6d..c8ac8cc 100644
--- a/core/encrypt/key_derivation.go
+++ b/core/encrypt/key_derivation.go
@@ -16,6 +16,18 @@ import (
 	"github.com/benedoc-inc/pdfer/types"
 )
 
+// padPassword pads or truncates a password to 32 bytes with the padding string of
+// Algorithm 2.
+func padPassword(password []byte) []byte {
+	padding := []byte{
+		0x28, 0xBF, 0x4E, 0x5E, 0x4E, 0x75, 0x8A, 0x41,
+		0x64, 0x00, 0x4E, 0x56, 0xFF, 0xFA, 0x01, 0x08,
+		0x2E, 0x2E, 0x00, 0xB6, 0xD0, 0x68, 0x3E, 0x80,
+		0x2F, 0x0C, 0xA9, 0xFE, 0x64, 0x53, 0x69, 0x7A,
+	}
+	return append(append([]byte{}, password...), padding...)[:32]
+}
+
 // DeriveEncryptionKey derives the encryption key from password
 // Based on PDF encryption algorithm (ISO 32000) - Algorithm 2 (V1-V4) or 7.6.4.3.3 (V5+)
 func DeriveEncryptionKey(password []byte, encrypt *types.PDFEncryption, fileID []byte, verbose bool) ([]byte, error) {
@@ -23,30 +35,10 @@ func DeriveEncryptionKey(password []byte, encrypt *types.PDFEncryption, fileID [
 	if encrypt.R >= 5 {
 		return DeriveEncryptionKeyV5(password, encrypt, fileID, verbose)
 	}
-	// Pad or truncate password to 32 bytes
-	// According to PDF spec Algorithm 2:
-	// - If password is shorter than 32 bytes, pad by appending bytes from the password cyclically
-	// - For empty password, the padding string itself is used
-	paddingString := []byte{
-		0x28, 0xBF, 0x4E, 0x5E, 0x4E, 0x75, 0x8A, 0x41,
-		0x64, 0x00, 0x4E, 0x56, 0xFF, 0xFA, 0x01, 0x08,
-		0x2E, 0x2E, 0x00, 0xB6, 0xD0, 0x68, 0x3E, 0x80,
-		0x2F, 0x0C, 0xA9, 0xFE, 0x64, 0x53, 0x69, 0x7A,
-	}
-
-	paddedPassword := make([]byte, 32)
-	if len(password) == 0 {
-		// Empty password: use padding string directly
-		copy(paddedPassword, paddingString)
-	} else {
-		copy(paddedPassword, password)
-		if len(password) < 32 {
-			// Pad with password bytes cyclically
-			for i := len(password); i < 32; i++ {
-				paddedPassword[i] = password[i%len(password)]
-			}
-		}
+	if encrypt.KeyLength < 0 || encrypt.KeyLength > md5.Size {
+		return nil, fmt.Errorf("invalid key length: %d bytes", encrypt.KeyLength)
 	}
+	paddedPassword := padPassword(password)
 
 	// Step 1: Compute hash of padded password + O + P (as 32-bit int, little-endian) + ID[0]
 	hash := md5.New()
@@ -71,8 +63,8 @@ func DeriveEncryptionKey(password []byte, encrypt *types.PDFEncryption, fileID [
 		}
 	}
 
-	// If EncryptMetadata is false, add 4 bytes of 0xFFFFFFFF
-	if !encrypt.EncryptMetadata {
+	// For revision 4, if EncryptMetadata is false, add 4 bytes of 0xFFFFFFFF
+	if encrypt.R >= 4 && !encrypt.EncryptMetadata {
 		metadataBytes := []byte{0xFF, 0xFF, 0xFF, 0xFF}
 		hash.Write(metadataBytes)
 		if verbose {
@@ -201,26 +193,13 @@ func DeriveOwnerKey(ownerPassword []byte, encrypt *types.PDFEncryption, fileID [
 	if encrypt.R >= 5 {
 		return DeriveOwnerKeyV5(ownerPassword, encrypt, fileID, verbose)
 	}
-	// Pad owner password to 32 bytes
-	paddingString := []byte{
-		0x28, 0xBF, 0x4E, 0x5E, 0x4E, 0x75, 0x8A, 0x41,
-		0x64, 0x00, 0x4E, 0x56, 0xFF, 0xFA, 0x01, 0x08,
-		0x2E, 0x2E, 0x00, 0xB6, 0xD0, 0x68, 0x3E, 0x80,
-		0x2F, 0x0C, 0xA9, 0xFE, 0x64, 0x53, 0x69, 0x7A,
+	if encrypt.KeyLength < 0 || encrypt.KeyLength > md5.Size {
+		return nil, fmt.Errorf("invalid key length: %d bytes", encrypt.KeyLength)
 	}
-
-	paddedOwnerPassword := make([]byte, 32)
-	if len(ownerPassword) > 0 {
-		copy(paddedOwnerPassword, ownerPassword)
-		if len(ownerPassword) < 32 {
-			for i := len(ownerPassword); i < 32; i++ {
-				paddedOwnerPassword[i] = ownerPassword[i%len(ownerPassword)]
-			}
-		}
-	} else {
-		// Empty password - use padding string
-		copy(paddedOwnerPassword, paddingString)
+	if len(encrypt.O) < 32 {
+		return nil, fmt.Errorf("O value too short: %d bytes", len(encrypt.O))
 	}
+	paddedOwnerPassword := padPassword(ownerPassword)
 
 	// MD5 hash of padded owner password
 	hash := md5.New()
@@ -231,7 +210,7 @@ func DeriveOwnerKey(ownerPassword []byte, encrypt *types.PDFEncryption, fileID [
 	if encrypt.R >= 3 {
 		for i := 0; i < 50; i++ {
 			hash := md5.New()
-			hash.Write(ownerHash[:encrypt.KeyLength])
+			hash.Write(ownerHash)
 			ownerHash = hash.Sum(nil)
 		}
 	}
@@ -241,22 +220,23 @@ func DeriveOwnerKey(ownerPassword []byte, encrypt *types.PDFEncryption, fileID [
 		ownerHash = ownerHash[:encrypt.KeyLength]
 	}
 
-	// Decrypt O value using owner key
-	// O value is encrypted with RC4 using owner key
-	decryptedO := make([]byte, len(encrypt.O))
-	if encrypt.R == 2 {
-		cipher, err := rc4.NewCipher(ownerHash)
-		if err != nil {
-			return nil, err
+	// Decrypt O value using owner key: once for revision 2, 20 times with the key
+	// XORed with 19 down to 0 for revision 3 and later (Algorithm 7)
+	decryptedO := append([]byte{}, encrypt.O[:32]...)
+	rounds := 1
+	if encrypt.R >= 3 {
+		rounds = 20
+	}
+	for i := rounds - 1; i >= 0; i-- {
+		key := make([]byte, len(ownerHash))
+		for j := range key {
+			key[j] = ownerHash[j] ^ byte(i)
 		}
-		cipher.XORKeyStream(decryptedO, encrypt.O)
-	} else {
-		// Revision 3+: decrypt O with RC4, then use it to derive user key
-		cipher, err := rc4.NewCipher(ownerHash)
+		cipher, err := rc4.NewCipher(key)
 		if err != nil {
 			return nil, err
 		}
-		cipher.XORKeyStream(decryptedO, encrypt.O[:min(32, len(encrypt.O))])
+		cipher.XORKeyStream(decryptedO, decryptedO)
 	}
 
 	// Now derive user key from decrypted O (which is the user password hash)
-- 
2.43.0


From 43cd83607de002450d67b799308ac0bbb5e2169f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:07 +0000
Subject: [PATCH 26/99] fix: verify owner passwords against /O, check AES
 padding and key lengths

---
 core/encrypt/decrypt.go        | 43 +++++++++++++-------------
 core/encrypt/key_derivation.go | 56 ++++++++++++++++++++++++++++------
 2 files changed, 67 insertions(+), 32 deletions(-)

diff --git a/core/encrypt/decrypt.go b/core/encrypt/decrypt.go
index cbb5758..8596c7f 100644
--- a/core/encrypt/decrypt.go
+++ b/core/encrypt/decrypt.go
@@ -55,19 +55,20 @@ func DecryptPDF(pdfBytes []byte, password []byte, verbose bool) ([]byte, *types.
 			}
 			ownerPasswordKey, err2 := DeriveOwnerKeyV5(password, encrypt, fileID, verbose)
 			if err2 == nil {
-				// For owner password, we need to verify differently
-				// Owner password verification involves unwrapping /OE and checking if it works
-				ownerKey, err2 := UnwrapOwnerKeyV5(ownerPasswordKey, encrypt, verbose)
-				if err2 == nil {
-					// If unwrapping succeeded, owner password is correct
-					// The unwrapped owner key is the user encryption key
-					encryptKey = ownerKey
-					encrypt.EncryptKey = encryptKey
-					if verbose {
-						log.Printf("Owner password verified via /OE unwrapping")
-						log.Printf("Unwrapped encryption key (length: %d)", len(encryptKey))
-					}
-					uMatch = true
+				uMatch, err2 = VerifyOValueV5(password, ownerPasswordKey, encrypt)
+			}
+			if err2 != nil {
+				return nil, nil, types.WrapError(types.ErrCodeDecryptionFailed, "error verifying O value", err2)
+			}
+			if uMatch {
+				// /OE holds the file encryption key
+				encryptKey, err = UnwrapOwnerKeyV5(ownerPasswordKey, encrypt, verbose)
+				if err != nil {
+					return nil, nil, types.WrapError(types.ErrCodeDecryptionFailed, "error unwrapping encryption key from /OE", err)
+				}
+				encrypt.EncryptKey = encryptKey
+				if verbose {
+					log.Printf("Owner password verified, unwrapped encryption key (length: %d)", len(encryptKey))
 				}
 			}
 		}
@@ -225,6 +226,9 @@ func DecryptObject(objBytes []byte, objNum, genNum int, encrypt *types.PDFEncryp
 
 	// PyPDF line 918: key = self._key
 	// PyPDF line 920: key_data = key[:n] + pack1 + pack2
+	if n < 0 || n > len(encrypt.EncryptKey) {
+		return nil, types.NewPDFErrorf(types.ErrCodeDecryptionFailed, "encryption key too short: %d bytes, need %d", len(encrypt.EncryptKey), n)
+	}
 	keyData := make([]byte, n+5)
 	copy(keyData, encrypt.EncryptKey[:n]) // CRITICAL: Use only first n bytes!
 	copy(keyData[n:], pack1)
@@ -288,16 +292,11 @@ func DecryptObject(objBytes []byte, objNum, genNum int, encrypt *types.PDFEncryp
 		mode.CryptBlocks(decrypted, data)
 
 		// Line 88: return d[: -d[-1]]  (remove PKCS#7 padding)
-		if len(decrypted) == 0 {
-			return decrypted, nil
-		}
-
-		paddingLen := int(decrypted[len(decrypted)-1])
-		if paddingLen > len(decrypted) {
-			return decrypted, types.NewPDFErrorf(types.ErrCodeStreamError, "invalid padding length: %d > %d", paddingLen, len(decrypted)).WithContext("padding_length", paddingLen).WithContext("data_length", len(decrypted))
+		unpadded, err := removePadding(decrypted)
+		if err != nil {
+			return decrypted, types.WrapError(types.ErrCodeStreamError, "AES padding", err)
 		}
-
-		return decrypted[:len(decrypted)-paddingLen], nil
+		return unpadded, nil
 	}
 
 	return objBytes, nil
diff --git a/core/encrypt/key_derivation.go b/core/encrypt/key_derivation.go
index c8ac8cc..481f53e 100644
--- a/core/encrypt/key_derivation.go
+++ b/core/encrypt/key_derivation.go
@@ -375,13 +375,11 @@ func UnwrapUserKeyV5(passwordKey []byte, encrypt *types.PDFEncryption, verbose b
 		return nil, fmt.Errorf("decrypted UE is empty")
 	}
 
-	paddingLen := int(decrypted[len(decrypted)-1])
-	if paddingLen > len(decrypted) || paddingLen > 16 {
-		return nil, fmt.Errorf("invalid padding length: %d", paddingLen)
+	unwrappedKey, err := removePadding(decrypted)
+	if err != nil {
+		return nil, err
 	}
 
-	unwrappedKey := decrypted[:len(decrypted)-paddingLen]
-
 	if verbose {
 		log.Printf("Unwrapped user key: %d bytes", len(unwrappedKey))
 	}
@@ -422,13 +420,11 @@ func UnwrapOwnerKeyV5(ownerPasswordKey []byte, encrypt *types.PDFEncryption, ver
 		return nil, fmt.Errorf("decrypted OE is empty")
 	}
 
-	paddingLen := int(decrypted[len(decrypted)-1])
-	if paddingLen > len(decrypted) || paddingLen > 16 {
-		return nil, fmt.Errorf("invalid padding length: %d", paddingLen)
+	unwrappedKey, err := removePadding(decrypted)
+	if err != nil {
+		return nil, err
 	}
 
-	unwrappedKey := decrypted[:len(decrypted)-paddingLen]
-
 	if verbose {
 		log.Printf("Unwrapped owner key: %d bytes", len(unwrappedKey))
 	}
@@ -504,6 +500,46 @@ func ComputeUValueV5(password []byte, passwordKey []byte, encrypt *types.PDFEncr
 	return result, nil
 }
 
+// removePadding removes PKCS#7 padding.
+func removePadding(data []byte) ([]byte, error) {
+	if len(data) == 0 {
+		return nil, fmt.Errorf("no padding in empty data")
+	}
+	n := int(data[len(data)-1])
+	if n < 1 || n > aes.BlockSize || n > len(data) {
+		return nil, fmt.Errorf("invalid padding length: %d", n)
+	}
+	for _, b := range data[len(data)-n:] {
+		if int(b) != n {
+			return nil, fmt.Errorf("invalid padding")
+		}
+	}
+	return data[:len(data)-n], nil
+}
+
+// VerifyOValueV5 verifies an owner password by comparing the hash in the stored O
+// value with the one of the password, the owner validation salt and the U value
+func VerifyOValueV5(ownerPassword []byte, ownerPasswordKey []byte, encrypt *types.PDFEncryption) (bool, error) {
+	if len(encrypt.O) < 48 || len(encrypt.U) < 48 {
+		return false, fmt.Errorf("O or U value too short for V5: %d and %d bytes (expected at least 48)", len(encrypt.O), len(encrypt.U))
+	}
+	if len(ownerPasswordKey) < 16 {
+		return false, fmt.Errorf("owner password key too short: %d bytes (need at least 16 for AES-128)", len(ownerPasswordKey))
+	}
+	block, err := aes.NewCipher(ownerPasswordKey[:16])
+	if err != nil {
+		return false, fmt.Errorf("failed to create AES cipher: %v", err)
+	}
+	hash := sha256.New()
+	hash.Write(ownerPassword)
+	hash.Write(encrypt.O[:8])
+	hash.Write(encrypt.U[:48])
+	hashed := hash.Sum(nil)
+	block.Encrypt(hashed[:16], hashed[:16])
+	block.Encrypt(hashed[16:], hashed[16:])
+	return bytes.Equal(hashed, encrypt.O[8:40]), nil
+}
+
 // VerifyUValueV5 verifies a password by comparing computed U value with stored U value
 // Returns true if password is correct, false otherwise
 func VerifyUValueV5(password []byte, passwordKey []byte, encrypt *types.PDFEncryption, fileID []byte, verbose bool) (bool, error) {
-- 
2.43.0


From dc63c5701ba20123b590171cbd1926145e01e788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:12 +0000
Subject: [PATCH 27/99] fix: an unsupported encryption version is an error, not
 plain text

---
 core/encrypt/parser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/encrypt/parser.go b/core/encrypt/parser.go
index 1cbb2b6..115f5e3 100644
--- a/core/encrypt/parser.go
+++ b/core/encrypt/parser.go
@@ -37,6 +37,10 @@ func ParseEncryptionDictionary(pdfBytes []byte, verbose bool) (*types.PDFEncrypt
 		encrypt.R = 4 // Default revision
 	}
 
+	if encrypt.V == 3 || encrypt.V < 1 || encrypt.V > 5 || encrypt.R < 2 || encrypt.R > 6 {
+		return nil, fmt.Errorf("unsupported encryption: V=%d, R=%d", encrypt.V, encrypt.R)
+	}
+
 	// Key length in bytes
 	bits := leadingInt(entries["Length"])
 	switch {
-- 
2.43.0


From 2dfcf72649bb124396b85ba763c6b6c310e41d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:24 +0000
Subject: [PATCH 28/99] fix: comments between a key and its value in trailers
 and encryption dictionaries

---
 core/encrypt/trailer.go     | 5 +++++
 core/write/object_stream.go | 6 ++++++
 core/write/writer.go        | 6 ++++--
 3 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/core/encrypt/trailer.go b/core/encrypt/trailer.go
index 335c59e..4f5d2a2 100644
--- a/core/encrypt/trailer.go
+++ b/core/encrypt/trailer.go
@@ -110,9 +110,14 @@ func dictEntries(data []byte, pos int) (map[string][]byte, int, error) {
 	for i := pos + 2; i < len(data); {
 		switch c := data[i]; {
 		case c == '%':
+			blank := start != -1 && len(bytes.TrimSpace(data[start:i])) == 0
 			for i < len(data) && data[i] != '\r' && data[i] != '\n' {
 				i++
 			}
+			if blank {
+				// a comment between the key and its value
+				start = i
+			}
 			continue
 		case c == '(':
 			_, end := literalString(data, i)
diff --git a/core/write/object_stream.go b/core/write/object_stream.go
index f9e5c18..91c0c76 100644
--- a/core/write/object_stream.go
+++ b/core/write/object_stream.go
@@ -7,6 +7,8 @@ import (
 	"sort"
 	"strconv"
 	"strings"
+
+	"github.com/benedoc-inc/pdfer/core/parse"
 )
 
 // objectStreamGroup represents a group of objects to be stored in an object stream
@@ -39,6 +41,10 @@ func (w *PDFWriter) createObjectStreams() (map[int]struct {
 		}
 		// Only compress non-stream objects (stream objects are already compressed)
 		if obj.Stream == nil && obj.Content != nil {
+			if _, _, isStream := parse.SplitStream(obj.Content); isStream {
+				// a stream given as raw content
+				continue
+			}
 			eligibleObjs = append(eligibleObjs, objNum)
 		}
 	}
diff --git a/core/write/writer.go b/core/write/writer.go
index 2bfb116..c6e691b 100644
--- a/core/write/writer.go
+++ b/core/write/writer.go
@@ -340,8 +340,8 @@ func (w *PDFWriter) Write(out io.Writer) error {
 	var xrefPos int64
 
 	// Write cross-reference (stream or table)
-	if w.useXRefStream {
-		// Write cross-reference stream
+	if w.useXRefStream || len(objStreams) > 0 {
+		// Write cross-reference stream (a table cannot refer into object streams)
 		xrefPos, err = w.writeXRefStream(&buf, positions, objStreamMap)
 		if err != nil {
 			return fmt.Errorf("failed to write xref stream: %v", err)
@@ -457,6 +457,8 @@ func (w *PDFWriter) formatDictionary(dict Dictionary) []byte {
 // formatValue formats a value for PDF output
 func (w *PDFWriter) formatValue(value interface{}) string {
 	switch v := value.(type) {
+	case nil:
+		return "null"
 	case int:
 		return strconv.Itoa(v)
 	case int64:
-- 
2.43.0


From ff5e7c92cfe94b90c01116beca92a2d8641ace31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:26 +0000
Subject: [PATCH 29/99] fix: accept a plus sign before /Length and the numbers
 of the encryption dictionary

---
 core/encrypt/trailer.go | 2 +-
 core/parse/scan.go      | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/core/encrypt/trailer.go b/core/encrypt/trailer.go
index 4f5d2a2..ba1930d 100644
--- a/core/encrypt/trailer.go
+++ b/core/encrypt/trailer.go
@@ -195,7 +195,7 @@ func skipSpace(data []byte, pos int) int {
 func leadingInt(value []byte) int64 {
 	i := skipSpace(value, 0)
 	end := i
-	for end < len(value) && (value[end] >= '0' && value[end] <= '9' || end == i && value[end] == '-') {
+	for end < len(value) && (value[end] >= '0' && value[end] <= '9' || end == i && (value[end] == '-' || value[end] == '+')) {
 		end++
 	}
 	n, err := strconv.ParseInt(string(value[i:end]), 10, 64)
diff --git a/core/parse/scan.go b/core/parse/scan.go
index d80c31b..f4dd3b2 100644
--- a/core/parse/scan.go
+++ b/core/parse/scan.go
@@ -151,7 +151,10 @@ func scanObject(data []byte, pos int) (ext objectExtent, ok bool) {
 // given directly.
 func scanLength(data []byte, pos, end int) (int, int) {
 	n := 0
-	for _, b := range data[pos:end] {
+	for i, b := range data[pos:end] {
+		if b == '+' && i == 0 && end > pos+1 {
+			continue
+		}
 		if b < '0' || b > '9' || n > len(data) {
 			return -1, end
 		}
-- 
2.43.0


From 719059f82cf91756a3a2c0278628bedf421ffa7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:09 +0000
Subject: [PATCH 30/99] fix: comments after values and hexadecimal strings in
 trailers and encryption dictionaries

---
 core/encrypt/trailer.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/core/encrypt/trailer.go b/core/encrypt/trailer.go
index ba1930d..29dcaa3 100644
--- a/core/encrypt/trailer.go
+++ b/core/encrypt/trailer.go
@@ -101,7 +101,11 @@ func dictEntries(data []byte, pos int) (map[string][]byte, int, error) {
 	}
 	entries := map[string][]byte{}
 	key, start := "", -1
+	comment := -1 // the first comment after the value
 	add := func(end int) {
+		if comment != -1 {
+			end = comment
+		}
 		if key != "" && start != -1 {
 			entries[key] = bytes.TrimSpace(data[start:end])
 		}
@@ -111,6 +115,9 @@ func dictEntries(data []byte, pos int) (map[string][]byte, int, error) {
 		switch c := data[i]; {
 		case c == '%':
 			blank := start != -1 && len(bytes.TrimSpace(data[start:i])) == 0
+			if !blank && depth == 0 && comment == -1 {
+				comment = i
+			}
 			for i < len(data) && data[i] != '\r' && data[i] != '\n' {
 				i++
 			}
@@ -130,6 +137,13 @@ func dictEntries(data []byte, pos int) (map[string][]byte, int, error) {
 			depth++
 			i += 2
 			continue
+		case c == '<':
+			end := bytes.IndexByte(data[i:], '>')
+			if end == -1 {
+				return nil, 0, fmt.Errorf("hexadecimal string is not closed")
+			}
+			i += end + 1
+			continue
 		case c == '>' && i+1 < len(data) && data[i+1] == '>':
 			if depth == 0 {
 				add(i)
@@ -149,7 +163,7 @@ func dictEntries(data []byte, pos int) (map[string][]byte, int, error) {
 			}
 			if depth == 0 && (start == -1 || len(bytes.TrimSpace(data[start:i])) > 0) {
 				add(i)
-				key, start = string(data[i+1:end]), end
+				key, start, comment = string(data[i+1:end]), end, -1
 			}
 			i = end
 			continue
-- 
2.43.0


From 79b10fc1d24733a384457d1cafb4ee9daeb1c894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:24 +0000
Subject: [PATCH 31/99] fix: read trailer, cross-reference and object stream
 dictionaries by their tokens

---
 core/parse/document_parser.go | 45 ++++++-------------
 core/parse/get_object.go      |  9 ++--
 core/parse/incremental.go     | 62 ++++++++-------------------
 core/parse/object_stream.go   | 81 +++++++++++++++++------------------
 core/parse/parser.go          | 61 ++++++--------------------
 core/parse/scan.go            | 58 +++++++++++++++++++++++++
 6 files changed, 148 insertions(+), 168 deletions(-)

diff --git a/core/parse/document_parser.go b/core/parse/document_parser.go
index 8fbc0c2..5729b28 100644
--- a/core/parse/document_parser.go
+++ b/core/parse/document_parser.go
@@ -355,21 +355,7 @@ func ParseTrailerDataRaw(pdfBytes []byte, startXRef int64, eofOffset int) (*Trai
 		sectionStr := xrefStreamDict(section)
 
 		// Extract trailer-equivalent info from stream dictionary
-		if match := regexp.MustCompile(`/Size\s+(\d+)`).FindStringSubmatch(sectionStr); match != nil {
-			trailer.Size, _ = strconv.Atoi(match[1])
-		}
-		if match := regexp.MustCompile(`/Root\s+(\d+\s+\d+\s+R)`).FindStringSubmatch(sectionStr); match != nil {
-			trailer.Root = match[1]
-		}
-		if match := regexp.MustCompile(`/Encrypt\s+(\d+\s+\d+\s+R)`).FindStringSubmatch(sectionStr); match != nil {
-			trailer.Encrypt = match[1]
-		}
-		if match := regexp.MustCompile(`/Info\s+(\d+\s+\d+\s+R)`).FindStringSubmatch(sectionStr); match != nil {
-			trailer.Info = match[1]
-		}
-		if match := regexp.MustCompile(`/Prev\s+(\d+)`).FindStringSubmatch(sectionStr); match != nil {
-			trailer.Prev, _ = strconv.ParseInt(match[1], 10, 64)
-		}
+		trailer.setEntries(sectionStr)
 
 		trailer.RawBytes = []byte(sectionStr)
 
@@ -393,27 +379,22 @@ func ParseTrailerDataRaw(pdfBytes []byte, startXRef int64, eofOffset int) (*Trai
 	trailer.RawBytes = section[trailerIdx : trailerIdx+startxrefIdx]
 
 	// Parse trailer values
-	trailerStr := string(trailer.RawBytes)
-
-	if match := regexp.MustCompile(`/Size\s+(\d+)`).FindStringSubmatch(trailerStr); match != nil {
-		trailer.Size, _ = strconv.Atoi(match[1])
-	}
-	if match := regexp.MustCompile(`/Root\s+(\d+\s+\d+\s+R)`).FindStringSubmatch(trailerStr); match != nil {
-		trailer.Root = match[1]
-	}
-	if match := regexp.MustCompile(`/Encrypt\s+(\d+\s+\d+\s+R)`).FindStringSubmatch(trailerStr); match != nil {
-		trailer.Encrypt = match[1]
-	}
-	if match := regexp.MustCompile(`/Info\s+(\d+\s+\d+\s+R)`).FindStringSubmatch(trailerStr); match != nil {
-		trailer.Info = match[1]
-	}
-	if match := regexp.MustCompile(`/Prev\s+(\d+)`).FindStringSubmatch(trailerStr); match != nil {
-		trailer.Prev, _ = strconv.ParseInt(match[1], 10, 64)
-	}
+	_, dict := traditionalXRef(section)
+	trailer.setEntries(string(dict))
 
 	return trailer, nil
 }
 
+// setEntries takes the trailer values from dict
+func (t *TrailerData) setEntries(dict string) {
+	entries := dictTokens(dict)
+	t.Size = int(tokenInt(entries["/Size"]))
+	t.Root = tokenRef(entries["/Root"])
+	t.Encrypt = tokenRef(entries["/Encrypt"])
+	t.Info = tokenRef(entries["/Info"])
+	t.Prev = tokenInt(entries["/Prev"])
+}
+
 // ParseRawObject parses a PDF object preserving all raw bytes
 func ParseRawObject(pdfBytes []byte, objNum int, objGen int, offset int64) (*PDFRawObject, error) {
 	if offset < 0 || offset >= int64(len(pdfBytes)) {
diff --git a/core/parse/get_object.go b/core/parse/get_object.go
index 67bfe04..eae8066 100644
--- a/core/parse/get_object.go
+++ b/core/parse/get_object.go
@@ -154,7 +154,7 @@ func GetDirectObject(pdfBytes []byte, objNum int, offset int64, encryptInfo *typ
 		// Decrypt stream data if needed
 		if encryptInfo != nil {
 			dictPart := content[:streamStart]
-			if xrefTypePattern.Match(dictPart) {
+			if isXRefStream(dictPart) {
 				// Cross-reference streams are never encrypted
 				return wrapObject(objNum, genNum, content), nil
 			}
@@ -213,8 +213,11 @@ func GetDirectObject(pdfBytes []byte, objNum int, offset int64, encryptInfo *typ
 	return wrapObject(objNum, genNum, content), nil
 }
 
-// xrefTypePattern matches the type of a cross-reference stream
-var xrefTypePattern = regexp.MustCompile(`/Type\s*/XRef\b`)
+// isXRefStream reports whether dict is the dictionary of a cross-reference stream
+func isXRefStream(dict []byte) bool {
+	tokens := dictTokens(string(dict))["/Type"]
+	return len(tokens) == 1 && tokens[0] == "/XRef"
+}
 
 // wrapObject reconstructs the full object from its content
 func wrapObject(objNum, genNum int, content []byte) []byte {
diff --git a/core/parse/incremental.go b/core/parse/incremental.go
index 685514d..0fea5d4 100644
--- a/core/parse/incremental.go
+++ b/core/parse/incremental.go
@@ -210,25 +210,21 @@ func (p *incrementalParser) findPrevOffset(startXRef int64) (int64, error) {
 			return 0, fmt.Errorf("no trailer found")
 		}
 
-		trailerDict := string(trailer)
-		prevPattern := regexp.MustCompile(`/Prev\s+(\d+)`)
-		match := prevPattern.FindStringSubmatch(trailerDict)
-		if match == nil {
+		prev := dictTokens(string(trailer))["/Prev"]
+		if len(prev) != 1 {
 			return 0, fmt.Errorf("no /Prev in trailer")
 		}
 
-		return strconv.ParseInt(match[1], 10, 64)
+		return strconv.ParseInt(prev[0], 10, 64)
 	}
 
 	// Cross-reference stream - /Prev is in the stream dictionary
-	dictSection := xrefStreamDict(section)
-	prevPattern := regexp.MustCompile(`/Prev\s+(\d+)`)
-	match := prevPattern.FindStringSubmatch(dictSection)
-	if match == nil {
+	prev := dictTokens(xrefStreamDict(section))["/Prev"]
+	if len(prev) != 1 {
 		return 0, fmt.Errorf("no /Prev in xref stream")
 	}
 
-	return strconv.ParseInt(match[1], 10, 64)
+	return strconv.ParseInt(prev[0], 10, 64)
 }
 
 // parsexrefSection parses a single xref section at the given offset
@@ -319,23 +315,7 @@ func (p *incrementalParser) parseTraditionalxrefSection(startXRef int64) (*xrefS
 
 	// Parse trailer for /Root, /Encrypt, /Prev, /Size
 	if trailer != nil {
-		trailerDict := string(trailer)
-
-		if match := regexp.MustCompile(`/Root\s+(\d+\s+\d+\s+R)`).FindStringSubmatch(trailerDict); match != nil {
-			section.Root = match[1]
-		}
-		if match := regexp.MustCompile(`/Info\s+(\d+\s+\d+\s+R)`).FindStringSubmatch(trailerDict); match != nil {
-			section.Info = match[1]
-		}
-		if match := regexp.MustCompile(`/Encrypt\s+(\d+\s+\d+\s+R)`).FindStringSubmatch(trailerDict); match != nil {
-			section.Encrypt = match[1]
-		}
-		if match := regexp.MustCompile(`/Prev\s+(\d+)`).FindStringSubmatch(trailerDict); match != nil {
-			section.Prev, _ = strconv.ParseInt(match[1], 10, 64)
-		}
-		if match := regexp.MustCompile(`/Size\s+(\d+)`).FindStringSubmatch(trailerDict); match != nil {
-			section.Size, _ = strconv.Atoi(match[1])
-		}
+		section.setTrailer(string(trailer))
 	}
 
 	if p.verbose {
@@ -365,23 +345,7 @@ func (p *incrementalParser) parseXRefStreamSection(startXRef int64) (*xrefSectio
 	section.Free = result.Free
 
 	// Extract trailer info from stream dictionary
-	xrefStr := xrefStreamDict(p.pdfBytes[startXRef:])
-
-	if match := regexp.MustCompile(`/Root\s+(\d+\s+\d+\s+R)`).FindStringSubmatch(xrefStr); match != nil {
-		section.Root = match[1]
-	}
-	if match := regexp.MustCompile(`/Info\s+(\d+\s+\d+\s+R)`).FindStringSubmatch(xrefStr); match != nil {
-		section.Info = match[1]
-	}
-	if match := regexp.MustCompile(`/Encrypt\s+(\d+\s+\d+\s+R)`).FindStringSubmatch(xrefStr); match != nil {
-		section.Encrypt = match[1]
-	}
-	if match := regexp.MustCompile(`/Prev\s+(\d+)`).FindStringSubmatch(xrefStr); match != nil {
-		section.Prev, _ = strconv.ParseInt(match[1], 10, 64)
-	}
-	if match := regexp.MustCompile(`/Size\s+(\d+)`).FindStringSubmatch(xrefStr); match != nil {
-		section.Size, _ = strconv.Atoi(match[1])
-	}
+	section.setTrailer(xrefStreamDict(p.pdfBytes[startXRef:]))
 
 	if p.verbose {
 		fmt.Printf("Parsed xref stream at %d: %d objects, %d in streams, Prev=%d\n",
@@ -391,6 +355,16 @@ func (p *incrementalParser) parseXRefStreamSection(startXRef int64) (*xrefSectio
 	return section, nil
 }
 
+// setTrailer takes the trailer entries of the section from dict
+func (s *xrefSection) setTrailer(dict string) {
+	entries := dictTokens(dict)
+	s.Root = tokenRef(entries["/Root"])
+	s.Info = tokenRef(entries["/Info"])
+	s.Encrypt = tokenRef(entries["/Encrypt"])
+	s.Prev = tokenInt(entries["/Prev"])
+	s.Size = int(tokenInt(entries["/Size"]))
+}
+
 // mergeSections merges all xref sections (older entries first, newer override)
 func (p *incrementalParser) mergeSections() {
 	// sections are already ordered oldest to newest
diff --git a/core/parse/object_stream.go b/core/parse/object_stream.go
index 90293e2..e10eaa7 100644
--- a/core/parse/object_stream.go
+++ b/core/parse/object_stream.go
@@ -136,23 +136,23 @@ func readXRefStream(pdfBytes []byte, startXRef int64) (w [3]int, subsections []x
 	}
 	dict := string(obj.DictRaw)
 
+	entries := dictTokens(dict)
+
 	// Find /Size entry (total number of objects)
-	sizePattern := regexp.MustCompile(`/Size\s+(\d+)`)
-	sizeMatch := sizePattern.FindStringSubmatch(dict)
-	if sizeMatch == nil {
+	size := entries["/Size"]
+	if len(size) != 1 {
 		return w, nil, nil, fmt.Errorf("/Size not found in xref stream")
 	}
 
 	// Find /W entry (field widths: [w1 w2 w3])
-	wPattern := regexp.MustCompile(`/W\s*\[\s*(\d+)\s+(\d+)\s+(\d+)\s*\]`)
-	wMatch := wPattern.FindStringSubmatch(dict)
-	if wMatch == nil {
+	widths := entries["/W"]
+	if len(widths) != 5 {
 		return w, nil, nil, fmt.Errorf("/W not found in xref stream")
 	}
 	for i := range w {
-		w[i], err = strconv.Atoi(wMatch[i+1])
-		if err != nil || w[i] > 8 {
-			return w, nil, nil, fmt.Errorf("invalid field width in xref stream: %s", wMatch[i+1])
+		w[i], err = strconv.Atoi(widths[i+1])
+		if err != nil || w[i] < 0 || w[i] > 8 {
+			return w, nil, nil, fmt.Errorf("invalid field width in xref stream: %s", widths[i+1])
 		}
 	}
 	entrySize := w[0] + w[1] + w[2]
@@ -167,12 +167,11 @@ func readXRefStream(pdfBytes []byte, startXRef int64) (w [3]int, subsections []x
 
 	// Find /Index entry if present (subsections)
 	// Format: /Index [first1 count1 first2 count2 ...]
-	indexFields := []string{"0", sizeMatch[1]}
-	indexPattern := regexp.MustCompile(`/Index\s*\[\s*([^\]]+)\]`)
-	if indexMatch := indexPattern.FindStringSubmatch(dict); indexMatch != nil {
-		indexFields = strings.Fields(indexMatch[1])
+	indexFields := []string{"0", size[0]}
+	if index := entries["/Index"]; len(index) > 2 {
+		indexFields = index[1 : len(index)-1]
 	}
-	entries := len(data) / entrySize
+	remaining := len(data) / entrySize
 	for i := 0; i+1 < len(indexFields); i += 2 {
 		first, err1 := strconv.Atoi(indexFields[i])
 		count, err2 := strconv.Atoi(indexFields[i+1])
@@ -180,8 +179,8 @@ func readXRefStream(pdfBytes []byte, startXRef int64) (w [3]int, subsections []x
 			return w, nil, nil, fmt.Errorf("invalid /Index in xref stream")
 		}
 		// there are no more entries than the data holds
-		count = min(count, entries)
-		entries -= count
+		count = min(count, remaining)
+		remaining -= count
 		subsections = append(subsections, xrefSubsection{first, count})
 	}
 	return w, subsections, data, nil
@@ -192,12 +191,14 @@ type xrefSubsection struct{ first, count int }
 
 // decodeStructureStream decodes the data of a cross-reference or object stream
 func decodeStructureStream(dict string, data []byte) ([]byte, error) {
-	filters := regexp.MustCompile(`/Filter\s*(/\w+|\[[^\]]*\])`).FindStringSubmatch(dict)
-	if filters == nil {
-		return data, nil
-	}
+	entries := dictTokens(dict)
 	var err error
-	for _, filter := range regexp.MustCompile(`/\w+`).FindAllString(filters[1], -1) {
+	filtered := false
+	for _, filter := range entries["/Filter"] {
+		if filter[0] != '/' {
+			continue
+		}
+		filtered = true
 		if filter != "/FlateDecode" {
 			data, err = DecodeFilter(data, filter)
 		} else {
@@ -210,21 +211,18 @@ func decodeStructureStream(dict string, data []byte) ([]byte, error) {
 
 	// Check for predictor (PNG filter)
 	// Look for /DecodeParms with /Predictor
-	decodeparmsPattern := regexp.MustCompile(`/DecodeParms\s*\[?\s*<<([^>]*)>>`)
-	decodeparmsMatch := decodeparmsPattern.FindStringSubmatch(dict)
-	if decodeparmsMatch == nil {
-		return data, nil
-	}
-	predictorMatch := regexp.MustCompile(`/Predictor\s+(\d+)`).FindStringSubmatch(decodeparmsMatch[1])
-	if predictorMatch == nil {
+	parms := strings.Join(entries["/DecodeParms"], " ")
+	start := strings.Index(parms, "<<")
+	if !filtered || start == -1 {
 		return data, nil
 	}
-	predictor, _ := strconv.Atoi(predictorMatch[1])
+	parmEntries := dictTokens(parms[start:])
+	predictor := int(tokenInt(parmEntries["/Predictor"]))
 	columns := 1
-	if match := regexp.MustCompile(`/Columns\s+(\d+)`).FindStringSubmatch(decodeparmsMatch[1]); match != nil {
-		columns, err = strconv.Atoi(match[1])
+	if match := parmEntries["/Columns"]; len(match) == 1 {
+		columns, err = strconv.Atoi(match[0])
 		if err != nil || columns < 1 || columns > 1<<20 {
-			return nil, fmt.Errorf("invalid /Columns %s", match[1])
+			return nil, fmt.Errorf("invalid /Columns %s", match[0])
 		}
 	}
 	if predictor < 10 || predictor > 15 {
@@ -336,20 +334,19 @@ func GetObjectFromStream(pdfBytes []byte, objNum int, streamObjNum int, indexInS
 	// - Header format: "objnum1 offset1 objnum2 offset2 ..."
 
 	// Find /N and /First from dictionary
-	nPattern := regexp.MustCompile(`/N\s+(\d+)`)
-	nMatch := nPattern.FindStringSubmatch(dictSection)
-	if nMatch == nil {
+	dictEntries := dictTokens(dictSection)
+	nTokens := dictEntries["/N"]
+	if len(nTokens) != 1 {
 		return nil, fmt.Errorf("/N not found in object stream dictionary")
 	}
 
-	firstPattern := regexp.MustCompile(`/First\s+(\d+)`)
-	firstMatch := firstPattern.FindStringSubmatch(dictSection)
-	if firstMatch == nil {
+	firstTokens := dictEntries["/First"]
+	if len(firstTokens) != 1 {
 		return nil, fmt.Errorf("/First not found in object stream dictionary")
 	}
-	firstOffset, err := strconv.Atoi(firstMatch[1])
-	if err != nil || firstOffset > len(decompressed) {
-		return nil, fmt.Errorf("/First %s is beyond the object stream", firstMatch[1])
+	firstOffset, err := strconv.Atoi(firstTokens[0])
+	if err != nil || firstOffset < 0 || firstOffset > len(decompressed) {
+		return nil, fmt.Errorf("/First %s is beyond the object stream", firstTokens[0])
 	}
 
 	// Parse header: pairs of "objnum offset"
@@ -362,7 +359,7 @@ func GetObjectFromStream(pdfBytes []byte, objNum int, streamObjNum int, indexInS
 	headerData := decompressed[:firstOffset]
 	headerStr := string(headerData)
 	fields := strings.Fields(headerStr)
-	if n, err := strconv.Atoi(nMatch[1]); err == nil && len(fields) > 2*n {
+	if n, err := strconv.Atoi(nTokens[0]); err == nil && n >= 0 && len(fields) > 2*n {
 		fields = fields[:2*n]
 	}
 
diff --git a/core/parse/parser.go b/core/parse/parser.go
index 8ce506d..50428e7 100644
--- a/core/parse/parser.go
+++ b/core/parse/parser.go
@@ -37,53 +37,22 @@ func ParsePDFTrailer(pdfBytes []byte) (*PDFTrailer, error) {
 	}
 
 	// Find end of trailer dictionary (handle nested dictionaries)
-	trailerStart := trailerMatch[1]
-
-	// Find matching >> (handle nested dictionaries)
-	// Start at depth 1 because trailerStart is AFTER the opening <<
-	depth := 1
-	trailerEnd := trailerStart
-	for i := trailerStart; i < len(pdfStr) && i < trailerStart+5000; i++ {
-		if i+1 < len(pdfStr) && pdfStr[i] == '<' && pdfStr[i+1] == '<' {
-			depth++
-			i++ // Skip second '<'
-		} else if i+1 < len(pdfStr) && pdfStr[i] == '>' && pdfStr[i+1] == '>' {
-			depth--
-			if depth == 0 {
-				trailerEnd = i + 2
-				break
-			}
-			i++ // Skip second '>'
-		}
-	}
-
-	if trailerEnd == trailerStart {
+	trailerStart := trailerMatch[0] + strings.Index(pdfStr[trailerMatch[0]:], "<<")
+	trailerEnd := dictEnd(pdfBytes, trailerStart)
+	if trailerEnd == -1 {
 		return nil, fmt.Errorf("trailer end not found")
 	}
-
-	trailerSection := pdfStr[trailerStart:trailerEnd]
+	entries := dictTokens(pdfStr[trailerStart:trailerEnd])
 
 	trailer := &PDFTrailer{}
-
-	// Extract Root reference
-	rootPattern := regexp.MustCompile(`/Root\s+(\d+)\s+(\d+)\s+R`)
-	rootMatch := rootPattern.FindStringSubmatch(trailerSection)
-	if rootMatch != nil {
-		trailer.RootRef = rootMatch[0]
+	if ref := tokenRef(entries["/Root"]); ref != "" {
+		trailer.RootRef = "/Root " + ref
 	}
-
-	// Extract Info reference
-	infoPattern := regexp.MustCompile(`/Info\s+(\d+)\s+(\d+)\s+R`)
-	infoMatch := infoPattern.FindStringSubmatch(trailerSection)
-	if infoMatch != nil {
-		trailer.InfoRef = infoMatch[0]
+	if ref := tokenRef(entries["/Info"]); ref != "" {
+		trailer.InfoRef = "/Info " + ref
 	}
-
-	// Extract Encrypt reference
-	encryptPattern := regexp.MustCompile(`/Encrypt\s+(\d+)\s+(\d+)\s+R`)
-	encryptMatch := encryptPattern.FindStringSubmatch(trailerSection)
-	if encryptMatch != nil {
-		trailer.EncryptRef = encryptMatch[0]
+	if ref := tokenRef(entries["/Encrypt"]); ref != "" {
+		trailer.EncryptRef = "/Encrypt " + ref
 	}
 
 	// Find startxref (the last one belongs to the latest revision)
@@ -138,13 +107,8 @@ func ParseCrossReferenceTableWithEncryption(pdfBytes []byte, startXRef int64, en
 		return nil, fmt.Errorf("invalid startxref offset: %d", startXRef)
 	}
 
-	// Read from startxref position to determine type
-	xrefSection := pdfBytes[startXRef:]
-	xrefStr := string(xrefSection[:min(5000, len(xrefSection))])
-
 	// Check if it's a cross-reference stream (PDF 1.5+)
-	// Cross-reference streams have /Type/XRef and /W[widths]
-	if strings.Contains(xrefStr, "/Type/XRef") || strings.Contains(xrefStr, "/W[") {
+	if xrefStreamHeader.Match(pdfBytes[startXRef:]) {
 		// Cross-reference stream - need to find the stream object and decompress it
 		return ParseXRefStreamWithEncryption(pdfBytes, startXRef, encryptInfo, verbose)
 	}
@@ -153,6 +117,9 @@ func ParseCrossReferenceTableWithEncryption(pdfBytes []byte, startXRef int64, en
 	return ParseTraditionalXRefTable(pdfBytes, startXRef)
 }
 
+// xrefStreamHeader matches the start of a cross-reference stream
+var xrefStreamHeader = regexp.MustCompile(`^\s*\d+\s+\d+\s+obj`)
+
 // ParseTraditionalXRefTable parses a traditional PDF cross-reference table
 func ParseTraditionalXRefTable(pdfBytes []byte, startXRef int64) (map[int]int64, error) {
 	objMap := make(map[int]int64)
diff --git a/core/parse/scan.go b/core/parse/scan.go
index f4dd3b2..0f1bbd0 100644
--- a/core/parse/scan.go
+++ b/core/parse/scan.go
@@ -3,6 +3,7 @@ package parse
 import (
 	"bytes"
 	"strconv"
+	"strings"
 )
 
 // isDelimiter reports whether b ends a name, number or keyword.
@@ -269,6 +270,63 @@ func dictEnd(data []byte, start int) int {
 	}
 }
 
+// dictTokens returns the tokens of each value of a dictionary ("<< ... >>") by key;
+// keys include the slash. Nested dictionaries are part of the value they are in.
+func dictTokens(dict string) map[string][]string {
+	entries := map[string][]string{}
+	data := []byte(dict)
+	key := ""
+	depth := 0
+	for pos := 0; ; {
+		pos = skipSpace(data, pos)
+		end := scanToken(data, pos)
+		if end <= pos {
+			return entries
+		}
+		token := dict[pos:end]
+		pos = end
+		if depth == 1 && token[0] == '/' && (key == "" || len(entries[key]) > 0) {
+			key = token
+			entries[key] = nil
+			continue
+		}
+		switch token {
+		case "<<", "[":
+			depth++
+		case ">>", "]":
+			depth--
+			if depth <= 0 {
+				return entries
+			}
+		}
+		if key != "" {
+			entries[key] = append(entries[key], token)
+		}
+	}
+}
+
+// tokenRef returns the reference ("N G R") that tokens hold, or "".
+func tokenRef(tokens []string) string {
+	if len(tokens) != 3 || tokens[2] != "R" {
+		return ""
+	}
+	for _, number := range tokens[:2] {
+		if _, err := strconv.Atoi(number); err != nil {
+			return ""
+		}
+	}
+	return strings.Join(tokens, " ")
+}
+
+// tokenInt returns the integer that tokens hold, or 0.
+func tokenInt(tokens []string) int64 {
+	if len(tokens) != 1 {
+		return 0
+	}
+	n, _ := strconv.ParseInt(tokens[0], 10, 64)
+	return n
+}
+
 // traditionalXRef returns the table of a traditional cross-reference section that
 // starts with "xref" (everything before "trailer") and its trailer dictionary, which
 // is nil if there is none.
-- 
2.43.0


From 55f82c76ad5b197929b24df519de09e5425d8d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:47 +0000
Subject: [PATCH 32/99] fix: count only %%EOF markers that end a revision;
 record generations from cross-reference streams; list objects in ascending
 order

---
 core/parse/api.go             |  8 ++--
 core/parse/document_parser.go | 23 ++++-------
 core/parse/incremental.go     | 77 +++++++++++++++++------------------
 core/parse/object_stream.go   |  4 ++
 4 files changed, 53 insertions(+), 59 deletions(-)

diff --git a/core/parse/api.go b/core/parse/api.go
index 5957767..0061d3f 100644
--- a/core/parse/api.go
+++ b/core/parse/api.go
@@ -29,6 +29,7 @@ package parse
 
 import (
 	"errors"
+	"sort"
 
 	"github.com/benedoc-inc/pdfer/core/encrypt"
 	"github.com/benedoc-inc/pdfer/types"
@@ -271,8 +272,8 @@ func (p *PDF) RevisionCount() int {
 	if p.doc != nil {
 		return len(p.doc.Revisions)
 	}
-	// For standard parsing, count %%EOF markers
-	return len(FindAllEOFMarkers(p.raw))
+	// For standard parsing, count the %%EOF markers that end a revision
+	return CountRevisions(p.raw)
 }
 
 // ObjectCount returns the number of objects in the PDF
@@ -280,12 +281,13 @@ func (p *PDF) ObjectCount() int {
 	return len(p.xref.Objects)
 }
 
-// Objects returns a list of all object numbers in the PDF
+// Objects returns a list of all object numbers in the PDF, in ascending order
 func (p *PDF) Objects() []int {
 	result := make([]int, 0, len(p.xref.Objects))
 	for objNum := range p.xref.Objects {
 		result = append(result, objNum)
 	}
+	sort.Ints(result)
 	return result
 }
 
diff --git a/core/parse/document_parser.go b/core/parse/document_parser.go
index 5729b28..4b37b6d 100644
--- a/core/parse/document_parser.go
+++ b/core/parse/document_parser.go
@@ -29,7 +29,7 @@ func ParsePDFDocument(pdfBytes []byte) (*PDFDocument, error) {
 	doc.Header = header
 
 	// Find all revision boundaries (%%EOF markers)
-	eofOffsets := FindAllEOFMarkers(pdfBytes)
+	eofOffsets := revisionMarkers(pdfBytes)
 	if len(eofOffsets) == 0 {
 		return nil, fmt.Errorf("no %%EOF marker found")
 	}
@@ -126,20 +126,10 @@ func parseRevision(pdfBytes []byte, revNum int, eofOffset int, doc *PDFDocument)
 	rev.EndOffset = int64(endOffset)
 
 	// Find startxref before this %%EOF
-	searchStart := eofOffset - 100
-	if searchStart < 0 {
-		searchStart = 0
-	}
-
-	searchSection := string(pdfBytes[searchStart:eofOffset])
-	startxrefPattern := regexp.MustCompile(`startxref\s+(\d+)`)
-	matches := startxrefPattern.FindAllStringSubmatch(searchSection, -1)
-	if len(matches) == 0 {
+	startXRef, ok := startXRefBefore(pdfBytes, eofOffset)
+	if !ok {
 		return nil, fmt.Errorf("startxref not found before %%EOF at %d", eofOffset)
 	}
-	match := matches[len(matches)-1]
-
-	startXRef, _ := strconv.ParseInt(match[1], 10, 64)
 	rev.StartXRef = startXRef
 
 	// Parse xref data
@@ -312,9 +302,10 @@ func parseXRefStreamRaw(pdfBytes []byte, startXRef int64, xref *XRefData) (*XRef
 	// Convert to XRefEntry format
 	for objNum, offset := range result.Objects {
 		xref.Entries = append(xref.Entries, XRefEntry{
-			ObjectNum: objNum,
-			Offset:    offset,
-			InUse:     true,
+			ObjectNum:  objNum,
+			Generation: result.Generations[objNum],
+			Offset:     offset,
+			InUse:      true,
 		})
 	}
 
diff --git a/core/parse/incremental.go b/core/parse/incremental.go
index 0fea5d4..22ab410 100644
--- a/core/parse/incremental.go
+++ b/core/parse/incremental.go
@@ -91,51 +91,22 @@ func (p *incrementalParser) getSections() []*xrefSection {
 
 // findLastStartXRef finds the startxref value before the last %%EOF
 func (p *incrementalParser) findLastStartXRef() (int64, error) {
-	// Search backwards from end for %%EOF
-	pdfStr := string(p.pdfBytes)
-
-	// Find all %%EOF markers
-	eofPattern := regexp.MustCompile(`%%EOF`)
-	eofMatches := eofPattern.FindAllStringIndex(pdfStr, -1)
-
-	if len(eofMatches) == 0 {
+	markers := FindAllEOFMarkers(p.pdfBytes)
+	if len(markers) == 0 {
 		return 0, fmt.Errorf("no %%EOF marker found")
 	}
 
 	// Take the last %%EOF that has a startxref right before it
-	startxrefPattern := regexp.MustCompile(`startxref\s+(\d+)`)
-	var match []string
-	lastEOF := 0
-	for i := len(eofMatches) - 1; i >= 0 && match == nil; i-- {
-		lastEOF = eofMatches[i][0]
-
-		// Search backwards from %%EOF for startxref
-		searchStart := lastEOF - 100
-		if searchStart < 0 {
-			searchStart = 0
-		}
-
-		searchSection := pdfStr[searchStart:lastEOF]
-		matches := startxrefPattern.FindAllStringSubmatch(searchSection, -1)
-		if len(matches) > 0 {
-			match = matches[len(matches)-1]
+	for i := len(markers) - 1; i >= 0; i-- {
+		if offset, ok := startXRefBefore(p.pdfBytes, markers[i]); ok {
+			if p.verbose {
+				fmt.Printf("Found last startxref: %d (before %%%%EOF at %d)\n", offset, markers[i])
+			}
+			return offset, nil
 		}
 	}
 
-	if match == nil {
-		return 0, fmt.Errorf("startxref not found before %%EOF")
-	}
-
-	offset, err := strconv.ParseInt(match[1], 10, 64)
-	if err != nil {
-		return 0, fmt.Errorf("invalid startxref value: %s", match[1])
-	}
-
-	if p.verbose {
-		fmt.Printf("Found last startxref: %d (before %%EOF at %d)\n", offset, lastEOF)
-	}
-
-	return offset, nil
+	return 0, fmt.Errorf("startxref not found before %%EOF")
 }
 
 // parseXRefChain parses xref sections following the /Prev chain
@@ -413,9 +384,35 @@ func FindAllEOFMarkers(pdfBytes []byte) []int {
 	return offsets
 }
 
+// startXRefPattern matches startxref and its number at the end of what it is
+// matched against; only white space and comments may follow
+var startXRefPattern = regexp.MustCompile(`startxref\s+(\d+)\s*(?:%[^\r\n]*[\r\n]\s*)*$`)
+
+// startXRefBefore returns the startxref value that the %%EOF marker at eofOffset ends
+func startXRefBefore(pdfBytes []byte, eofOffset int) (int64, bool) {
+	match := startXRefPattern.FindSubmatch(pdfBytes[max(0, eofOffset-100):eofOffset])
+	if match == nil {
+		return 0, false
+	}
+	offset, err := strconv.ParseInt(string(match[1]), 10, 64)
+	return offset, err == nil
+}
+
+// revisionMarkers returns the offsets of the %%EOF markers that end a revision.
+// The same bytes in strings or stream data do not.
+func revisionMarkers(pdfBytes []byte) []int {
+	var markers []int
+	for _, offset := range FindAllEOFMarkers(pdfBytes) {
+		if _, ok := startXRefBefore(pdfBytes, offset); ok {
+			markers = append(markers, offset)
+		}
+	}
+	return markers
+}
+
 // CountRevisions returns the number of revisions in the PDF
 func CountRevisions(pdfBytes []byte) int {
-	return len(FindAllEOFMarkers(pdfBytes))
+	return len(revisionMarkers(pdfBytes))
 }
 
 // parseWithIncrementalUpdates parses a PDF handling incremental updates
@@ -448,7 +445,7 @@ func parseCrossReferenceTableIncremental(pdfBytes []byte, verbose bool) (map[int
 
 // GetRevisionBoundaries returns the byte offsets where each revision ends (%%EOF positions)
 func GetRevisionBoundaries(pdfBytes []byte) []int {
-	offsets := FindAllEOFMarkers(pdfBytes)
+	offsets := revisionMarkers(pdfBytes)
 	// Each %%EOF is followed by a newline, add 5 + 1 for the boundary
 	for i := range offsets {
 		offsets[i] += 5 // Length of "%%EOF"
diff --git a/core/parse/object_stream.go b/core/parse/object_stream.go
index e10eaa7..a92bf1e 100644
--- a/core/parse/object_stream.go
+++ b/core/parse/object_stream.go
@@ -27,6 +27,8 @@ type XRefResult struct {
 	ObjectStreams map[int]ObjectStreamEntry
 	// Free objects (Type 0)
 	Free map[int]bool
+	// Generation numbers of regular objects
+	Generations map[int]int
 }
 
 // ParseXRefStreamFull parses a PDF cross-reference stream and returns both regular and compressed object info
@@ -35,6 +37,7 @@ func ParseXRefStreamFull(pdfBytes []byte, startXRef int64, verbose bool) (*XRefR
 		Objects:       make(map[int]int64),
 		ObjectStreams: make(map[int]ObjectStreamEntry),
 		Free:          make(map[int]bool),
+		Generations:   make(map[int]int),
 	}
 
 	// The xref stream object should be at startXRef
@@ -86,6 +89,7 @@ func ParseXRefStreamFull(pdfBytes []byte, startXRef int64, verbose bool) (*XRefR
 				// field2 = byte offset, field3 = generation
 				if field2 > 0 {
 					result.Objects[objNum] = field2
+					result.Generations[objNum] = int(field3)
 				}
 			case 2:
 				// Type 2: compressed object in object stream
-- 
2.43.0


From b990af2f779ce41f75581ae1dfdff6a4cc9a451b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:56 +0000
Subject: [PATCH 33/99] fix: crypt filter methods and unencrypted metadata
 streams

---
 core/encrypt/decrypt.go  | 14 ++++++++++++--
 core/encrypt/parser.go   | 38 ++++++++++++++++++++++++++++++++++++++
 core/encrypt/strings.go  | 12 +++++++++++-
 core/parse/get_object.go |  5 ++++-
 core/write/writer.go     | 31 ++++++++++++++++++++++---------
 types/types.go           |  2 ++
 6 files changed, 89 insertions(+), 13 deletions(-)

diff --git a/core/encrypt/decrypt.go b/core/encrypt/decrypt.go
index 8596c7f..045f582 100644
--- a/core/encrypt/decrypt.go
+++ b/core/encrypt/decrypt.go
@@ -200,7 +200,17 @@ func DecryptPDFObjects(pdfBytes []byte, encrypt *types.PDFEncryption, verbose bo
 // Algorithm 1 from ISO 32000-1:2008
 // Implementation copied EXACTLY from PyPDF's _make_crypt_filter (lines 914-935) and CryptAES.decrypt (lines 73-88)
 func DecryptObject(objBytes []byte, objNum, genNum int, encrypt *types.PDFEncryption) ([]byte, error) {
-	if encrypt == nil || len(encrypt.EncryptKey) == 0 {
+	if encrypt == nil {
+		// Not encrypted
+		return objBytes, nil
+	}
+	return decrypt(objBytes, objNum, genNum, encrypt, encrypt.StreamMethod)
+}
+
+// decrypt decrypts a stream or string with the method of a crypt filter; an empty
+// method stands for that of the version
+func decrypt(objBytes []byte, objNum, genNum int, encrypt *types.PDFEncryption, method string) ([]byte, error) {
+	if len(encrypt.EncryptKey) == 0 || method == "None" {
 		// Not encrypted
 		return objBytes, nil
 	}
@@ -239,7 +249,7 @@ func DecryptObject(objBytes []byte, objNum, genNum int, encrypt *types.PDFEncryp
 	keyHash.Write(keyData)
 
 	// Decrypt based on encryption algorithm
-	if encrypt.V == 1 || encrypt.V == 2 {
+	if encrypt.V == 1 || encrypt.V == 2 || method == "V2" {
 		// RC4 encryption
 		// PyPDF line 922: rc4_key = key_hash.digest()[: min(n + 5, 16)]
 		rc4KeyHash := keyHash.Sum(nil)
diff --git a/core/encrypt/parser.go b/core/encrypt/parser.go
index 115f5e3..5f3b593 100644
--- a/core/encrypt/parser.go
+++ b/core/encrypt/parser.go
@@ -59,6 +59,16 @@ func ParseEncryptionDictionary(pdfBytes []byte, verbose bool) (*types.PDFEncrypt
 
 	encrypt.EncryptMetadata = string(entries["EncryptMetadata"]) != "false"
 
+	// Crypt filters - V4+ only
+	if encrypt.V >= 4 && entries["CF"] != nil {
+		if encrypt.StreamMethod, err = cryptFilterMethod(entries["CF"], entries["StmF"]); err != nil {
+			return nil, err
+		}
+		if encrypt.StringMethod, err = cryptFilterMethod(entries["CF"], entries["StrF"]); err != nil {
+			return nil, err
+		}
+	}
+
 	// Wrapped encryption keys - V5+ only
 	if encrypt.R >= 5 {
 		encrypt.UE = stringValue(entries["UE"])
@@ -72,3 +82,31 @@ func ParseEncryptionDictionary(pdfBytes []byte, verbose bool) (*types.PDFEncrypt
 
 	return encrypt, nil
 }
+
+// cryptFilterMethod returns the method of the crypt filter called name in the
+// dictionary cf.
+func cryptFilterMethod(cf, name []byte) (string, error) {
+	if len(name) == 0 || string(name) == "/Identity" {
+		return "None", nil
+	}
+	filters, _, err := dictEntries(cf, 0)
+	if err != nil {
+		return "", fmt.Errorf("invalid /CF entry: %v", err)
+	}
+	filter := filters[strings.TrimPrefix(string(name), "/")]
+	if filter == nil {
+		return "", fmt.Errorf("crypt filter %s not found", name)
+	}
+	entries, _, err := dictEntries(filter, 0)
+	if err != nil {
+		return "", fmt.Errorf("invalid crypt filter %s: %v", name, err)
+	}
+	switch method := strings.TrimPrefix(string(entries["CFM"]), "/"); method {
+	case "":
+		return "None", nil
+	case "None", "V2", "AESV2", "AESV3":
+		return method, nil
+	default:
+		return "", fmt.Errorf("unsupported crypt filter method %s", method)
+	}
+}
diff --git a/core/encrypt/strings.go b/core/encrypt/strings.go
index 74168b5..42d3c29 100644
--- a/core/encrypt/strings.go
+++ b/core/encrypt/strings.go
@@ -56,7 +56,7 @@ func MapStrings(content []byte, f func([]byte) ([]byte, error)) ([]byte, error)
 // Strings that cannot be decrypted are left as they are.
 func DecryptStrings(content []byte, objNum, genNum int, encrypt *types.PDFEncryption) ([]byte, error) {
 	return MapStrings(content, func(s []byte) ([]byte, error) {
-		decrypted, err := DecryptObject(s, objNum, genNum, encrypt)
+		decrypted, err := decrypt(s, objNum, genNum, encrypt, encrypt.StringMethod)
 		if err != nil {
 			return s, nil
 		}
@@ -64,6 +64,16 @@ func DecryptStrings(content []byte, objNum, genNum int, encrypt *types.PDFEncryp
 	})
 }
 
+// IsClearMetadata reports whether dict is the dictionary of a metadata stream that
+// is left unencrypted (/EncryptMetadata false).
+func IsClearMetadata(dict []byte, encrypt *types.PDFEncryption) bool {
+	if encrypt == nil || encrypt.V < 4 || encrypt.EncryptMetadata {
+		return false
+	}
+	entries, _, err := dictEntries(dict, 0)
+	return err == nil && string(entries["Type"]) == "/Metadata"
+}
+
 // literalString decodes the literal string at pos and returns its end, or -1.
 func literalString(data []byte, pos int) ([]byte, int) {
 	value := []byte{}
diff --git a/core/parse/get_object.go b/core/parse/get_object.go
index eae8066..1b0c7fa 100644
--- a/core/parse/get_object.go
+++ b/core/parse/get_object.go
@@ -163,7 +163,10 @@ func GetDirectObject(pdfBytes []byte, objNum int, offset int64, encryptInfo *typ
 			if verbose {
 				log.Printf("Decrypting stream: %d bytes, objNum=%d, genNum=%d", len(streamData), objNum, genNum)
 			}
-			decryptedStream, err := encrypt.DecryptObject(streamData, objNum, genNum, encryptInfo)
+			decryptedStream, err := streamData, error(nil)
+			if !encrypt.IsClearMetadata(dictPart, encryptInfo) {
+				decryptedStream, err = encrypt.DecryptObject(streamData, objNum, genNum, encryptInfo)
+			}
 			if err == nil {
 				if verbose {
 					log.Printf("Decryption successful: %d -> %d bytes", len(streamData), len(decryptedStream))
diff --git a/core/write/writer.go b/core/write/writer.go
index c6e691b..5d66141 100644
--- a/core/write/writer.go
+++ b/core/write/writer.go
@@ -298,7 +298,7 @@ func (w *PDFWriter) Write(out io.Writer) error {
 
 			// Encrypt stream if needed
 			streamData := obj.Stream
-			if w.encryptInfo != nil {
+			if w.encryptInfo != nil && !encrypt.IsClearMetadata(w.formatDictionary(dict), w.encryptInfo) {
 				encrypted, err := w.encryptStream(streamData, objNum, obj.Generation)
 				if err != nil {
 					// never fall back to writing the data in the clear
@@ -500,11 +500,15 @@ func (w *PDFWriter) encryptContent(content []byte, objNum, genNum int) ([]byte,
 	if !isStream {
 		return w.encryptStrings(content, objNum, genNum)
 	}
-	encrypted, err := w.encryptStream(data, objNum, genNum)
-	if err != nil {
-		return nil, err
+	encrypted := data
+	if !encrypt.IsClearMetadata(dict, w.encryptInfo) {
+		var err error
+		encrypted, err = w.encryptStream(data, objNum, genNum)
+		if err != nil {
+			return nil, err
+		}
 	}
-	dict, err = w.encryptStrings(parse.SetLength(dict, len(encrypted)), objNum, genNum)
+	dict, err := w.encryptStrings(parse.SetLength(dict, len(encrypted)), objNum, genNum)
 	if err != nil {
 		return nil, err
 	}
@@ -519,13 +523,22 @@ func (w *PDFWriter) encryptContent(content []byte, objNum, genNum int) ([]byte,
 // encryptStrings encrypts the strings of an object or of a stream dictionary
 func (w *PDFWriter) encryptStrings(content []byte, objNum, genNum int) ([]byte, error) {
 	return encrypt.MapStrings(content, func(s []byte) ([]byte, error) {
-		return w.encryptStream(s, objNum, genNum)
+		return w.encryptData(s, objNum, genNum, w.encryptInfo.StringMethod)
 	})
 }
 
 // encryptStream encrypts stream data using the PDF's encryption settings
 func (w *PDFWriter) encryptStream(data []byte, objNum, genNum int) ([]byte, error) {
-	if w.encryptInfo == nil || len(w.encryptInfo.EncryptKey) == 0 {
+	if w.encryptInfo == nil {
+		return data, nil
+	}
+	return w.encryptData(data, objNum, genNum, w.encryptInfo.StreamMethod)
+}
+
+// encryptData encrypts with the method of a crypt filter; an empty method stands
+// for that of the version
+func (w *PDFWriter) encryptData(data []byte, objNum, genNum int, method string) ([]byte, error) {
+	if len(w.encryptInfo.EncryptKey) == 0 || method == "None" {
 		return data, nil
 	}
 
@@ -550,7 +563,7 @@ func (w *PDFWriter) encryptStream(data []byte, objNum, genNum int) ([]byte, erro
 	keyHash.Write(keyData)
 
 	// AES encryption
-	if w.encryptInfo.V == 4 || w.encryptInfo.V == 5 {
+	if (w.encryptInfo.V == 4 || w.encryptInfo.V == 5) && method != "V2" {
 		keyHash.Write([]byte{0x73, 0x41, 0x6C, 0x54}) // "sAlT"
 		aesKeyHash := keyHash.Sum(nil)
 		aesKeyLen := min(n+5, 16)
@@ -589,7 +602,7 @@ func (w *PDFWriter) encryptStream(data []byte, objNum, genNum int) ([]byte, erro
 	}
 
 	// RC4 encryption (V1, V2)
-	if w.encryptInfo.V == 1 || w.encryptInfo.V == 2 {
+	if w.encryptInfo.V == 1 || w.encryptInfo.V == 2 || method == "V2" {
 		rc4Cipher, err := rc4.NewCipher(keyHash.Sum(nil)[:min(n+5, 16)])
 		if err != nil {
 			return nil, err
diff --git a/types/types.go b/types/types.go
index 24ad007..b0b9427 100644
--- a/types/types.go
+++ b/types/types.go
@@ -17,6 +17,8 @@ type PDFEncryption struct {
 	EncryptMetadata bool
 	EncryptKey      []byte // Master encryption key
 	ObjNum          int    // Object number of the encryption dictionary (0 if unknown)
+	StreamMethod    string // Crypt filter method of streams: "V2", "AESV2", "AESV3" or "None" (empty: by V)
+	StringMethod    string // Crypt filter method of strings
 }
 
 // FormData represents the data to fill into the form
-- 
2.43.0


From 82a717aa2fee07d9742614e92326dd0f864397cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:01 +0000
Subject: [PATCH 34/99] fix: comments in the file identifier and before values
 of the encryption dictionary

---
 core/encrypt/trailer.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/core/encrypt/trailer.go b/core/encrypt/trailer.go
index 29dcaa3..3249285 100644
--- a/core/encrypt/trailer.go
+++ b/core/encrypt/trailer.go
@@ -198,8 +198,15 @@ func isSpace(c byte) bool {
 	return c == ' ' || c == '\n' || c == '\r' || c == '\t' || c == '\f' || c == 0
 }
 
+// skipSpace skips white space and comments.
 func skipSpace(data []byte, pos int) int {
-	for pos < len(data) && isSpace(data[pos]) {
+	for pos < len(data) && (isSpace(data[pos]) || data[pos] == '%') {
+		if data[pos] == '%' {
+			for pos < len(data) && data[pos] != '\r' && data[pos] != '\n' {
+				pos++
+			}
+			continue
+		}
 		pos++
 	}
 	return pos
-- 
2.43.0


From a02a3cead0a86a705b56e54f750c04f361d8a21d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:32 +0000
Subject: [PATCH 35/99] fix: content extraction reads dictionaries by tokens
 and pages with inherited attributes

---
 content/extract/dict_helpers.go |  94 ++++++++++-------
 content/extract/images.go       |  71 ++-----------
 content/extract/pages.go        | 178 ++++++++++++--------------------
 content/extract/resources.go    | 128 ++++-------------------
 core/parse/scan.go              |  93 +++++++++++++++++
 5 files changed, 243 insertions(+), 321 deletions(-)

diff --git a/content/extract/dict_helpers.go b/content/extract/dict_helpers.go
index 2467c6e..e04a39d 100644
--- a/content/extract/dict_helpers.go
+++ b/content/extract/dict_helpers.go
@@ -1,48 +1,72 @@
 package extract
 
-import "strings"
-
-// extractInlineDict extracts an inline dictionary value from a PDF dictionary string
-// For example, from "/Resources<<...>>", extracts the "<<...>>" part
-func extractInlineDict(dictStr, key string) string {
-	keyIdx := strings.Index(dictStr, key)
-	if keyIdx == -1 {
-		return ""
-	}
+import (
+	"fmt"
+	"strings"
 
-	// Find the dictionary after the key
-	dictStart := keyIdx + len(key)
-	for dictStart < len(dictStr) && (dictStr[dictStart] == ' ' || dictStr[dictStart] == '\n' || dictStr[dictStart] == '\r') {
-		dictStart++
-	}
+	"github.com/benedoc-inc/pdfer/core/parse"
+)
+
+// pageDict is a page object, with the attributes it inherits from its parents
+type pageDict struct {
+	objNum int
+	dict   string
+}
+
+// inheritableAttributes are the attributes that a page takes from its nearest parent
+// that has them, if it has none of its own
+var inheritableAttributes = []string{"/Resources", "/MediaBox", "/CropBox", "/Rotate"}
 
-	// Check if it's a dictionary <<...>>
-	if dictStart+1 >= len(dictStr) || dictStr[dictStart] != '<' || dictStr[dictStart+1] != '<' {
-		return ""
+// collectPages finds the pages at and below a node of the pages tree, in page order.
+// parents are the nodes above it, the root of the tree first.
+func collectPages(pdf *parse.PDF, objNum int, parents []pageDict, verbose bool) ([]pageDict, error) {
+	obj, err := pdf.GetObject(objNum)
+	if err != nil {
+		return nil, fmt.Errorf("failed to get pages object %d: %w", objNum, err)
+	}
+	dict := string(parse.ObjectContent(obj))
+	if verbose {
+		fmt.Printf("Pages object %d: %s\n", objNum, dict)
 	}
 
-	// Find matching >>
-	dictEnd := dictStart + 2
-	depth := 1
-	for dictEnd+1 < len(dictStr) && depth > 0 {
-		if dictStr[dictEnd] == '>' && dictStr[dictEnd+1] == '>' {
-			depth--
-			if depth == 0 {
-				// Return the dictionary content (without << >>)
-				return dictStr[dictStart+2 : dictEnd]
+	if extractDictValue(dict, "/Type") == "/Page" {
+		start := strings.Index(dict, "<<") + len("<<")
+		for _, key := range inheritableAttributes {
+			if extractDictValue(dict, key) != "" {
+				continue
+			}
+			for i := len(parents) - 1; i >= 0; i-- {
+				if value := extractDictValue(parents[i].dict, key); value != "" {
+					dict = dict[:start] + key + " " + value + " " + dict[start:]
+					break
+				}
 			}
-			dictEnd += 2
-		} else if dictEnd+1 < len(dictStr) && dictStr[dictEnd] == '<' && dictStr[dictEnd+1] == '<' {
-			depth++
-			dictEnd += 2
-		} else {
-			dictEnd++
 		}
+		return []pageDict{{objNum, dict}}, nil
 	}
 
-	if depth == 0 {
-		return dictStr[dictStart+2 : dictEnd]
+	// This is a pages node - a node that is below itself has no pages of its own
+	for _, parent := range parents {
+		if parent.objNum == objNum {
+			return nil, nil
+		}
 	}
+	parents = append(parents[:len(parents):len(parents)], pageDict{objNum, dict})
 
-	return ""
+	var pages []pageDict
+	for _, kidRef := range parseObjectRefArray(extractArray(dict, "/Kids", pdf)) {
+		kidObjNum, err := parseObjectRef(kidRef)
+		if err != nil {
+			continue
+		}
+		childPages, err := collectPages(pdf, kidObjNum, parents, verbose)
+		if err != nil {
+			if verbose {
+				fmt.Printf("Warning: failed to extract from child %d: %v\n", kidObjNum, err)
+			}
+			continue
+		}
+		pages = append(pages, childPages...)
+	}
+	return pages, nil
 }
diff --git a/content/extract/images.go b/content/extract/images.go
index 31336e6..5f69e18 100644
--- a/content/extract/images.go
+++ b/content/extract/images.go
@@ -191,36 +191,21 @@ func ExtractAllImages(pdfBytes []byte, password []byte, verbose bool) ([]types.I
 		return []types.Image{}, fmt.Errorf("failed to parse Pages reference: %w", err)
 	}
 
-	// Recursively find all page objects
-	pageObjNums := extractPageObjectNumbers(pdf, pagesObjNum, verbose)
+	// Find all page objects
+	pageDicts, err := collectPages(pdf, pagesObjNum, nil, verbose)
+	if err != nil {
+		return []types.Image{}, fmt.Errorf("failed to get pages: %w", err)
+	}
 
 	// For each page, extract Resources and get image object numbers
-	for i, pageObjNum := range pageObjNums {
+	for i, pageDict := range pageDicts {
 		if i >= len(doc.Pages) {
 			break
 		}
 
-		pageObj, err := pdf.GetObject(pageObjNum)
-		if err != nil {
-			continue
-		}
-
-		pageStr := string(pageObj)
+		pageStr := pageDict.dict
 		// Extract Resources
-		resourcesRef := extractDictValue(pageStr, "/Resources")
-		var resourcesStr string
-		if resourcesRef != "" {
-			resourcesObjNum, err := parseObjectRef(resourcesRef)
-			if err == nil {
-				resourcesObj, err := pdf.GetObject(resourcesObjNum)
-				if err == nil {
-					resourcesStr = string(resourcesObj)
-				}
-			}
-		} else {
-			// Inline Resources
-			resourcesStr = extractInlineDict(pageStr, "/Resources")
-		}
+		resourcesStr := extractDict(pageStr, "/Resources", pdf)
 
 		if resourcesStr != "" {
 			// Extract XObject object numbers
@@ -271,43 +256,3 @@ func ExtractAllImages(pdfBytes []byte, password []byte, verbose bool) ([]types.I
 
 	return allImages, nil
 }
-
-// extractPageObjectNumbers recursively extracts page object numbers from the pages tree
-func extractPageObjectNumbers(pdf *parse.PDF, pagesObjNum int, verbose bool) []int {
-	var pageObjNums []int
-
-	pagesObj, err := pdf.GetObject(pagesObjNum)
-	if err != nil {
-		return pageObjNums
-	}
-
-	pagesStr := string(pagesObj)
-
-	// Check if this is a /Page (leaf) or /Pages (intermediate)
-	pageType := extractDictValue(pagesStr, "/Type")
-	if pageType == "/Page" {
-		// This is a page - add it
-		pageObjNums = append(pageObjNums, pagesObjNum)
-		return pageObjNums
-	}
-
-	// This is a /Pages node - get Kids and recurse
-	kidsStr := extractDictValue(pagesStr, "/Kids")
-	if kidsStr == "" {
-		return pageObjNums
-	}
-
-	// Parse kids array
-	kidsRefs := parseObjectRefArray(kidsStr)
-	for _, kidRef := range kidsRefs {
-		kidObjNum, err := parseObjectRef(kidRef)
-		if err != nil {
-			continue
-		}
-		// Recurse
-		childPages := extractPageObjectNumbers(pdf, kidObjNum, verbose)
-		pageObjNums = append(pageObjNums, childPages...)
-	}
-
-	return pageObjNums
-}
diff --git a/content/extract/pages.go b/content/extract/pages.go
index 7523801..f2cec8e 100644
--- a/content/extract/pages.go
+++ b/content/extract/pages.go
@@ -1,6 +1,7 @@
 package extract
 
 import (
+	"bytes"
 	"fmt"
 	"regexp"
 	"strconv"
@@ -68,84 +69,22 @@ func ExtractPages(pdfBytes []byte, pdf *parse.PDF, verbose bool) ([]types.Page,
 
 // extractPagesFromTree recursively extracts pages from a pages tree
 func extractPagesFromTree(pdfBytes []byte, pdf *parse.PDF, pagesObjNum int, verbose bool) ([]types.Page, error) {
-	var result []types.Page
-
-	pagesObj, err := pdf.GetObject(pagesObjNum)
+	pageDicts, err := collectPages(pdf, pagesObjNum, nil, verbose)
 	if err != nil {
-		return nil, fmt.Errorf("failed to get pages object %d: %w", pagesObjNum, err)
+		return nil, err
 	}
 
-	pagesStr := string(pagesObj)
-	if verbose {
-		fmt.Printf("Pages object %d: %s\n", pagesObjNum, pagesStr)
-	}
-
-	// Check if this is a page or a pages node
-	// Look for /Type/Page or /Type/Pages in the dictionary
-	// Need to check for exact match, not substring (e.g., /Type/Page should not match /Type/Pages)
-	pageType := ""
-	if strings.Contains(pagesStr, "/Type/Pages") || strings.Contains(pagesStr, "/Type /Pages") {
-		pageType = "/Pages"
-	} else if strings.Contains(pagesStr, "/Type/Page") || strings.Contains(pagesStr, "/Type /Page") {
-		// Make sure it's not /Type/Pages
-		if !strings.Contains(pagesStr, "/Type/Pages") && !strings.Contains(pagesStr, "/Type /Pages") {
-			pageType = "/Page"
-		}
-	}
-	if verbose {
-		fmt.Printf("Type: %s (from string check)\n", pageType)
-	}
-	if pageType == "/Page" {
-		// This is a page object
-		page, err := extractPage(pdfBytes, pdf, pagesObjNum, pagesStr, verbose)
-		if err != nil {
-			if verbose {
-				fmt.Printf("Warning: failed to extract page %d: %v\n", pagesObjNum, err)
-			}
-			return result, nil
-		}
-		return []types.Page{page}, nil
-	}
-
-	// This is a pages node - get Kids array
-	kidsStr := extractDictValue(pagesStr, "/Kids")
-	if verbose {
-		fmt.Printf("Kids string: %s\n", kidsStr)
-	}
-	if kidsStr == "" {
-		if verbose {
-			fmt.Printf("No Kids array found in pages object\n")
-		}
-		return result, nil
-	}
-
-	// Parse Kids array (e.g., "[5 0 R 6 0 R 7 0 R]" or "5 0 R 6 0 R")
-	// If kidsStr already starts with [, use it as-is, otherwise wrap it
-	if !strings.HasPrefix(kidsStr, "[") {
-		kidsStr = "[" + kidsStr + "]"
-	}
-	kids := parseObjectRefArray(kidsStr)
-	for _, kidRef := range kids {
-		kidObjNum, err := parseObjectRef(kidRef)
-		if err != nil {
-			if verbose {
-				fmt.Printf("Warning: failed to parse kid reference %s: %v\n", kidRef, err)
-			}
-			continue
-		}
-
-		// Recursively extract from child
-		childPages, err := extractPagesFromTree(pdfBytes, pdf, kidObjNum, verbose)
+	var result []types.Page
+	for _, pageDict := range pageDicts {
+		page, err := extractPage(pdfBytes, pdf, pageDict.objNum, pageDict.dict, verbose)
 		if err != nil {
 			if verbose {
-				fmt.Printf("Warning: failed to extract from child %d: %v\n", kidObjNum, err)
+				fmt.Printf("Warning: failed to extract page %d: %v\n", pageDict.objNum, err)
 			}
 			continue
 		}
-
-		result = append(result, childPages...)
+		result = append(result, page)
 	}
-
 	return result, nil
 }
 
@@ -192,25 +131,9 @@ func extractPage(pdfBytes []byte, pdf *parse.PDF, pageObjNum int, pageStr string
 	}
 
 	// Extract resources FIRST (needed for font decoders for text extraction)
-	var resourcesStr string
-	resourcesRef := extractDictValue(pageStr, "/Resources")
-	if resourcesRef != "" {
-		// Resources is a reference to another object
-		resourcesObjNum, err := parseObjectRef(resourcesRef)
-		if err == nil {
-			resourcesObj, err := pdf.GetObject(resourcesObjNum)
-			if err == nil {
-				resourcesStr = string(resourcesObj)
-				page.Resources = extractResources(resourcesStr, pdf, verbose)
-			}
-		}
-	} else {
-		// Resources might be inline - extract the Resources dictionary from page string
-		resourcesDictStr := extractInlineDict(pageStr, "/Resources")
-		if resourcesDictStr != "" {
-			resourcesStr = resourcesDictStr
-			page.Resources = extractResources(resourcesStr, pdf, verbose)
-		}
+	resourcesStr := extractDict(pageStr, "/Resources", pdf)
+	if resourcesStr != "" {
+		page.Resources = extractResources(resourcesStr, pdf, verbose)
 	}
 
 	// Extract font decoders for text extraction
@@ -220,7 +143,7 @@ func extractPage(pdfBytes []byte, pdf *parse.PDF, pageObjNum int, pageStr string
 	}
 
 	// Extract content streams
-	contents := extractDictValue(pageStr, "/Contents")
+	contents := extractArray(pageStr, "/Contents", pdf)
 	if contents != "" {
 		// Contents can be a single reference or an array
 		// Decompress and parse content stream
@@ -299,8 +222,7 @@ func extractPage(pdfBytes []byte, pdf *parse.PDF, pageObjNum int, pageStr string
 	}
 
 	// Extract annotations
-	// extractDictValue already handles arrays and returns them as "[...]" strings
-	annotsRef := extractDictValue(pageStr, "/Annots")
+	annotsRef := extractArray(pageStr, "/Annots", pdf)
 	if annotsRef != "" {
 		annotations := extractAnnotations(annotsRef, pdf, pageObjNum, verbose)
 		page.Annotations = annotations
@@ -311,42 +233,70 @@ func extractPage(pdfBytes []byte, pdf *parse.PDF, pageObjNum int, pageStr string
 
 // Helper functions for parsing PDF dictionaries and arrays
 
+// extractDictValue returns the value of key in a dictionary, as it is written there, or
+// "" if there is none. The dictionary may be a whole object, and the "<<" and ">>" around
+// the entries may be missing.
 func extractDictValue(dictStr, key string) string {
-	// Try to match simple value with space (e.g., "/Pages 2 0 R")
-	pattern := regexp.MustCompile(regexp.QuoteMeta(key) + `\s+([^\s<>]+)`)
-	match := pattern.FindStringSubmatch(dictStr)
-	if len(match) > 1 {
-		return match[1]
+	content := parse.ObjectContent([]byte(dictStr))
+	start, end, ok := parse.DictValue(content, key)
+	if !ok && !bytes.HasPrefix(bytes.TrimSpace(content), []byte("<<")) {
+		content = []byte("<<" + string(content) + ">>")
+		start, end, ok = parse.DictValue(content, key)
 	}
-
-	// Try to match value without space (e.g., "/Subtype/Type1")
-	// This handles PDF dictionaries where values immediately follow keys
-	noSpacePattern := regexp.MustCompile(regexp.QuoteMeta(key) + `/([^/\s<>]+)`)
-	noSpaceMatch := noSpacePattern.FindStringSubmatch(dictStr)
-	if len(noSpaceMatch) > 1 {
-		return "/" + noSpaceMatch[1]
+	if !ok {
+		return ""
 	}
+	return string(content[start:end])
+}
 
-	// Try to match array value (e.g., "/Kids[4 0 R ]")
-	arrayPattern := regexp.MustCompile(regexp.QuoteMeta(key) + `\s*\[([^\]]+)\]`)
-	arrayMatch := arrayPattern.FindStringSubmatch(dictStr)
-	if len(arrayMatch) > 1 {
-		return "[" + arrayMatch[1] + "]"
+// extractDict returns the dictionary that key has as its value, directly or through a
+// reference, or "" if there is none
+func extractDict(dictStr, key string, pdf *parse.PDF) string {
+	value := extractDictValue(dictStr, key)
+	if strings.HasPrefix(value, "<<") {
+		return value
 	}
+	objNum, err := parseObjectRef(value)
+	if err != nil {
+		return ""
+	}
+	obj, err := pdf.GetObject(objNum)
+	if err != nil {
+		return ""
+	}
+	return string(parse.ObjectContent(obj))
+}
 
-	return ""
+// extractArray returns the array that key has as its value, directly or through a
+// reference. A single reference to something else is returned as it is.
+func extractArray(dictStr, key string, pdf *parse.PDF) string {
+	value := extractDictValue(dictStr, key)
+	if value == "" || strings.HasPrefix(value, "[") {
+		return value
+	}
+	objNum, err := parseObjectRef(value)
+	if err != nil {
+		return value
+	}
+	obj, err := pdf.GetObject(objNum)
+	if err != nil {
+		return value
+	}
+	if array := string(parse.ObjectContent(obj)); strings.HasPrefix(array, "[") {
+		return array
+	}
+	return value
 }
 
 func extractArrayValue(dictStr, key string) []float64 {
-	// Find the array after the key (e.g., "/MediaBox [0 0 612 792]")
-	pattern := regexp.MustCompile(regexp.QuoteMeta(key) + `\s*\[\s*([^\]]+)\]`)
-	match := pattern.FindStringSubmatch(dictStr)
-	if match == nil || len(match) < 2 {
+	// The array after the key (e.g., "/MediaBox [0 0 612 792]")
+	array := extractDictValue(dictStr, key)
+	if !strings.HasPrefix(array, "[") {
 		return nil
 	}
 
 	// Parse numbers from array
-	parts := strings.Fields(match[1])
+	parts := strings.Fields(strings.Trim(array, "[]"))
 	var values []float64
 	for _, part := range parts {
 		if val, err := strconv.ParseFloat(part, 64); err == nil {
diff --git a/content/extract/resources.go b/content/extract/resources.go
index ae9a6dc..7aaf4a7 100644
--- a/content/extract/resources.go
+++ b/content/extract/resources.go
@@ -10,6 +10,9 @@ import (
 	"github.com/benedoc-inc/pdfer/types"
 )
 
+// resourceEntry matches an entry of a resource dictionary, such as "/F1 5 0 R"
+var resourceEntry = regexp.MustCompile(`/([^\s/<>\[\](){}%]+)\s+(\d+)\s+\d+\s+R`)
+
 // extractResources extracts resources from a Resources dictionary
 func extractResources(resourcesStr string, pdf *parse.PDF, verbose bool) *types.PageResources {
 	resources := &types.PageResources{
@@ -57,59 +60,20 @@ func extractFontsDict(resourcesStr string, pdf *parse.PDF, verbose bool) map[str
 		fmt.Printf("Extracting fonts from Resources string: %s\n", resourcesStr[:min(200, len(resourcesStr))])
 	}
 
-	// Find /Font dictionary - handle both << >> and inline formats
-	// Pattern: /Font<<...>> or /Font <<...>>
-	// First try simple pattern
-	fontPattern := regexp.MustCompile(`/Font\s*<<([^>]*)>>`)
-	fontMatch := fontPattern.FindStringSubmatch(resourcesStr)
-
-	if fontMatch == nil {
-		// Try finding /Font followed by << with balanced brackets
-		fontIdx := strings.Index(resourcesStr, "/Font")
-		if fontIdx != -1 {
-			// Find the << after /Font
-			dictStart := fontIdx + 5
-			for dictStart < len(resourcesStr) && (resourcesStr[dictStart] == ' ' || resourcesStr[dictStart] == '\n' || resourcesStr[dictStart] == '\r') {
-				dictStart++
-			}
-			if dictStart < len(resourcesStr) && resourcesStr[dictStart] == '<' && dictStart+1 < len(resourcesStr) && resourcesStr[dictStart+1] == '<' {
-				// Find matching >>
-				dictEnd := dictStart + 2
-				depth := 1
-				for dictEnd < len(resourcesStr) && depth > 0 {
-					if dictEnd+1 < len(resourcesStr) && resourcesStr[dictEnd] == '>' && resourcesStr[dictEnd+1] == '>' {
-						depth--
-						if depth == 0 {
-							fontDictStr := resourcesStr[dictStart+2 : dictEnd]
-							fontMatch = []string{"", fontDictStr}
-							break
-						}
-						dictEnd += 2
-					} else if dictEnd+1 < len(resourcesStr) && resourcesStr[dictEnd] == '<' && resourcesStr[dictEnd+1] == '<' {
-						depth++
-						dictEnd += 2
-					} else {
-						dictEnd++
-					}
-				}
-			}
-		}
-	}
-
-	if fontMatch == nil {
+	// Find /Font dictionary
+	fontDictStr := extractDict(resourcesStr, "/Font", pdf)
+	if fontDictStr == "" {
 		if verbose {
 			fmt.Printf("No /Font dictionary found in Resources\n")
 		}
 		return fonts
 	}
-
-	fontDictStr := fontMatch[1]
 	if verbose {
 		fmt.Printf("Found Font dictionary: %s\n", fontDictStr)
 	}
 
 	// Parse font entries: /F1 5 0 R /F2 6 0 R ...
-	fontEntryPattern := regexp.MustCompile(`/(\w+)\s+(\d+)\s+\d+\s+R`)
+	fontEntryPattern := resourceEntry
 	fontEntries := fontEntryPattern.FindAllStringSubmatch(fontDictStr, -1)
 
 	if verbose {
@@ -222,22 +186,13 @@ func extractXObjectsDict(resourcesStr string, pdf *parse.PDF, verbose bool) map[
 	xobjects := make(map[string]types.XObject)
 
 	// Find /XObject dictionary
-	xobjPattern := regexp.MustCompile(`/XObject\s*<<([^>]*)>>`)
-	xobjMatch := xobjPattern.FindStringSubmatch(resourcesStr)
-	if xobjMatch == nil {
-		// Try without << >> (inline dictionary)
-		xobjPattern2 := regexp.MustCompile(`/XObject\s*<<([^>]+)`)
-		xobjMatch2 := xobjPattern2.FindStringSubmatch(resourcesStr)
-		if xobjMatch2 == nil {
-			return xobjects
-		}
-		xobjMatch = xobjMatch2
+	xobjDictStr := extractDict(resourcesStr, "/XObject", pdf)
+	if xobjDictStr == "" {
+		return xobjects
 	}
 
-	xobjDictStr := xobjMatch[1]
-
 	// Parse XObject entries: /Im1 5 0 R /Im2 6 0 R ...
-	xobjEntryPattern := regexp.MustCompile(`/(\w+)\s+(\d+)\s+\d+\s+R`)
+	xobjEntryPattern := resourceEntry
 	xobjEntries := xobjEntryPattern.FindAllStringSubmatch(xobjDictStr, -1)
 
 	for _, entry := range xobjEntries {
@@ -260,23 +215,13 @@ func extractXObjectsDictWithObjNums(resourcesStr string, pdf *parse.PDF, verbose
 	objNums := make(map[string]int) // image name -> object number
 
 	// Find /XObject dictionary
-	xobjPattern := regexp.MustCompile(`/XObject\s*<<([^>]*)>>`)
-	xobjMatch := xobjPattern.FindStringSubmatch(resourcesStr)
-	if xobjMatch == nil {
-		// Try without << >> (inline dictionary)
-		xobjPattern2 := regexp.MustCompile(`/XObject\s*<<([^>]+)`)
-		xobjMatch2 := xobjPattern2.FindStringSubmatch(resourcesStr)
-		if xobjMatch2 != nil {
-			xobjMatch = xobjMatch2
-		} else {
-			return xobjects, objNums
-		}
+	xobjDictStr := extractDict(resourcesStr, "/XObject", pdf)
+	if xobjDictStr == "" {
+		return xobjects, objNums
 	}
 
-	xobjDictStr := xobjMatch[1]
-
 	// Parse XObject entries: /Im1 5 0 R /Im2 6 0 R ...
-	xobjEntryPattern := regexp.MustCompile(`/(\w+)\s+(\d+)\s+\d+\s+R`)
+	xobjEntryPattern := resourceEntry
 	xobjEntries := xobjEntryPattern.FindAllStringSubmatch(xobjDictStr, -1)
 
 	for _, entry := range xobjEntries {
@@ -350,52 +295,17 @@ func extractFontDecoders(resourcesStr string, pdf *parse.PDF, verbose bool) map[
 		fmt.Printf("Extracting font decoders from Resources string: %s\n", resourcesStr[:min(200, len(resourcesStr))])
 	}
 
-	// Find /Font dictionary - handle both << >> and inline formats
-	fontPattern := regexp.MustCompile(`/Font\s*<<([^>]*)>>`)
-	fontMatch := fontPattern.FindStringSubmatch(resourcesStr)
-
-	if fontMatch == nil {
-		// Try finding /Font followed by << with balanced brackets
-		fontIdx := strings.Index(resourcesStr, "/Font")
-		if fontIdx != -1 {
-			dictStart := fontIdx + 5
-			for dictStart < len(resourcesStr) && (resourcesStr[dictStart] == ' ' || resourcesStr[dictStart] == '\n' || resourcesStr[dictStart] == '\r') {
-				dictStart++
-			}
-			if dictStart < len(resourcesStr) && resourcesStr[dictStart] == '<' && dictStart+1 < len(resourcesStr) && resourcesStr[dictStart+1] == '<' {
-				dictEnd := dictStart + 2
-				depth := 1
-				for dictEnd < len(resourcesStr) && depth > 0 {
-					if dictEnd+1 < len(resourcesStr) && resourcesStr[dictEnd] == '>' && resourcesStr[dictEnd+1] == '>' {
-						depth--
-						if depth == 0 {
-							fontDictStr := resourcesStr[dictStart+2 : dictEnd]
-							fontMatch = []string{"", fontDictStr}
-							break
-						}
-						dictEnd += 2
-					} else if dictEnd+1 < len(resourcesStr) && resourcesStr[dictEnd] == '<' && resourcesStr[dictEnd+1] == '<' {
-						depth++
-						dictEnd += 2
-					} else {
-						dictEnd++
-					}
-				}
-			}
-		}
-	}
-
-	if fontMatch == nil {
+	// Find /Font dictionary
+	fontDictStr := extractDict(resourcesStr, "/Font", pdf)
+	if fontDictStr == "" {
 		if verbose {
 			fmt.Printf("No /Font dictionary found in Resources for decoder extraction\n")
 		}
 		return decoders
 	}
 
-	fontDictStr := fontMatch[1]
-
 	// Parse font entries: /F1 5 0 R /F2 6 0 R ...
-	fontEntryPattern := regexp.MustCompile(`/(\w+)\s+(\d+)\s+\d+\s+R`)
+	fontEntryPattern := resourceEntry
 	fontEntries := fontEntryPattern.FindAllStringSubmatch(fontDictStr, -1)
 
 	for _, entry := range fontEntries {
diff --git a/core/parse/scan.go b/core/parse/scan.go
index 0f1bbd0..9c88584 100644
--- a/core/parse/scan.go
+++ b/core/parse/scan.go
@@ -221,6 +221,28 @@ func closeStream(data []byte, ext objectExtent) (objectExtent, bool) {
 	return ext, bytes.HasPrefix(data[ext.endobj:], []byte("endobj"))
 }
 
+// ObjectContent returns what stands between "N G obj" and "endobj" in an object as
+// GetObject returns it.
+func ObjectContent(object []byte) []byte {
+	pos := 0
+	for _, last := range []bool{false, false, true} {
+		pos = skipSpace(object, pos)
+		end := scanToken(object, pos)
+		if end <= pos || last != (string(object[pos:end]) == "obj") {
+			return object
+		}
+		pos = end
+	}
+	ext, ok := scanObject(object, pos)
+	if !ok {
+		return bytes.TrimSuffix(bytes.TrimSpace(object[pos:]), []byte("endobj"))
+	}
+	if ext.isStream {
+		return object[ext.valueStart : ext.streamClose+len("endstream")]
+	}
+	return object[ext.valueStart:ext.valueEnd]
+}
+
 // SplitStream splits the content of an object (what stands between "N G obj" and
 // "endobj") into its dictionary and its stream data. ok is false if the object is
 // not a stream.
@@ -305,6 +327,77 @@ func dictTokens(dict string) map[string][]string {
 	}
 }
 
+// DictValue returns the extent of the value that key (with its slash) has in the
+// dictionary that content starts with. Keys of nested dictionaries, and names or
+// strings that merely contain key, are not taken for it.
+func DictValue(content []byte, key string) (start, end int, ok bool) {
+	depth := 0
+	isKey, found := false, false // of the entry that is being read
+	for pos := 0; ; {
+		pos = skipSpace(content, pos)
+		tokenEnd := scanToken(content, pos)
+		if tokenEnd <= pos {
+			return 0, 0, false
+		}
+		token := string(content[pos:tokenEnd])
+		if depth == 0 && token != "<<" {
+			return 0, 0, false
+		}
+		ends := depth == 1 && (token == ">>" || token[0] == '/' && !isKey)
+		if ends && found && !isKey {
+			return start, end, true
+		}
+		switch {
+		case ends && token == ">>":
+			return 0, 0, false
+		case ends:
+			isKey = true
+			found = token == key
+		default:
+			if depth == 1 && isKey {
+				isKey = false
+				start = pos
+			}
+			end = tokenEnd
+			switch token {
+			case "<<", "[":
+				depth++
+			case ">>", "]":
+				depth--
+			}
+		}
+		pos = tokenEnd
+	}
+}
+
+// MapReferences returns content with every reference ("N G R") replaced by what
+// replace returns for it. Strings, comments and stream data are left alone.
+func MapReferences(content []byte, replace func(num, gen int) string) []byte {
+	var result []byte
+	copied := 0
+	var starts [2]int // of the two tokens before the current one
+	var previous [2]string
+	for pos := 0; ; {
+		pos = skipSpace(content, pos)
+		end := scanToken(content, pos)
+		if end <= pos || string(content[pos:end]) == "stream" {
+			return append(result, content[copied:]...)
+		}
+		token := string(content[pos:end])
+		if token == "R" {
+			num, numErr := strconv.ParseUint(previous[0], 10, 31)
+			gen, genErr := strconv.ParseUint(previous[1], 10, 31)
+			if numErr == nil && genErr == nil {
+				result = append(append(result, content[copied:starts[0]]...), replace(int(num), int(gen))...)
+				copied = end
+			}
+		}
+		starts = [2]int{starts[1], pos}
+		previous = [2]string{previous[1], token}
+		pos = end
+	}
+}
+
 // tokenRef returns the reference ("N G R") that tokens hold, or "".
 func tokenRef(tokens []string) string {
 	if len(tokens) != 3 || tokens[2] != "R" {
-- 
2.43.0


From dd06c766be6f141b7460c13951ac7be94f47142b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:32 +0000
Subject: [PATCH 36/99] fix: page edits work on the current, possibly nested
 page tree, and Rebuild keeps objects and encryption intact

---
 core/manipulate/deletion.go   | 221 ++++------------------------------
 core/manipulate/insertion.go  | 103 ++++------------
 core/manipulate/manipulate.go | 145 +++++-----------------
 core/manipulate/rotation.go   | 153 +++++++++++++++--------
 4 files changed, 180 insertions(+), 442 deletions(-)

diff --git a/core/manipulate/deletion.go b/core/manipulate/deletion.go
index b807e63..3c023d6 100644
--- a/core/manipulate/deletion.go
+++ b/core/manipulate/deletion.go
@@ -2,98 +2,35 @@ package manipulate
 
 import (
 	"fmt"
-	"regexp"
-	"strconv"
+	"sort"
 )
 
 // DeletePage deletes a specific page from the PDF
 // pageNumber is 1-based (first page is 1)
 func (m *PDFManipulator) DeletePage(pageNumber int) error {
 	// Get page object number
-	pageObjNum, err := m.getPageObjectNumber(pageNumber)
+	page, err := m.getPagePosition(pageNumber)
 	if err != nil {
 		return fmt.Errorf("failed to get page object: %w", err)
 	}
-
-	// Find the parent Pages object that contains this page
-	parentPagesObjNum, err := m.findParentPagesObject(pageObjNum)
-	if err != nil {
-		return fmt.Errorf("failed to find parent Pages object: %w", err)
-	}
-
-	// Get parent Pages object
-	parentPagesObj, ok := m.objects[parentPagesObjNum]
-	if !ok {
-		return fmt.Errorf("parent Pages object %d not found", parentPagesObjNum)
-	}
-
-	parentPagesStr := string(parentPagesObj)
-
-	// Get Kids array
-	kidsStr := extractDictValue(parentPagesStr, "/Kids")
-	if kidsStr == "" {
-		return fmt.Errorf("no /Kids array found in parent Pages object")
-	}
-
-	// Parse kids array and remove the page reference
-	// Kids array format: "[5 0 R 6 0 R ]" or "[5 0 R 6 0 R]"
-	kidsRefs := parseObjectRefArray(kidsStr)
-	if len(kidsRefs) == 0 {
-		return fmt.Errorf("Kids array is empty or could not be parsed: %s", kidsStr)
+	pageObjNum := page.objNum
+	if len(page.parents) == 0 {
+		return fmt.Errorf("page %d (object %d) has no parent Pages object", pageNumber, pageObjNum)
 	}
 
-	newKidsRefs := make([]string, 0, len(kidsRefs)-1)
-
-	// Match page reference by object number (ignore whitespace)
-	pageRefPattern := fmt.Sprintf(`%d\s+\d+\s+R`, pageObjNum)
-	pageRefRegex := regexp.MustCompile(pageRefPattern)
-
-	found := false
-	for _, kidRef := range kidsRefs {
-		// Check if this reference matches the page we want to delete
-		if pageRefRegex.MatchString(kidRef) {
-			found = true
-			// Skip this reference (don't add to newKidsRefs)
-		} else {
-			newKidsRefs = append(newKidsRefs, kidRef)
-		}
-	}
-
-	if !found {
-		return fmt.Errorf("page %d (object %d) not found in Kids array. Kids: %v, KidsStr: %s", pageNumber, pageObjNum, kidsRefs, kidsStr)
-	}
-
-	// Rebuild Kids array string with proper formatting (matching writer format: "[5 0 R 6 0 R ]")
-	// Note: No space before opening bracket to match original format
-	newKidsStr := "["
-	for i, ref := range newKidsRefs {
-		if i > 0 {
-			newKidsStr += " "
-		}
-		newKidsStr += ref
+	pageObjNums, err := m.getAllPageObjectNumbers()
+	if err != nil {
+		return fmt.Errorf("failed to get page objects: %w", err)
 	}
-	newKidsStr += " ]"
-
-	// Update /Kids and /Count in parent Pages object
-	updatedPagesStr := setDictValue(parentPagesStr, "/Kids", newKidsStr)
-	newCount := len(newKidsRefs)
-	if newCount < 1 {
+	if len(pageObjNums) == 1 {
 		return fmt.Errorf("cannot delete page: would result in 0 pages")
 	}
 
-	// Update Count using direct regex replacement to ensure it works
-	countPattern := regexp.MustCompile(`/Count\s+\d+`)
-	updatedPagesStr = countPattern.ReplaceAllString(updatedPagesStr, fmt.Sprintf("/Count %d", newCount))
-
-	m.objects[parentPagesObjNum] = []byte(updatedPagesStr)
-
-	// Also need to update /Count in all ancestor Pages objects
-	err = m.updatePageCounts(parentPagesObjNum, -1)
-	if err != nil {
-		if m.verbose {
-			fmt.Printf("Warning: failed to update page counts: %v\n", err)
-		}
-	}
+	// Remove the page reference from the /Kids of its parent Pages object
+	parentPagesObjNum := page.parents[len(page.parents)-1]
+	kidsRefs := parseObjectRefArray(m.dictValue(parentPagesObjNum, "/Kids"))
+	newKidsRefs := append(append([]string{}, kidsRefs[:page.kid]...), kidsRefs[page.kid+1:]...)
+	m.setKids(page.parents, newKidsRefs)
 
 	if m.verbose {
 		fmt.Printf("Deleted page %d (object %d)\n", pageNumber, pageObjNum)
@@ -103,134 +40,20 @@ func (m *PDFManipulator) DeletePage(pageNumber int) error {
 }
 
 // DeletePages deletes multiple pages from the PDF
-// pageNumbers is 1-based and should be sorted in descending order to avoid index shifts
+// pageNumbers is 1-based, in any order; each number is the one the page has before any
+// of them is deleted
 func (m *PDFManipulator) DeletePages(pageNumbers []int) error {
 	// Sort in descending order to avoid index shifts
 	// (delete from end to beginning)
-	for i := len(pageNumbers) - 1; i >= 0; i-- {
-		if err := m.DeletePage(pageNumbers[i]); err != nil {
-			return fmt.Errorf("failed to delete page %d: %w", pageNumbers[i], err)
-		}
-	}
-	return nil
-}
-
-// findParentPagesObject finds the Pages object that contains the given page object
-func (m *PDFManipulator) findParentPagesObject(pageObjNum int) (int, error) {
-	// Get all Pages objects (intermediate nodes in page tree)
-	trailer := m.pdf.Trailer()
-	if trailer == nil || trailer.RootRef == "" {
-		return 0, fmt.Errorf("no root reference found")
-	}
-
-	rootObjNum, err := parseObjectRef(trailer.RootRef)
-	if err != nil {
-		return 0, fmt.Errorf("failed to parse root reference: %w", err)
-	}
-
-	catalogObj, err := m.pdf.GetObject(rootObjNum)
-	if err != nil {
-		return 0, fmt.Errorf("failed to get catalog: %w", err)
-	}
-
-	catalogStr := string(catalogObj)
-	pagesRef := extractDictValue(catalogStr, "/Pages")
-	if pagesRef == "" {
-		return 0, fmt.Errorf("no /Pages reference in catalog")
-	}
-
-	pagesObjNum, err := parseObjectRef(pagesRef)
-	if err != nil {
-		return 0, fmt.Errorf("failed to parse Pages reference: %w", err)
-	}
-
-	// Recursively search for the parent
-	return m.findParentPagesObjectRecursive(pagesObjNum, pageObjNum)
-}
-
-// findParentPagesObjectRecursive recursively searches for the parent Pages object
-func (m *PDFManipulator) findParentPagesObjectRecursive(pagesObjNum, targetPageObjNum int) (int, error) {
-	pagesObj, err := m.pdf.GetObject(pagesObjNum)
-	if err != nil {
-		return 0, err
-	}
-
-	pagesStr := string(pagesObj)
-
-	// Check if this is a /Page (leaf) - shouldn't happen, but check anyway
-	pageType := extractDictValue(pagesStr, "/Type")
-	if pageType == "/Page" {
-		return 0, fmt.Errorf("reached /Page object, expected /Pages")
-	}
-
-	// Get Kids array
-	kidsStr := extractDictValue(pagesStr, "/Kids")
-	if kidsStr == "" {
-		return 0, fmt.Errorf("no /Kids array found")
-	}
-
-	// Check if target page is in this Pages object's Kids
-	kidsRefs := parseObjectRefArray(kidsStr)
-	for _, kidRef := range kidsRefs {
-		kidObjNum, err := parseObjectRef(kidRef)
-		if err != nil {
+	sorted := append([]int{}, pageNumbers...)
+	sort.Ints(sorted)
+	for i := len(sorted) - 1; i >= 0; i-- {
+		if i+1 < len(sorted) && sorted[i] == sorted[i+1] {
 			continue
 		}
-
-		if kidObjNum == targetPageObjNum {
-			// Found it! This Pages object is the parent
-			return pagesObjNum, nil
-		}
-
-		// Check if this kid is a /Pages node - recurse
-		kidObj, err := m.pdf.GetObject(kidObjNum)
-		if err != nil {
-			continue
-		}
-		kidStr := string(kidObj)
-		kidType := extractDictValue(kidStr, "/Type")
-		if kidType == "/Pages" {
-			// Recurse into this Pages node
-			parent, err := m.findParentPagesObjectRecursive(kidObjNum, targetPageObjNum)
-			if err == nil {
-				return parent, nil
-			}
+		if err := m.DeletePage(sorted[i]); err != nil {
+			return fmt.Errorf("failed to delete page %d: %w", sorted[i], err)
 		}
 	}
-
-	return 0, fmt.Errorf("page object %d not found in page tree", targetPageObjNum)
-}
-
-// updatePageCounts updates the /Count field in the given Pages object and all ancestors
-func (m *PDFManipulator) updatePageCounts(pagesObjNum int, delta int) error {
-	// Update this Pages object's count
-	pagesObj, ok := m.objects[pagesObjNum]
-	if !ok {
-		return fmt.Errorf("Pages object %d not found", pagesObjNum)
-	}
-
-	pagesStr := string(pagesObj)
-	countStr := extractDictValue(pagesStr, "/Count")
-	currentCount := 0
-	if countStr != "" {
-		var err error
-		currentCount, err = strconv.Atoi(countStr)
-		if err != nil {
-			currentCount = 0
-		}
-	}
-
-	newCount := currentCount + delta
-	if newCount < 0 {
-		newCount = 0
-	}
-
-	updatedPagesStr := setDictValue(pagesStr, "/Count", fmt.Sprintf("%d", newCount))
-	m.objects[pagesObjNum] = []byte(updatedPagesStr)
-
-	// Note: Updating parent Pages objects' /Count would require
-	// finding the parent of this Pages object in the tree.
-	// For now, we only update the immediate Pages object.
-	// This is sufficient for most cases where pages are direct children.
 	return nil
 }
diff --git a/core/manipulate/insertion.go b/core/manipulate/insertion.go
index df62efc..33ea50e 100644
--- a/core/manipulate/insertion.go
+++ b/core/manipulate/insertion.go
@@ -2,81 +2,48 @@ package manipulate
 
 import (
 	"fmt"
-	"regexp"
 )
 
 // InsertPage inserts a page at a specific position
 // pageNumber is 1-based (first page is 1, 0 means insert at end)
 // The page to insert must be from another PDF (use ExtractPages first)
 func (m *PDFManipulator) InsertPage(pageNumber int, pageObjNum int, pageContent []byte) error {
-	// Get all page object numbers
-	pageObjNums, err := m.getAllPageObjectNumbers()
+	// Get all pages
+	pages, err := m.pagePositions()
 	if err != nil {
 		return fmt.Errorf("failed to get page objects: %w", err)
 	}
 
 	// Validate page number
-	if pageNumber < 0 || pageNumber > len(pageObjNums)+1 {
-		return fmt.Errorf("page number %d out of range (0-%d)", pageNumber, len(pageObjNums)+1)
+	if pageNumber < 0 || pageNumber > len(pages)+1 {
+		return fmt.Errorf("page number %d out of range (0-%d)", pageNumber, len(pages)+1)
 	}
 
-	// Find the parent Pages object
+	// Find the parent Pages object and the position in its Kids array: that of the page
+	// which will follow, or the end of the root Pages object
 	parentPagesObjNum, err := m.findParentPagesObjectForInsertion()
 	if err != nil {
 		return fmt.Errorf("failed to find parent Pages object: %w", err)
 	}
-
-	// Get parent Pages object
-	parentPagesObj, ok := m.objects[parentPagesObjNum]
-	if !ok {
-		return fmt.Errorf("parent Pages object %d not found", parentPagesObjNum)
-	}
-
-	parentPagesStr := string(parentPagesObj)
-
-	// Get Kids array
-	kidsStr := extractDictValue(parentPagesStr, "/Kids")
-	if kidsStr == "" {
-		return fmt.Errorf("no /Kids array found in parent Pages object")
+	parents := []int{parentPagesObjNum}
+	kidsRefs := parseObjectRefArray(m.dictValue(parentPagesObjNum, "/Kids"))
+	insertIdx := len(kidsRefs)
+	if pageNumber >= 1 && pageNumber <= len(pages) && len(pages[pageNumber-1].parents) > 0 {
+		next := pages[pageNumber-1]
+		parents = next.parents
+		parentPagesObjNum = parents[len(parents)-1]
+		kidsRefs = parseObjectRefArray(m.dictValue(parentPagesObjNum, "/Kids"))
+		insertIdx = next.kid
 	}
 
-	// Parse kids array
-	kidsRefs := parseObjectRefArray(kidsStr)
-
-	// Insert the new page reference at the specified position
 	newKidsRefs := make([]string, 0, len(kidsRefs)+1)
-	if pageNumber == 0 || pageNumber > len(kidsRefs) {
-		// Insert at end
-		newKidsRefs = append(newKidsRefs, kidsRefs...)
-		newKidsRefs = append(newKidsRefs, fmt.Sprintf("%d 0 R", pageObjNum))
-	} else {
-		// Insert at specific position (1-based, convert to 0-based)
-		insertIdx := pageNumber - 1
-		newKidsRefs = append(newKidsRefs, kidsRefs[:insertIdx]...)
-		newKidsRefs = append(newKidsRefs, fmt.Sprintf("%d 0 R", pageObjNum))
-		newKidsRefs = append(newKidsRefs, kidsRefs[insertIdx:]...)
-	}
+	newKidsRefs = append(newKidsRefs, kidsRefs[:insertIdx]...)
+	newKidsRefs = append(newKidsRefs, fmt.Sprintf("%d 0 R", pageObjNum))
+	newKidsRefs = append(newKidsRefs, kidsRefs[insertIdx:]...)
 
-	// Rebuild Kids array string
-	newKidsStr := "["
-	for i, ref := range newKidsRefs {
-		if i > 0 {
-			newKidsStr += " "
-		}
-		newKidsStr += ref
-	}
-	newKidsStr += " ]"
-
-	// Add the page object to our objects map
-	m.objects[pageObjNum] = pageContent
-
-	// Update /Kids and /Count in parent Pages object
-	updatedPagesStr := setDictValue(parentPagesStr, "/Kids", newKidsStr)
-	newCount := len(newKidsRefs)
-	countPattern := regexp.MustCompile(`/Count\s+\d+`)
-	updatedPagesStr = countPattern.ReplaceAllString(updatedPagesStr, fmt.Sprintf("/Count %d", newCount))
-
-	m.objects[parentPagesObjNum] = []byte(updatedPagesStr)
+	// Add the page object to our objects map, below its parent
+	m.objects[pageObjNum] = []byte(setDictValue(string(pageContent), "/Parent", fmt.Sprintf("%d 0 R", parentPagesObjNum)))
+	m.setKids(parents, newKidsRefs)
 
 	if m.verbose {
 		fmt.Printf("Inserted page (object %d) at position %d\n", pageObjNum, pageNumber)
@@ -87,31 +54,5 @@ func (m *PDFManipulator) InsertPage(pageNumber int, pageObjNum int, pageContent
 
 // findParentPagesObjectForInsertion finds the root Pages object for insertion
 func (m *PDFManipulator) findParentPagesObjectForInsertion() (int, error) {
-	trailer := m.pdf.Trailer()
-	if trailer == nil || trailer.RootRef == "" {
-		return 0, fmt.Errorf("no root reference found")
-	}
-
-	rootObjNum, err := parseObjectRef(trailer.RootRef)
-	if err != nil {
-		return 0, fmt.Errorf("failed to parse root reference: %w", err)
-	}
-
-	catalogObj, err := m.pdf.GetObject(rootObjNum)
-	if err != nil {
-		return 0, fmt.Errorf("failed to get catalog: %w", err)
-	}
-
-	catalogStr := string(catalogObj)
-	pagesRef := extractDictValue(catalogStr, "/Pages")
-	if pagesRef == "" {
-		return 0, fmt.Errorf("no /Pages reference in catalog")
-	}
-
-	pagesObjNum, err := parseObjectRef(pagesRef)
-	if err != nil {
-		return 0, fmt.Errorf("failed to parse Pages reference: %w", err)
-	}
-
-	return pagesObjNum, nil
+	return m.rootPagesObject()
 }
diff --git a/core/manipulate/manipulate.go b/core/manipulate/manipulate.go
index e84543f..ab9008e 100644
--- a/core/manipulate/manipulate.go
+++ b/core/manipulate/manipulate.go
@@ -2,10 +2,10 @@ package manipulate
 
 import (
 	"fmt"
-	"regexp"
 	"strconv"
 	"strings"
 
+	"github.com/benedoc-inc/pdfer/core/encrypt"
 	"github.com/benedoc-inc/pdfer/core/parse"
 	"github.com/benedoc-inc/pdfer/core/write"
 )
@@ -42,7 +42,13 @@ func NewPDFManipulator(pdfBytes []byte, password []byte, verbose bool) (*PDFMani
 			}
 			continue
 		}
-		objects[objNum] = obj
+		content := objectContent(obj)
+		switch extractDictValue(string(content), "/Type") {
+		case "/XRef", "/ObjStm":
+			// the structure of the original file, which is not that of the new one
+			continue
+		}
+		objects[objNum] = content
 	}
 
 	return &PDFManipulator{
@@ -61,6 +67,9 @@ func (m *PDFManipulator) Rebuild() ([]byte, error) {
 
 // rebuildPDF rebuilds the PDF with modified objects
 func (m *PDFManipulator) rebuildPDF() ([]byte, error) {
+	// Start from an empty writer, which keeps nothing of an earlier rebuild
+	m.writer = write.NewPDFWriter()
+
 	// Add all objects to writer
 	for objNum, content := range m.objects {
 		m.writer.SetObject(objNum, content)
@@ -94,12 +103,21 @@ func (m *PDFManipulator) rebuildPDF() ([]byte, error) {
 
 	// Set encryption if present
 	if m.pdf.IsEncrypted() {
-		m.writer.SetEncryption(m.pdf.Encryption(), nil) // fileID will be regenerated
+		// The key depends on the file ID, so it has to stay
+		m.writer.SetEncryption(m.pdf.Encryption(), encrypt.ExtractFileID(m.pdfBytes, m.verbose))
 	}
 
 	return m.writer.Bytes()
 }
 
+// objectContent returns the content of an object of a parsed PDF as it is passed to a
+// writer: without its header, and with references to the generation the writer uses
+func objectContent(obj []byte) []byte {
+	return parse.MapReferences(parse.ObjectContent(obj), func(num, gen int) string {
+		return fmt.Sprintf("%d 0 R", num)
+	})
+}
+
 // parseObjectRef parses an object reference like "5 0 R"
 func parseObjectRef(ref string) (int, error) {
 	parts := strings.Fields(ref)
@@ -113,125 +131,26 @@ func parseObjectRef(ref string) (int, error) {
 	return objNum, nil
 }
 
-// extractDictValue extracts a value from a PDF dictionary string
+// extractDictValue returns the value of key in a PDF dictionary, as it is written
+// there, or "" if there is none
 func extractDictValue(dictStr, key string) string {
-	keyIdx := strings.Index(dictStr, key)
-	if keyIdx == -1 {
+	start, end, ok := parse.DictValue([]byte(dictStr), key)
+	if !ok {
 		return ""
 	}
-
-	// Check if the value after the key starts with '[' (array)
-	valueStart := keyIdx + len(key)
-	// Skip whitespace
-	for valueStart < len(dictStr) && (dictStr[valueStart] == ' ' || dictStr[valueStart] == '\t' || dictStr[valueStart] == '\n' || dictStr[valueStart] == '\r') {
-		valueStart++
-	}
-
-	if valueStart < len(dictStr) && dictStr[valueStart] == '[' {
-		// Array value - find matching closing bracket
-		arrayStart := valueStart
-		depth := 0
-		arrayEnd := arrayStart
-		for i := arrayStart; i < len(dictStr); i++ {
-			if dictStr[i] == '[' {
-				depth++
-			} else if dictStr[i] == ']' {
-				depth--
-				if depth == 0 {
-					arrayEnd = i + 1
-					break
-				}
-			}
-		}
-		if arrayEnd > arrayStart {
-			return dictStr[arrayStart:arrayEnd]
-		}
-	}
-
-	// Try to match simple value with space (e.g., "/Pages 2 0 R")
-	pattern := regexp.MustCompile(regexp.QuoteMeta(key) + `\s+([^\s<>]+)`)
-	match := pattern.FindStringSubmatch(dictStr)
-	if len(match) > 1 {
-		return match[1]
-	}
-
-	// Try to match value without space (e.g., "/Subtype/Type1")
-	noSpacePattern := regexp.MustCompile(regexp.QuoteMeta(key) + `/([^/\s<>]+)`)
-	noSpaceMatch := noSpacePattern.FindStringSubmatch(dictStr)
-	if len(noSpaceMatch) > 1 {
-		return "/" + noSpaceMatch[1]
-	}
-
-	return ""
+	return dictStr[start:end]
 }
 
 // setDictValue sets or updates a value in a PDF dictionary string
 func setDictValue(dictStr, key, value string) string {
-	// Check if key already exists
-	existingValue := extractDictValue(dictStr, key)
-	if existingValue != "" {
-		// Replace existing value
-		// Try to match and replace with space (e.g., "/Count 3" -> "/Count 2")
-		// Use word boundary or whitespace to ensure we match the full value
-		pattern := regexp.MustCompile(regexp.QuoteMeta(key) + `\s+([^\s<>]+)`)
-		if pattern.MatchString(dictStr) {
-			replaced := pattern.ReplaceAllString(dictStr, key+" "+value)
-			// Verify the replacement worked
-			newValue := extractDictValue(replaced, key)
-			if newValue == value {
-				return replaced
-			}
-		}
-		// Try without space
-		noSpacePattern := regexp.MustCompile(regexp.QuoteMeta(key) + `/([^/\s<>]+)`)
-		if noSpacePattern.MatchString(dictStr) {
-			return noSpacePattern.ReplaceAllString(dictStr, key+"/"+strings.TrimPrefix(value, "/"))
-		}
-		// Try array value - need to handle brackets properly
-		keyIdx := strings.Index(dictStr, key)
-		if keyIdx != -1 {
-			valueStart := keyIdx + len(key)
-			// Skip whitespace
-			for valueStart < len(dictStr) && (dictStr[valueStart] == ' ' || dictStr[valueStart] == '\t' || dictStr[valueStart] == '\n' || dictStr[valueStart] == '\r') {
-				valueStart++
-			}
-			if valueStart < len(dictStr) && dictStr[valueStart] == '[' {
-				// Find matching closing bracket
-				arrayStart := valueStart
-				depth := 0
-				arrayEnd := arrayStart
-				for i := arrayStart; i < len(dictStr); i++ {
-					if dictStr[i] == '[' {
-						depth++
-					} else if dictStr[i] == ']' {
-						depth--
-						if depth == 0 {
-							arrayEnd = i + 1
-							break
-						}
-					}
-				}
-				if arrayEnd > arrayStart {
-					// Replace the array - preserve original spacing (no space after key if original had none)
-					// Check if there was a space after the key in the original
-					originalValueStart := keyIdx + len(key)
-					hadSpace := originalValueStart < len(dictStr) && (dictStr[originalValueStart] == ' ' || dictStr[originalValueStart] == '\t' || dictStr[originalValueStart] == '\n' || dictStr[originalValueStart] == '\r')
-					if hadSpace {
-						return dictStr[:keyIdx] + key + " " + value + " " + dictStr[arrayEnd:]
-					} else {
-						// No space in original, don't add one
-						return dictStr[:keyIdx] + key + value + " " + dictStr[arrayEnd:]
-					}
-				}
-			}
-		}
+	if start, end, ok := parse.DictValue([]byte(dictStr), key); ok {
+		return dictStr[:start] + " " + value + dictStr[end:]
 	}
 
-	// Add new key-value pair before closing >>
-	lastIdx := strings.LastIndex(dictStr, ">>")
-	if lastIdx == -1 {
+	// Add new key-value pair at the start of the dictionary
+	dictIdx := strings.Index(dictStr, "<<")
+	if dictIdx == -1 {
 		return dictStr
 	}
-	// Insert before the closing >>, but preserve any existing spacing
-	return dictStr[:lastIdx] + key + " " + value + " " + dictStr[lastIdx:]
+	return dictStr[:dictIdx+2] + key + " " + value + " " + dictStr[dictIdx+2:]
 }
diff --git a/core/manipulate/rotation.go b/core/manipulate/rotation.go
index c411a5e..67986c2 100644
--- a/core/manipulate/rotation.go
+++ b/core/manipulate/rotation.go
@@ -15,10 +15,11 @@ func (m *PDFManipulator) RotatePage(pageNumber int, angle int) error {
 	}
 
 	// Get page object number
-	pageObjNum, err := m.getPageObjectNumber(pageNumber)
+	page, err := m.getPagePosition(pageNumber)
 	if err != nil {
 		return fmt.Errorf("failed to get page object: %w", err)
 	}
+	pageObjNum := page.objNum
 
 	// Get page object
 	pageObj, ok := m.objects[pageObjNum]
@@ -29,7 +30,7 @@ func (m *PDFManipulator) RotatePage(pageNumber int, angle int) error {
 	pageStr := string(pageObj)
 
 	// Get current rotation
-	currentRotStr := extractDictValue(pageStr, "/Rotate")
+	currentRotStr := m.inheritedValue(page, "/Rotate")
 	currentRot := 0
 	if currentRotStr != "" {
 		var parseErr error
@@ -74,92 +75,146 @@ func (m *PDFManipulator) RotateAllPages(angle int) error {
 	return nil
 }
 
-// getPageObjectNumber gets the object number for a given page (1-based)
-func (m *PDFManipulator) getPageObjectNumber(pageNumber int) (int, error) {
-	pageObjNums, err := m.getAllPageObjectNumbers()
+// getPagePosition gets the place of a given page (1-based) in the pages tree
+func (m *PDFManipulator) getPagePosition(pageNumber int) (pagePosition, error) {
+	positions, err := m.pagePositions()
 	if err != nil {
-		return 0, err
+		return pagePosition{}, err
 	}
 
-	if pageNumber < 1 || pageNumber > len(pageObjNums) {
-		return 0, fmt.Errorf("page number %d out of range (1-%d)", pageNumber, len(pageObjNums))
+	if pageNumber < 1 || pageNumber > len(positions) {
+		return pagePosition{}, fmt.Errorf("page number %d out of range (1-%d)", pageNumber, len(positions))
 	}
 
-	return pageObjNums[pageNumber-1], nil
+	return positions[pageNumber-1], nil
 }
 
-// getAllPageObjectNumbers recursively gets all page object numbers from the pages tree
+// getAllPageObjectNumbers gets the object numbers of all pages, in page order
 func (m *PDFManipulator) getAllPageObjectNumbers() ([]int, error) {
+	positions, err := m.pagePositions()
+	if err != nil {
+		return nil, err
+	}
+
+	var pageObjNums []int
+	for _, position := range positions {
+		pageObjNums = append(pageObjNums, position.objNum)
+	}
+	return pageObjNums, nil
+}
+
+// pagePosition is the place of a page in the pages tree
+type pagePosition struct {
+	objNum  int
+	parents []int // the /Pages nodes above the page, the root of the tree first
+	kid     int   // index in the /Kids of its parent
+}
+
+// pagePositions finds all pages in the pages tree as it is now, in page order
+func (m *PDFManipulator) pagePositions() ([]pagePosition, error) {
+	pagesObjNum, err := m.rootPagesObject()
+	if err != nil {
+		return nil, err
+	}
+	if _, ok := m.objects[pagesObjNum]; !ok {
+		return nil, fmt.Errorf("Pages object %d not found", pagesObjNum)
+	}
+	return m.extractPagePositions(pagePosition{objNum: pagesObjNum}), nil
+}
+
+// rootPagesObject finds the root of the pages tree
+func (m *PDFManipulator) rootPagesObject() (int, error) {
 	trailer := m.pdf.Trailer()
 	if trailer == nil || trailer.RootRef == "" {
-		return nil, fmt.Errorf("no root reference found")
+		return 0, fmt.Errorf("no root reference found")
 	}
 
 	rootObjNum, err := parseObjectRef(trailer.RootRef)
 	if err != nil {
-		return nil, fmt.Errorf("failed to parse root reference: %w", err)
+		return 0, fmt.Errorf("failed to parse root reference: %w", err)
 	}
 
-	catalogObj, err := m.pdf.GetObject(rootObjNum)
-	if err != nil {
-		return nil, fmt.Errorf("failed to get catalog: %w", err)
+	catalogObj, ok := m.objects[rootObjNum]
+	if !ok {
+		return 0, fmt.Errorf("catalog object %d not found", rootObjNum)
 	}
 
-	catalogStr := string(catalogObj)
-	pagesRef := extractDictValue(catalogStr, "/Pages")
+	pagesRef := extractDictValue(string(catalogObj), "/Pages")
 	if pagesRef == "" {
-		return nil, fmt.Errorf("no /Pages reference in catalog")
+		return 0, fmt.Errorf("no /Pages reference in catalog")
 	}
 
 	pagesObjNum, err := parseObjectRef(pagesRef)
 	if err != nil {
-		return nil, fmt.Errorf("failed to parse Pages reference: %w", err)
+		return 0, fmt.Errorf("failed to parse Pages reference: %w", err)
 	}
-
-	return m.extractPageObjectNumbers(pagesObjNum)
+	return pagesObjNum, nil
 }
 
-// extractPageObjectNumbers recursively extracts page object numbers from the pages tree
-func (m *PDFManipulator) extractPageObjectNumbers(pagesObjNum int) ([]int, error) {
-	var pageObjNums []int
-
-	pagesObj, err := m.pdf.GetObject(pagesObjNum)
-	if err != nil {
-		return nil, err
-	}
-
-	pagesStr := string(pagesObj)
+// extractPagePositions recursively finds the pages at and below a node of the pages tree
+func (m *PDFManipulator) extractPagePositions(node pagePosition) []pagePosition {
+	nodeStr := string(m.objects[node.objNum])
 
 	// Check if this is a /Page (leaf) or /Pages (intermediate)
-	pageType := extractDictValue(pagesStr, "/Type")
-	if pageType == "/Page" {
-		// This is a page - add it
-		pageObjNums = append(pageObjNums, pagesObjNum)
-		return pageObjNums, nil
+	if extractDictValue(nodeStr, "/Type") == "/Page" {
+		return []pagePosition{node}
 	}
 
-	// This is a /Pages node - get Kids and recurse
-	kidsStr := extractDictValue(pagesStr, "/Kids")
-	if kidsStr == "" {
-		return pageObjNums, nil
+	// A node below itself has no pages of its own
+	for _, parent := range node.parents {
+		if parent == node.objNum {
+			return nil
+		}
 	}
 
-	// Parse kids array
-	kidsRefs := parseObjectRefArray(kidsStr)
-	for _, kidRef := range kidsRefs {
+	var positions []pagePosition
+	parents := append(append([]int{}, node.parents...), node.objNum)
+	for i, kidRef := range parseObjectRefArray(m.dictValue(node.objNum, "/Kids")) {
 		kidObjNum, err := parseObjectRef(kidRef)
 		if err != nil {
 			continue
 		}
-		// Recurse
-		childPages, err := m.extractPageObjectNumbers(kidObjNum)
-		if err != nil {
-			continue
+		positions = append(positions, m.extractPagePositions(pagePosition{kidObjNum, parents, i})...)
+	}
+	return positions
+}
+
+// dictValue returns the value of key in the dictionary with the given object number,
+// following a reference to the value
+func (m *PDFManipulator) dictValue(objNum int, key string) string {
+	value := extractDictValue(string(m.objects[objNum]), key)
+	if refs := parseObjectRefArray(value); len(refs) == 1 && refs[0] == value {
+		if refObjNum, err := parseObjectRef(value); err == nil {
+			return strings.TrimSpace(string(m.objects[refObjNum]))
 		}
-		pageObjNums = append(pageObjNums, childPages...)
 	}
+	return value
+}
 
-	return pageObjNums, nil
+// inheritedValue returns the value of an attribute that a page has itself or inherits
+func (m *PDFManipulator) inheritedValue(page pagePosition, key string) string {
+	if value := extractDictValue(string(m.objects[page.objNum]), key); value != "" {
+		return value
+	}
+	for i := len(page.parents) - 1; i >= 0; i-- {
+		if value := extractDictValue(string(m.objects[page.parents[i]]), key); value != "" {
+			return value
+		}
+	}
+	return ""
+}
+
+// setKids replaces the /Kids of the last of the given nodes (the root of the pages tree
+// first) and updates the /Count of all of them
+func (m *PDFManipulator) setKids(nodes []int, kidsRefs []string) {
+	parent := nodes[len(nodes)-1]
+	kids := "[" + strings.Join(kidsRefs, " ") + "]"
+	m.objects[parent] = []byte(setDictValue(string(m.objects[parent]), "/Kids", kids))
+
+	for i, node := range nodes {
+		count := len(m.extractPagePositions(pagePosition{objNum: node, parents: nodes[:i]}))
+		m.objects[node] = []byte(setDictValue(string(m.objects[node]), "/Count", strconv.Itoa(count)))
+	}
 }
 
 // parseObjectRefArray parses an array of object references like "[5 0 R 6 0 R]"
-- 
2.43.0


From 8bb4182c4d404b923975b529aedd9c32e524ce5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:32 +0000
Subject: [PATCH 37/99] fix: extracted pages keep what they refer to and what
 they inherit

---
 core/manipulate/extraction.go | 86 +++++++++++++++++++++++++++--------
 1 file changed, 67 insertions(+), 19 deletions(-)

diff --git a/core/manipulate/extraction.go b/core/manipulate/extraction.go
index 9e73024..21d28b3 100644
--- a/core/manipulate/extraction.go
+++ b/core/manipulate/extraction.go
@@ -3,6 +3,7 @@ package manipulate
 import (
 	"fmt"
 
+	"github.com/benedoc-inc/pdfer/core/parse"
 	"github.com/benedoc-inc/pdfer/core/write"
 )
 
@@ -19,45 +20,70 @@ func ExtractPages(pdfBytes []byte, pageNumbers []int, password []byte, verbose b
 		return nil, fmt.Errorf("failed to create manipulator: %w", err)
 	}
 
-	// Get all page object numbers
-	allPageObjNums, err := manipulator.getAllPageObjectNumbers()
+	// Get all pages
+	allPages, err := manipulator.pagePositions()
 	if err != nil {
 		return nil, fmt.Errorf("failed to get page objects: %w", err)
 	}
 
 	// Validate page numbers
 	for _, pageNum := range pageNumbers {
-		if pageNum < 1 || pageNum > len(allPageObjNums) {
-			return nil, fmt.Errorf("page number %d out of range (1-%d)", pageNum, len(allPageObjNums))
+		if pageNum < 1 || pageNum > len(allPages) {
+			return nil, fmt.Errorf("page number %d out of range (1-%d)", pageNum, len(allPages))
 		}
 	}
 
-	// Create a new PDF with only the extracted pages
+	// Create a new PDF with only the extracted pages. Objects keep their numbers; new
+	// objects get numbers that no object had before
 	writer := write.NewPDFWriter()
-	pagesObjNum := writer.AddObject([]byte("")) // Placeholder, will update later
+	nextObjNum := 1
+	for objNum := range manipulator.objects {
+		if objNum >= nextObjNum {
+			nextObjNum = objNum + 1
+		}
+	}
+	pagesObjNum := nextObjNum
+	nextObjNum++
 	pageObjNums := make([]int, 0, len(pageNumbers))
 
-	// Copy page objects and their dependencies
+	// Copy page objects
+	copied := make(map[int]bool)
+	var dependencies []int
 	for _, pageNum := range pageNumbers {
-		pageObjNum := allPageObjNums[pageNum-1]
+		page := allPages[pageNum-1]
 
-		// Get page object
-		pageObj, ok := manipulator.objects[pageObjNum]
-		if !ok {
-			return nil, fmt.Errorf("page object %d not found", pageObjNum)
+		// A page that is extracted more than once needs a page object for each time
+		pageObjNum := page.objNum
+		if copied[pageObjNum] {
+			pageObjNum = nextObjNum
+			nextObjNum++
 		}
-
-		// Copy page object to new PDF
-		writer.SetObject(pageObjNum, pageObj)
+		copied[pageObjNum] = true
 		pageObjNums = append(pageObjNums, pageObjNum)
 
 		// Update page's Parent reference to point to new Pages object
-		pageStr := string(pageObj)
+		pageStr := manipulator.standalonePage(page)
 		updatedPageStr := setDictValue(pageStr, "/Parent", fmt.Sprintf("%d 0 R", pagesObjNum))
 		writer.SetObject(pageObjNum, []byte(updatedPageStr))
+		dependencies = append(dependencies, objectReferences([]byte(updatedPageStr))...)
+	}
 
-		// TODO: Copy page dependencies (content streams, resources, fonts, images, etc.)
-		// For now, we'll copy the page object as-is and hope dependencies are included
+	// Copy page dependencies (content streams, resources, fonts, images, etc.), but not
+	// the rest of the page tree
+	for len(dependencies) > 0 {
+		objNum := dependencies[len(dependencies)-1]
+		dependencies = dependencies[:len(dependencies)-1]
+		obj, ok := manipulator.objects[objNum]
+		if !ok || copied[objNum] {
+			continue
+		}
+		switch extractDictValue(string(obj), "/Type") {
+		case "/Page", "/Pages", "/Catalog":
+			continue
+		}
+		copied[objNum] = true
+		writer.SetObject(objNum, obj)
+		dependencies = append(dependencies, objectReferences(obj)...)
 	}
 
 	// Build Kids array
@@ -75,8 +101,30 @@ func ExtractPages(pdfBytes []byte, pageNumbers []int, password []byte, verbose b
 	writer.SetObject(pagesObjNum, []byte(pagesDict))
 
 	// Create Catalog
-	catalogObjNum := writer.AddObject([]byte(fmt.Sprintf("<</Type/Catalog/Pages %d 0 R>>", pagesObjNum)))
+	catalogObjNum := nextObjNum
+	writer.SetObject(catalogObjNum, []byte(fmt.Sprintf("<</Type/Catalog/Pages %d 0 R>>", pagesObjNum)))
 	writer.SetRoot(catalogObjNum)
 
 	return writer.Bytes()
 }
+
+// standalonePage returns the content of a page with what it inherits from its parents
+func (m *PDFManipulator) standalonePage(page pagePosition) string {
+	pageStr := string(m.objects[page.objNum])
+	for _, key := range []string{"/Resources", "/MediaBox", "/CropBox", "/Rotate"} {
+		if value := m.inheritedValue(page, key); value != "" && extractDictValue(pageStr, key) == "" {
+			pageStr = setDictValue(pageStr, key, value)
+		}
+	}
+	return pageStr
+}
+
+// objectReferences returns the numbers of the objects that content refers to
+func objectReferences(content []byte) []int {
+	var objNums []int
+	parse.MapReferences(content, func(num, gen int) string {
+		objNums = append(objNums, num)
+		return ""
+	})
+	return objNums
+}
-- 
2.43.0


From 810c9f431e8c4ee4df1c06cdc36e47fbc629c5f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:32 +0000
Subject: [PATCH 38/99] fix: merged pages keep their order, their references
 and what they inherit

---
 core/manipulate/merging.go | 152 ++++++++-----------------------------
 1 file changed, 31 insertions(+), 121 deletions(-)

diff --git a/core/manipulate/merging.go b/core/manipulate/merging.go
index b1fc310..dc9e4b6 100644
--- a/core/manipulate/merging.go
+++ b/core/manipulate/merging.go
@@ -2,7 +2,7 @@ package manipulate
 
 import (
 	"fmt"
-	"regexp"
+	"sort"
 
 	"github.com/benedoc-inc/pdfer/core/parse"
 	"github.com/benedoc-inc/pdfer/core/write"
@@ -17,7 +17,9 @@ func MergePDFs(pdfBytesList [][]byte, passwords [][]byte, verbose bool) ([]byte,
 
 	writer := write.NewPDFWriter()
 	var allPageObjNums []int
-	nextObjNum := 1
+	pagesObjNum := 1
+	catalogObjNum := 2
+	nextObjNum := 3
 
 	// Process each PDF
 	for pdfIdx, pdfBytes := range pdfBytesList {
@@ -26,16 +28,13 @@ func MergePDFs(pdfBytesList [][]byte, passwords [][]byte, verbose bool) ([]byte,
 			password = passwords[pdfIdx]
 		}
 
-		pdf, err := parse.OpenWithOptions(pdfBytes, parse.ParseOptions{
-			Password: password,
-			Verbose:  verbose,
-		})
+		manipulator, err := NewPDFManipulator(pdfBytes, password, verbose)
 		if err != nil {
 			return nil, fmt.Errorf("failed to parse PDF %d: %w", pdfIdx+1, err)
 		}
 
-		// Get all page object numbers from this PDF
-		pageObjNums, err := getAllPageObjectNumbersFromPDF(pdf)
+		// Get all pages from this PDF
+		pages, err := manipulator.pagePositions()
 		if err != nil {
 			return nil, fmt.Errorf("failed to get pages from PDF %d: %w", pdfIdx+1, err)
 		}
@@ -43,39 +42,34 @@ func MergePDFs(pdfBytesList [][]byte, passwords [][]byte, verbose bool) ([]byte,
 		// Copy all objects from this PDF to the merged PDF
 		// Need to remap object numbers to avoid conflicts
 		objNumMap := make(map[int]int) // old objNum -> new objNum
-
-		for _, objNum := range pdf.Objects() {
-			obj, err := pdf.GetObject(objNum)
-			if err != nil {
-				if verbose {
-					fmt.Printf("Warning: failed to get object %d from PDF %d: %v\n", objNum, pdfIdx+1, err)
-				}
-				continue
-			}
-
-			newObjNum := nextObjNum
+		var objNums []int
+		for objNum := range manipulator.objects {
+			objNums = append(objNums, objNum)
+		}
+		sort.Ints(objNums)
+		for _, objNum := range objNums {
+			objNumMap[objNum] = nextObjNum
 			nextObjNum++
-			objNumMap[objNum] = newObjNum
+		}
 
+		for _, objNum := range objNums {
 			// Update object references in the content
-			updatedObj := updateObjectReferences(obj, objNumMap, pdfIdx == 0)
+			updatedObj := updateObjectReferences(manipulator.objects[objNum], objNumMap)
+			writer.SetObject(objNumMap[objNum], updatedObj)
+		}
 
-			writer.SetObject(newObjNum, updatedObj)
+		// Pages become children of the merged Pages object, in page order
+		for _, page := range pages {
+			newObjNum := objNumMap[page.objNum]
+			allPageObjNums = append(allPageObjNums, newObjNum)
 
-			// If this is a page object, add it to our pages list
-			for _, pageObjNum := range pageObjNums {
-				if objNum == pageObjNum {
-					allPageObjNums = append(allPageObjNums, newObjNum)
-					break
-				}
-			}
+			updatedObj := updateObjectReferences([]byte(manipulator.standalonePage(page)), objNumMap)
+			pageStr := setDictValue(string(updatedObj), "/Parent", fmt.Sprintf("%d 0 R", pagesObjNum))
+			writer.SetObject(newObjNum, []byte(pageStr))
 		}
 	}
 
 	// Create Pages object with all pages
-	pagesObjNum := nextObjNum
-	nextObjNum++
-
 	kids := "["
 	for i, pageNum := range allPageObjNums {
 		if i > 0 {
@@ -89,7 +83,6 @@ func MergePDFs(pdfBytesList [][]byte, passwords [][]byte, verbose bool) ([]byte,
 	writer.SetObject(pagesObjNum, []byte(pagesDict))
 
 	// Create Catalog
-	catalogObjNum := nextObjNum
 	catalogDict := fmt.Sprintf("<</Type/Catalog/Pages %d 0 R>>", pagesObjNum)
 	writer.SetObject(catalogObjNum, []byte(catalogDict))
 	writer.SetRoot(catalogObjNum)
@@ -97,97 +90,14 @@ func MergePDFs(pdfBytesList [][]byte, passwords [][]byte, verbose bool) ([]byte,
 	return writer.Bytes()
 }
 
-// getAllPageObjectNumbersFromPDF gets all page object numbers from a parsed PDF
-func getAllPageObjectNumbersFromPDF(pdf *parse.PDF) ([]int, error) {
-	trailer := pdf.Trailer()
-	if trailer == nil || trailer.RootRef == "" {
-		return nil, fmt.Errorf("no root reference found")
-	}
-
-	rootObjNum, err := parseObjectRef(trailer.RootRef)
-	if err != nil {
-		return nil, fmt.Errorf("failed to parse root reference: %w", err)
-	}
-
-	catalogObj, err := pdf.GetObject(rootObjNum)
-	if err != nil {
-		return nil, fmt.Errorf("failed to get catalog: %w", err)
-	}
-
-	catalogStr := string(catalogObj)
-	pagesRef := extractDictValue(catalogStr, "/Pages")
-	if pagesRef == "" {
-		return nil, fmt.Errorf("no /Pages reference in catalog")
-	}
-
-	pagesObjNum, err := parseObjectRef(pagesRef)
-	if err != nil {
-		return nil, fmt.Errorf("failed to parse Pages reference: %w", err)
-	}
-
-	return extractPageObjectNumbersFromPDF(pdf, pagesObjNum)
-}
-
-// extractPageObjectNumbersFromPDF recursively extracts page object numbers
-func extractPageObjectNumbersFromPDF(pdf *parse.PDF, pagesObjNum int) ([]int, error) {
-	var pageObjNums []int
-
-	pagesObj, err := pdf.GetObject(pagesObjNum)
-	if err != nil {
-		return nil, err
-	}
-
-	pagesStr := string(pagesObj)
-	pageType := extractDictValue(pagesStr, "/Type")
-	if pageType == "/Page" {
-		pageObjNums = append(pageObjNums, pagesObjNum)
-		return pageObjNums, nil
-	}
-
-	kidsStr := extractDictValue(pagesStr, "/Kids")
-	if kidsStr == "" {
-		return pageObjNums, nil
-	}
-
-	kidsRefs := parseObjectRefArray(kidsStr)
-	for _, kidRef := range kidsRefs {
-		kidObjNum, err := parseObjectRef(kidRef)
-		if err != nil {
-			continue
-		}
-		childPages, err := extractPageObjectNumbersFromPDF(pdf, kidObjNum)
-		if err != nil {
-			continue
-		}
-		pageObjNums = append(pageObjNums, childPages...)
-	}
-
-	return pageObjNums, nil
-}
-
-// updateObjectReferences updates object references in a PDF object string
+// updateObjectReferences updates object references in a PDF object
 // objNumMap maps old object numbers to new object numbers
-func updateObjectReferences(obj []byte, objNumMap map[int]int, isFirstPDF bool) []byte {
-	objStr := string(obj)
-
-	// Find all object references (pattern: "5 0 R")
-	refPattern := regexp.MustCompile(`(\d+)\s+(\d+)\s+R`)
-
-	updatedStr := refPattern.ReplaceAllStringFunc(objStr, func(match string) string {
-		// Extract object number
-		var objNum, genNum int
-		fmt.Sscanf(match, "%d %d R", &objNum, &genNum)
-
-		// Check if we need to remap this reference
+func updateObjectReferences(obj []byte, objNumMap map[int]int) []byte {
+	return parse.MapReferences(obj, func(objNum, gen int) string {
 		if newObjNum, ok := objNumMap[objNum]; ok {
 			return fmt.Sprintf("%d 0 R", newObjNum)
 		}
-
-		// For first PDF, keep original references (they're already in the map)
-		// For subsequent PDFs, references to objects not in the map should be updated
-		// For now, return as-is (this is a simplified version)
-		return match
+		// There is no such object, and its number belongs to another one now
+		return "null"
 	})
-
-	return []byte(updatedStr)
 }
-- 
2.43.0


From 302be4d219bf8dbdf3148bcf971e2bd26ecc2093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:53 +0000
Subject: [PATCH 39/99] fix: references with comments between their parts; no
 rebuild that loses the encryption dictionary

---
 content/extract/metadata.go   |  3 +++
 content/extract/pages.go      | 20 ++++----------------
 core/manipulate/manipulate.go |  6 ++++++
 core/manipulate/rotation.go   | 26 ++++++++------------------
 4 files changed, 21 insertions(+), 34 deletions(-)

diff --git a/content/extract/metadata.go b/content/extract/metadata.go
index c9fea03..e5b6a50 100644
--- a/content/extract/metadata.go
+++ b/content/extract/metadata.go
@@ -43,6 +43,9 @@ func ExtractMetadata(pdfBytes []byte, pdf *parse.PDF, verbose bool) (*types.Docu
 
 // parseObjectRef parses an object reference like "5 0 R" and returns the object number
 func parseObjectRef(ref string) (int, error) {
+	if refs := parseObjectRefArray(ref); len(refs) == 1 {
+		ref = refs[0] // without comments between its parts
+	}
 	parts := strings.Fields(ref)
 	if len(parts) < 1 {
 		return 0, fmt.Errorf("invalid object reference: %s", ref)
diff --git a/content/extract/pages.go b/content/extract/pages.go
index f2cec8e..81f9a2f 100644
--- a/content/extract/pages.go
+++ b/content/extract/pages.go
@@ -3,7 +3,6 @@ package extract
 import (
 	"bytes"
 	"fmt"
-	"regexp"
 	"strconv"
 	"strings"
 
@@ -307,22 +306,11 @@ func extractArrayValue(dictStr, key string) []float64 {
 }
 
 func parseObjectRefArray(arrStr string) []string {
-	// Remove brackets if present
-	arrStr = strings.TrimSpace(arrStr)
-	arrStr = strings.TrimPrefix(arrStr, "[")
-	arrStr = strings.TrimSuffix(arrStr, "]")
-
-	// Split by references (pattern: "5 0 R")
-	pattern := regexp.MustCompile(`(\d+)\s+\d+\s+R`)
-	matches := pattern.FindAllStringSubmatch(arrStr, -1)
-
 	var refs []string
-	for _, match := range matches {
-		if len(match) > 0 {
-			refs = append(refs, match[0])
-		}
-	}
-
+	parse.MapReferences([]byte(arrStr), func(num, gen int) string {
+		refs = append(refs, fmt.Sprintf("%d %d R", num, gen))
+		return ""
+	})
 	return refs
 }
 
diff --git a/core/manipulate/manipulate.go b/core/manipulate/manipulate.go
index ab9008e..ac684f8 100644
--- a/core/manipulate/manipulate.go
+++ b/core/manipulate/manipulate.go
@@ -103,6 +103,9 @@ func (m *PDFManipulator) rebuildPDF() ([]byte, error) {
 
 	// Set encryption if present
 	if m.pdf.IsEncrypted() {
+		if trailer.EncryptRef == "" {
+			return nil, fmt.Errorf("encryption dictionary in the trailer is not supported")
+		}
 		// The key depends on the file ID, so it has to stay
 		m.writer.SetEncryption(m.pdf.Encryption(), encrypt.ExtractFileID(m.pdfBytes, m.verbose))
 	}
@@ -120,6 +123,9 @@ func objectContent(obj []byte) []byte {
 
 // parseObjectRef parses an object reference like "5 0 R"
 func parseObjectRef(ref string) (int, error) {
+	if refs := parseObjectRefArray(ref); len(refs) == 1 {
+		ref = refs[0] // without comments between its parts
+	}
 	parts := strings.Fields(ref)
 	if len(parts) < 1 {
 		return 0, fmt.Errorf("invalid object reference: %s", ref)
diff --git a/core/manipulate/rotation.go b/core/manipulate/rotation.go
index 67986c2..7077d4f 100644
--- a/core/manipulate/rotation.go
+++ b/core/manipulate/rotation.go
@@ -2,9 +2,10 @@ package manipulate
 
 import (
 	"fmt"
-	"regexp"
 	"strconv"
 	"strings"
+
+	"github.com/benedoc-inc/pdfer/core/parse"
 )
 
 // RotatePage rotates a specific page by the given angle (90, 180, or 270 degrees)
@@ -183,8 +184,8 @@ func (m *PDFManipulator) extractPagePositions(node pagePosition) []pagePosition
 // following a reference to the value
 func (m *PDFManipulator) dictValue(objNum int, key string) string {
 	value := extractDictValue(string(m.objects[objNum]), key)
-	if refs := parseObjectRefArray(value); len(refs) == 1 && refs[0] == value {
-		if refObjNum, err := parseObjectRef(value); err == nil {
+	if refs := parseObjectRefArray(value); len(refs) == 1 && !strings.HasPrefix(value, "[") {
+		if refObjNum, err := parseObjectRef(refs[0]); err == nil {
 			return strings.TrimSpace(string(m.objects[refObjNum]))
 		}
 	}
@@ -219,21 +220,10 @@ func (m *PDFManipulator) setKids(nodes []int, kidsRefs []string) {
 
 // parseObjectRefArray parses an array of object references like "[5 0 R 6 0 R]"
 func parseObjectRefArray(arrStr string) []string {
-	// Remove brackets if present
-	arrStr = strings.TrimSpace(arrStr)
-	arrStr = strings.TrimPrefix(arrStr, "[")
-	arrStr = strings.TrimSuffix(arrStr, "]")
-
-	// Split by references (pattern: "5 0 R")
-	pattern := regexp.MustCompile(`(\d+)\s+\d+\s+R`)
-	matches := pattern.FindAllStringSubmatch(arrStr, -1)
-
 	var refs []string
-	for _, match := range matches {
-		if len(match) > 0 {
-			refs = append(refs, match[0])
-		}
-	}
-
+	parse.MapReferences([]byte(arrStr), func(num, gen int) string {
+		refs = append(refs, fmt.Sprintf("%d %d R", num, gen))
+		return ""
+	})
 	return refs
 }
-- 
2.43.0


From d6e66fc016b21280a981ee54e80b69a4e9977844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:57 +0000
Subject: [PATCH 40/99] fix: page deletion checks all numbers first; indirect
 rotations and page boxes

---
 content/extract/annotations.go |  8 ++++----
 content/extract/pages.go       | 32 +++++++++++++++++++++++++-------
 core/manipulate/deletion.go    | 16 ++++++++++++++++
 core/manipulate/rotation.go    |  9 +++++++--
 core/parse/scan.go             | 16 ++++++++++++++++
 5 files changed, 68 insertions(+), 13 deletions(-)

diff --git a/content/extract/annotations.go b/content/extract/annotations.go
index e8d6a65..e70e769 100644
--- a/content/extract/annotations.go
+++ b/content/extract/annotations.go
@@ -105,7 +105,7 @@ func extractAnnotation(annotObjNum int, pdf *parse.PDF, pageNum int, verbose boo
 	}
 
 	// Extract Rect (bounding rectangle)
-	rect := extractArrayValue(annotStr, "/Rect")
+	rect := extractArrayValue(annotStr, "/Rect", pdf)
 	if len(rect) >= 4 {
 		annotation.Rect = &types.Rectangle{
 			LowerX: rect[0],
@@ -135,7 +135,7 @@ func extractAnnotation(annotObjNum int, pdf *parse.PDF, pageNum int, verbose boo
 	}
 
 	// Extract Color
-	color := extractArrayValue(annotStr, "/C")
+	color := extractArrayValue(annotStr, "/C", pdf)
 	if len(color) >= 3 {
 		annotation.Color = &types.Color{
 			Space: types.ColorSpaceRGB,
@@ -157,7 +157,7 @@ func extractAnnotation(annotObjNum int, pdf *parse.PDF, pageNum int, verbose boo
 	borderWidthStr := extractDictValue(annotStr, "/Border")
 	if borderWidthStr != "" {
 		// Border can be [width] or [width dashArray dashPhase]
-		borderArray := extractArrayValue(annotStr, "/Border")
+		borderArray := extractArrayValue(annotStr, "/Border", pdf)
 		if len(borderArray) > 0 {
 			annotation.Border = &types.Border{
 				Width: borderArray[0],
@@ -220,7 +220,7 @@ func extractAnnotation(annotObjNum int, pdf *parse.PDF, pageNum int, verbose boo
 		annotation.Type == types.AnnotationTypeUnderline ||
 		annotation.Type == types.AnnotationTypeStrikeout ||
 		annotation.Type == types.AnnotationTypeSquiggly {
-		quadPoints := extractArrayValue(annotStr, "/QuadPoints")
+		quadPoints := extractArrayValue(annotStr, "/QuadPoints", pdf)
 		if len(quadPoints) >= 8 {
 			// QuadPoints is array of [x1 y1 x2 y2 x3 y3 x4 y4] for each quad
 			// For simplicity, extract first quad
diff --git a/content/extract/pages.go b/content/extract/pages.go
index 81f9a2f..7d15ff9 100644
--- a/content/extract/pages.go
+++ b/content/extract/pages.go
@@ -98,7 +98,7 @@ func extractPage(pdfBytes []byte, pdf *parse.PDF, pageObjNum int, pageStr string
 	}
 
 	// Extract media box
-	mediaBox := extractArrayValue(pageStr, "/MediaBox")
+	mediaBox := extractArrayValue(pageStr, "/MediaBox", pdf)
 	if len(mediaBox) >= 4 {
 		page.MediaBox = &types.Rectangle{
 			LowerX: mediaBox[0],
@@ -111,7 +111,7 @@ func extractPage(pdfBytes []byte, pdf *parse.PDF, pageObjNum int, pageStr string
 	}
 
 	// Extract crop box
-	cropBox := extractArrayValue(pageStr, "/CropBox")
+	cropBox := extractArrayValue(pageStr, "/CropBox", pdf)
 	if len(cropBox) >= 4 {
 		page.CropBox = &types.Rectangle{
 			LowerX: cropBox[0],
@@ -122,7 +122,7 @@ func extractPage(pdfBytes []byte, pdf *parse.PDF, pageObjNum int, pageStr string
 	}
 
 	// Extract rotation
-	rotationStr := extractDictValue(pageStr, "/Rotate")
+	rotationStr := resolveValue(extractDictValue(pageStr, "/Rotate"), pdf)
 	if rotationStr != "" {
 		if rot, err := strconv.Atoi(rotationStr); err == nil {
 			page.Rotation = rot
@@ -248,6 +248,23 @@ func extractDictValue(dictStr, key string) string {
 	return string(content[start:end])
 }
 
+// resolveValue returns the value that a reference leads to, or the value itself if it is
+// not a reference
+func resolveValue(value string, pdf *parse.PDF) string {
+	if strings.HasPrefix(value, "[") || strings.HasPrefix(value, "<<") || len(parseObjectRefArray(value)) != 1 {
+		return value
+	}
+	objNum, err := parseObjectRef(value)
+	if err != nil {
+		return value
+	}
+	obj, err := pdf.GetObject(objNum)
+	if err != nil {
+		return value
+	}
+	return strings.TrimSpace(string(parse.ObjectContent(obj)))
+}
+
 // extractDict returns the dictionary that key has as its value, directly or through a
 // reference, or "" if there is none
 func extractDict(dictStr, key string, pdf *parse.PDF) string {
@@ -287,17 +304,18 @@ func extractArray(dictStr, key string, pdf *parse.PDF) string {
 	return value
 }
 
-func extractArrayValue(dictStr, key string) []float64 {
+// extractArrayValue returns the numbers of the array that key has as its value, directly
+// or through a reference
+func extractArrayValue(dictStr, key string, pdf *parse.PDF) []float64 {
 	// The array after the key (e.g., "/MediaBox [0 0 612 792]")
-	array := extractDictValue(dictStr, key)
+	array := extractArray(dictStr, key, pdf)
 	if !strings.HasPrefix(array, "[") {
 		return nil
 	}
 
 	// Parse numbers from array
-	parts := strings.Fields(strings.Trim(array, "[]"))
 	var values []float64
-	for _, part := range parts {
+	for _, part := range parse.Tokens([]byte(array)) {
 		if val, err := strconv.ParseFloat(part, 64); err == nil {
 			values = append(values, val)
 		}
diff --git a/core/manipulate/deletion.go b/core/manipulate/deletion.go
index 3c023d6..54648af 100644
--- a/core/manipulate/deletion.go
+++ b/core/manipulate/deletion.go
@@ -43,6 +43,22 @@ func (m *PDFManipulator) DeletePage(pageNumber int) error {
 // pageNumbers is 1-based, in any order; each number is the one the page has before any
 // of them is deleted
 func (m *PDFManipulator) DeletePages(pageNumbers []int) error {
+	// Check all of them first, so that an error leaves the document as it is
+	pageObjNums, err := m.getAllPageObjectNumbers()
+	if err != nil {
+		return fmt.Errorf("failed to get page objects: %w", err)
+	}
+	distinct := make(map[int]bool)
+	for _, pageNumber := range pageNumbers {
+		if pageNumber < 1 || pageNumber > len(pageObjNums) {
+			return fmt.Errorf("page number %d out of range (1-%d)", pageNumber, len(pageObjNums))
+		}
+		distinct[pageNumber] = true
+	}
+	if len(distinct) > 0 && len(distinct) == len(pageObjNums) {
+		return fmt.Errorf("cannot delete all pages: would result in 0 pages")
+	}
+
 	// Sort in descending order to avoid index shifts
 	// (delete from end to beginning)
 	sorted := append([]int{}, pageNumbers...)
diff --git a/core/manipulate/rotation.go b/core/manipulate/rotation.go
index 7077d4f..9a51386 100644
--- a/core/manipulate/rotation.go
+++ b/core/manipulate/rotation.go
@@ -31,7 +31,7 @@ func (m *PDFManipulator) RotatePage(pageNumber int, angle int) error {
 	pageStr := string(pageObj)
 
 	// Get current rotation
-	currentRotStr := m.inheritedValue(page, "/Rotate")
+	currentRotStr := m.resolveValue(m.inheritedValue(page, "/Rotate"))
 	currentRot := 0
 	if currentRotStr != "" {
 		var parseErr error
@@ -183,7 +183,12 @@ func (m *PDFManipulator) extractPagePositions(node pagePosition) []pagePosition
 // dictValue returns the value of key in the dictionary with the given object number,
 // following a reference to the value
 func (m *PDFManipulator) dictValue(objNum int, key string) string {
-	value := extractDictValue(string(m.objects[objNum]), key)
+	return m.resolveValue(extractDictValue(string(m.objects[objNum]), key))
+}
+
+// resolveValue returns the value that a reference leads to, or the value itself if it is
+// not a reference
+func (m *PDFManipulator) resolveValue(value string) string {
 	if refs := parseObjectRefArray(value); len(refs) == 1 && !strings.HasPrefix(value, "[") {
 		if refObjNum, err := parseObjectRef(refs[0]); err == nil {
 			return strings.TrimSpace(string(m.objects[refObjNum]))
diff --git a/core/parse/scan.go b/core/parse/scan.go
index 9c88584..f344b5e 100644
--- a/core/parse/scan.go
+++ b/core/parse/scan.go
@@ -398,6 +398,22 @@ func MapReferences(content []byte, replace func(num, gen int) string) []byte {
 	}
 }
 
+// Tokens returns the tokens of content: names, numbers, keywords, strings and the
+// delimiters of arrays and dictionaries, as they are written. White space and comments
+// are left out.
+func Tokens(content []byte) []string {
+	var tokens []string
+	for pos := 0; ; {
+		pos = skipSpace(content, pos)
+		end := scanToken(content, pos)
+		if end <= pos {
+			return tokens
+		}
+		tokens = append(tokens, string(content[pos:end]))
+		pos = end
+	}
+}
+
 // tokenRef returns the reference ("N G R") that tokens hold, or "".
 func tokenRef(tokens []string) string {
 	if len(tokens) != 3 || tokens[2] != "R" {
-- 
2.43.0


From 9306216541b797677e1071aeb0bf29d1ca3a5e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:03 +0000
Subject: [PATCH 41/99] fix: metadata with escaped, hex and UTF-16 strings;
 nested keys; number of pages

---
 content/extract/dict_helpers.go |  77 ++++++++++++
 content/extract/metadata.go     | 204 ++++++++++++++++++++------------
 core/parse/scan.go              |  20 +++-
 3 files changed, 222 insertions(+), 79 deletions(-)

diff --git a/content/extract/dict_helpers.go b/content/extract/dict_helpers.go
index e04a39d..f8d0684 100644
--- a/content/extract/dict_helpers.go
+++ b/content/extract/dict_helpers.go
@@ -7,6 +7,83 @@ import (
 	"github.com/benedoc-inc/pdfer/core/parse"
 )
 
+// dictEntry is an entry of a dictionary, with the value as it is written there
+type dictEntry struct {
+	key   string // without the slash
+	value string
+}
+
+// dictEntries returns the entries of a dictionary, which may be a whole object
+func dictEntries(dictStr string) []dictEntry {
+	content := parse.ObjectContent([]byte(dictStr))
+	token, pos := parse.NextToken(content, 0)
+	if token != "<<" {
+		return nil
+	}
+
+	var entries []dictEntry
+	key := ""
+	start, end := -1, 0 // of the value
+	for depth := 1; ; {
+		token, next := parse.NextToken(content, pos)
+		if token == "" {
+			return nil
+		}
+		pos = next
+		if depth == 1 && (token == ">>" || token[0] == '/' && (key == "" || start != -1)) {
+			if start != -1 {
+				entries = append(entries, dictEntry{key[1:], string(content[start:end])})
+			}
+			if token == ">>" {
+				return entries
+			}
+			key = token
+			start = -1
+			continue
+		}
+		switch token {
+		case "<<", "[":
+			depth++
+		case ">>", "]":
+			depth--
+		}
+		if start == -1 {
+			start = pos - len(token)
+		}
+		end = pos
+	}
+}
+
+// arrayElements returns the references and dictionaries of an array
+func arrayElements(array string) []string {
+	var elements []string
+	content := []byte(array)
+	start, depth := 0, 0 // of the current dictionary
+	var numbers []string // before an R
+	for pos := 0; ; {
+		token, next := parse.NextToken(content, pos)
+		if token == "" {
+			return elements
+		}
+		pos = next
+		switch {
+		case token == "<<":
+			if depth == 0 {
+				start = pos - len(token)
+			}
+			depth++
+		case token == ">>":
+			depth--
+			if depth == 0 {
+				elements = append(elements, string(content[start:pos]))
+			}
+		case token == "R" && depth == 0 && len(numbers) >= 2:
+			elements = append(elements, strings.Join(numbers[len(numbers)-2:], " ")+" R")
+		}
+		numbers = append(numbers, token)
+	}
+}
+
 // pageDict is a page object, with the attributes it inherits from its parents
 type pageDict struct {
 	objNum int
diff --git a/content/extract/metadata.go b/content/extract/metadata.go
index e5b6a50..91d911e 100644
--- a/content/extract/metadata.go
+++ b/content/extract/metadata.go
@@ -1,11 +1,13 @@
 package extract
 
 import (
+	"encoding/hex"
 	"fmt"
-	"regexp"
 	"strconv"
 	"strings"
 	"time"
+	"unicode/utf16"
+	"unicode/utf8"
 
 	"github.com/benedoc-inc/pdfer/core/parse"
 	"github.com/benedoc-inc/pdfer/types"
@@ -15,20 +17,31 @@ import (
 func ExtractMetadata(pdfBytes []byte, pdf *parse.PDF, verbose bool) (*types.DocumentMetadata, error) {
 	metadata := &types.DocumentMetadata{
 		PDFVersion: pdf.Version(),
-		PageCount:  pdf.ObjectCount(), // Will be updated when we parse pages
 		Encrypted:  pdf.IsEncrypted(),
 		Custom:     make(map[string]string),
 	}
 
-	// Extract from Info dictionary if available
+	// Count the pages
 	trailer := pdf.Trailer()
+	if trailer != nil {
+		if rootObjNum, err := parseObjectRef(trailer.RootRef); err == nil {
+			if catalogObj, err := pdf.GetObject(rootObjNum); err == nil {
+				if pagesObjNum, err := parseObjectRef(extractDictValue(string(catalogObj), "/Pages")); err == nil {
+					pageDicts, _ := collectPages(pdf, pagesObjNum, nil, false)
+					metadata.PageCount = len(pageDicts)
+				}
+			}
+		}
+	}
+
+	// Extract from Info dictionary if available
 	if trailer != nil && trailer.InfoRef != "" {
 		// Parse object number from reference (e.g., "5 0 R")
 		infoObjNum, err := parseObjectRef(trailer.InfoRef)
 		if err == nil {
 			infoObj, err := pdf.GetObject(infoObjNum)
 			if err == nil {
-				parseInfoDict(string(infoObj), metadata, verbose)
+				parseInfoDict(string(infoObj), pdf, metadata)
 			}
 		}
 	}
@@ -58,67 +71,26 @@ func parseObjectRef(ref string) (int, error) {
 }
 
 // parseInfoDict parses a PDF Info dictionary
-func parseInfoDict(infoStr string, metadata *types.DocumentMetadata, verbose bool) {
-	// Extract common fields
-	patterns := map[string]*regexp.Regexp{
-		"title":         regexp.MustCompile(`/Title\s*\(([^)]*)\)`),
-		"author":        regexp.MustCompile(`/Author\s*\(([^)]*)\)`),
-		"subject":       regexp.MustCompile(`/Subject\s*\(([^)]*)\)`),
-		"keywords":      regexp.MustCompile(`/Keywords\s*\(([^)]*)\)`),
-		"creator":       regexp.MustCompile(`/Creator\s*\(([^)]*)\)`),
-		"producer":      regexp.MustCompile(`/Producer\s*\(([^)]*)\)`),
-		"creation_date": regexp.MustCompile(`/CreationDate\s*\(([^)]*)\)`),
-		"mod_date":      regexp.MustCompile(`/ModDate\s*\(([^)]*)\)`),
-	}
-
-	fieldMap := map[string]*string{
-		"title":         &metadata.Title,
-		"author":        &metadata.Author,
-		"subject":       &metadata.Subject,
-		"keywords":      &metadata.Keywords,
-		"creator":       &metadata.Creator,
-		"producer":      &metadata.Producer,
-		"creation_date": &metadata.CreationDate,
-		"mod_date":      &metadata.ModDate,
-	}
-
-	for key, pattern := range patterns {
-		match := pattern.FindStringSubmatch(infoStr)
-		if len(match) > 1 {
-			value := unescapePDFString(match[1])
-			if fieldPtr, ok := fieldMap[key]; ok {
-				*fieldPtr = value
-			}
-		}
+func parseInfoDict(infoStr string, pdf *parse.PDF, metadata *types.DocumentMetadata) {
+	fields := map[string]*string{
+		"Title":        &metadata.Title,
+		"Author":       &metadata.Author,
+		"Subject":      &metadata.Subject,
+		"Keywords":     &metadata.Keywords,
+		"Creator":      &metadata.Creator,
+		"Producer":     &metadata.Producer,
+		"CreationDate": &metadata.CreationDate,
+		"ModDate":      &metadata.ModDate,
 	}
-
-	// Extract custom fields (any field that's not a standard field)
-	// Pattern: /FieldName (value)
-	customPattern := regexp.MustCompile(`/([A-Za-z0-9_]+)\s*\(([^)]*)\)`)
-	standardFields := map[string]bool{
-		"Title":        true,
-		"Author":       true,
-		"Subject":      true,
-		"Keywords":     true,
-		"Creator":      true,
-		"Producer":     true,
-		"CreationDate": true,
-		"ModDate":      true,
-	}
-
-	allMatches := customPattern.FindAllStringSubmatch(infoStr, -1)
-	for _, match := range allMatches {
-		if len(match) >= 3 {
-			fieldName := match[1]
-			fieldValue := unescapePDFString(match[2])
-
-			// Skip if it's a standard field (already extracted)
-			if !standardFields[fieldName] {
-				if metadata.Custom == nil {
-					metadata.Custom = make(map[string]string)
-				}
-				metadata.Custom[fieldName] = fieldValue
-			}
+	for _, entry := range dictEntries(infoStr) {
+		value := resolveValue(entry.value, pdf)
+		if value == "" || !isString(value) || strings.HasPrefix(value, "<<") {
+			continue
+		}
+		if field, ok := fields[entry.key]; ok {
+			*field = textString(value)
+		} else {
+			metadata.Custom[entry.key] = textString(value)
 		}
 	}
 }
@@ -129,16 +101,100 @@ func extractMetadataFromBytes(pdfBytes []byte, metadata *types.DocumentMetadata,
 	// In practice, Info dict parsing should work
 }
 
-// unescapePDFString unescapes a PDF string literal
-func unescapePDFString(s string) string {
-	// Handle basic PDF string escaping
-	s = strings.ReplaceAll(s, "\\n", "\n")
-	s = strings.ReplaceAll(s, "\\r", "\r")
-	s = strings.ReplaceAll(s, "\\t", "\t")
-	s = strings.ReplaceAll(s, "\\(", "(")
-	s = strings.ReplaceAll(s, "\\)", ")")
-	s = strings.ReplaceAll(s, "\\\\", "\\")
-	return s
+// isString reports whether a token is a literal or hex string
+func isString(token string) bool {
+	return token[0] == '(' || token[0] == '<' && token != "<<"
+}
+
+// pdfStringBytes returns the bytes that a literal or hex string stands for
+func pdfStringBytes(token string) string {
+	if strings.HasPrefix(token, "<") {
+		var digits strings.Builder
+		for _, c := range token {
+			if c >= '0' && c <= '9' || c >= 'A' && c <= 'F' || c >= 'a' && c <= 'f' {
+				digits.WriteRune(c)
+			}
+		}
+		if digits.Len()%2 != 0 {
+			digits.WriteByte('0')
+		}
+		data, _ := hex.DecodeString(digits.String())
+		return string(data)
+	}
+
+	token = strings.TrimSuffix(strings.TrimPrefix(token, "("), ")")
+	var result strings.Builder
+	for i := 0; i < len(token); i++ {
+		c := token[i]
+		if c == '\r' {
+			// An end of line is a line feed, however it is written
+			if i+1 < len(token) && token[i+1] == '\n' {
+				i++
+			}
+			c = '\n'
+		}
+		if c != '\\' || i+1 == len(token) {
+			result.WriteByte(c)
+			continue
+		}
+		i++
+		switch c := token[i]; c {
+		case 'n':
+			result.WriteByte('\n')
+		case 'r':
+			result.WriteByte('\r')
+		case 't':
+			result.WriteByte('\t')
+		case 'b':
+			result.WriteByte('\b')
+		case 'f':
+			result.WriteByte('\f')
+		case '\n':
+			// The line continues
+		case '\r':
+			if i+1 < len(token) && token[i+1] == '\n' {
+				i++
+			}
+		case '0', '1', '2', '3', '4', '5', '6', '7':
+			// Up to three octal digits
+			value := 0
+			for n := 0; n < 3 && i < len(token) && token[i] >= '0' && token[i] <= '7'; n++ {
+				value = value*8 + int(token[i]-'0')
+				i++
+			}
+			i--
+			result.WriteByte(byte(value))
+		default:
+			result.WriteByte(c)
+		}
+	}
+	return result.String()
+}
+
+// textString returns the text that a literal or hex string outside of content streams
+// stands for, or "" if value is not a string
+func textString(value string) string {
+	if !strings.HasPrefix(value, "(") && (!strings.HasPrefix(value, "<") || strings.HasPrefix(value, "<<")) {
+		return ""
+	}
+	s := pdfStringBytes(value)
+	if strings.HasPrefix(s, "\xFE\xFF") {
+		// UTF-16BE
+		var units []uint16
+		for i := 2; i+1 < len(s); i += 2 {
+			units = append(units, uint16(s[i])<<8|uint16(s[i+1]))
+		}
+		return string(utf16.Decode(units))
+	}
+	s = strings.TrimPrefix(s, "\xEF\xBB\xBF")
+	if utf8.ValidString(s) {
+		return s
+	}
+	var result strings.Builder // as Latin-1
+	for i := 0; i < len(s); i++ {
+		result.WriteRune(rune(s[i]))
+	}
+	return result.String()
 }
 
 // parsePDFDate parses a PDF date string (D:YYYYMMDDHHmmSSOHH'mm)
diff --git a/core/parse/scan.go b/core/parse/scan.go
index f344b5e..7ad4b85 100644
--- a/core/parse/scan.go
+++ b/core/parse/scan.go
@@ -404,14 +404,24 @@ func MapReferences(content []byte, replace func(num, gen int) string) []byte {
 func Tokens(content []byte) []string {
 	var tokens []string
 	for pos := 0; ; {
-		pos = skipSpace(content, pos)
-		end := scanToken(content, pos)
-		if end <= pos {
+		token, next := NextToken(content, pos)
+		if token == "" {
 			return tokens
 		}
-		tokens = append(tokens, string(content[pos:end]))
-		pos = end
+		tokens = append(tokens, token)
+		pos = next
+	}
+}
+
+// NextToken returns the first token at or after pos, and the position after it. The token
+// is empty if there is none.
+func NextToken(content []byte, pos int) (token string, next int) {
+	pos = skipSpace(content, pos)
+	end := scanToken(content, pos)
+	if end <= pos {
+		return "", pos
 	}
+	return string(content[pos:end]), end
 }
 
 // tokenRef returns the reference ("N G R") that tokens hold, or "".
-- 
2.43.0


From 102d5978ec04c3800718e9094db8e380da72119c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:03 +0000
Subject: [PATCH 42/99] fix: content streams are tokens, not lines; streams of
 a page are one content stream; text lines, leading and matrices

---
 content/extract/content_stream.go | 620 +++++++++++++-----------------
 content/extract/encoding.go       |  17 +-
 content/extract/pages.go          |  70 +---
 3 files changed, 280 insertions(+), 427 deletions(-)

diff --git a/content/extract/content_stream.go b/content/extract/content_stream.go
index f3d7817..77fc4d8 100644
--- a/content/extract/content_stream.go
+++ b/content/extract/content_stream.go
@@ -1,7 +1,9 @@
 package extract
 
 import (
-	"regexp"
+	"bytes"
+	"encoding/hex"
+	"math"
 	"strconv"
 	"strings"
 
@@ -23,15 +25,8 @@ func parseContentStreamWithDecoders(contentStr string, pdf *parse.PDF, pageNum i
 
 	// Parse text state
 	textState := &textState{
-		fontName:    "",
-		fontSize:    0,
-		x:           0,
-		y:           0,
-		charSpacing: 0,
-		wordSpacing: 0,
-		textRise:    0,
-		textMatrix:  [6]float64{1, 0, 0, 1, 0, 0},
-		inText:      false,
+		textMatrix: identityMatrix,
+		lineMatrix: identityMatrix,
 	}
 
 	// Parse graphics state
@@ -39,314 +34,305 @@ func parseContentStreamWithDecoders(contentStr string, pdf *parse.PDF, pageNum i
 		lineWidth:   1,
 		fillColor:   &types.Color{R: 0, G: 0, B: 0}, // Default black
 		strokeColor: &types.Color{R: 0, G: 0, B: 0},
+		matrix:      identityMatrix, // Current transformation matrix (for images)
 	}
+	var stack []savedState // Stack for q/Q operators
 
-	// Track current transformation matrix (for images)
-	// Default is identity matrix [1 0 0 1 0 0]
-	currentMatrix := [6]float64{1, 0, 0, 1, 0, 0}
-	matrixStack := [][6]float64{} // Stack for q/Q operators
-
-	// Split content stream into tokens
-	lines := strings.Split(contentStr, "\n")
-	for _, line := range lines {
-		line = strings.TrimSpace(line)
-		if line == "" {
-			continue
-		}
+	showText := func(text string) {
+		textElements = append(textElements, createTextElement(text, textState))
+	}
 
-		// Parse text operators
-		if strings.HasPrefix(line, "BT") {
-			textState.inText = true
-			continue
+	// The operands of an operator come before it
+	var operands []string
+	content := []byte(contentStr)
+	for pos := 0; ; {
+		token, next := parse.NextToken(content, pos)
+		if token == "" {
+			break
 		}
-		if strings.HasPrefix(line, "ET") {
-			textState.inText = false
+		pos = next
+		if isOperand(token) {
+			operands = append(operands, token)
 			continue
 		}
 
+		switch token {
+		// Text objects
+		case "BT":
+			textState.textMatrix = identityMatrix
+			textState.lineMatrix = identityMatrix
+
 		// Text positioning
-		if match := regexp.MustCompile(`^([\d\.\-]+)\s+([\d\.\-]+)\s+Td`).FindStringSubmatch(line); match != nil {
-			if tx, err := strconv.ParseFloat(match[1], 64); err == nil {
-				if ty, err := strconv.ParseFloat(match[2], 64); err == nil {
-					textState.x += tx
-					textState.y += ty
+		case "Td", "TD":
+			if v, ok := numberOperands(operands, 2); ok {
+				if token == "TD" {
+					textState.leading = -v[1]
 				}
+				textState.moveLine(v[0], v[1])
 			}
-			continue
-		}
+		case "T*":
+			textState.moveLine(0, -textState.leading)
 
 		// Text matrix
-		if match := regexp.MustCompile(`^([\d\.\-]+)\s+([\d\.\-]+)\s+([\d\.\-]+)\s+([\d\.\-]+)\s+([\d\.\-]+)\s+([\d\.\-]+)\s+Tm`).FindStringSubmatch(line); match != nil {
-			matrix := [6]float64{}
-			for i := 1; i <= 6; i++ {
-				if val, err := strconv.ParseFloat(match[i], 64); err == nil {
-					matrix[i-1] = val
-				}
+		case "Tm":
+			if v, ok := numberOperands(operands, 6); ok {
+				textState.textMatrix = [6]float64{v[0], v[1], v[2], v[3], v[4], v[5]}
+				textState.lineMatrix = textState.textMatrix
 			}
-			textState.textMatrix = matrix
-			textState.x = matrix[4]
-			textState.y = matrix[5]
-			continue
-		}
 
 		// Font and size
-		if match := regexp.MustCompile(`^([/\w]+)\s+([\d\.\-]+)\s+Tf`).FindStringSubmatch(line); match != nil {
-			textState.fontName = match[1]
-			if size, err := strconv.ParseFloat(match[2], 64); err == nil {
-				textState.fontSize = size
-			}
-			// Set font decoder if available
-			if fontDecoders != nil {
-				textState.decoder = fontDecoders[textState.fontName]
+		case "Tf":
+			if size, ok := numberOperands(operands, 1); ok && len(operands) > 1 {
+				textState.fontSize = size[0]
+				textState.fontName = operands[len(operands)-2]
+				// Set font decoder if available
+				if fontDecoders != nil {
+					textState.decoder = fontDecoders[textState.fontName]
+				}
 			}
-			continue
-		}
 
-		// Character spacing
-		if match := regexp.MustCompile(`^([\d\.\-]+)\s+Tc`).FindStringSubmatch(line); match != nil {
-			if val, err := strconv.ParseFloat(match[1], 64); err == nil {
-				textState.charSpacing = val
+		// Character spacing, word spacing, text rise and leading
+		case "Tc":
+			if v, ok := numberOperands(operands, 1); ok {
+				textState.charSpacing = v[0]
 			}
-			continue
-		}
-
-		// Word spacing
-		if match := regexp.MustCompile(`^([\d\.\-]+)\s+Tw`).FindStringSubmatch(line); match != nil {
-			if val, err := strconv.ParseFloat(match[1], 64); err == nil {
-				textState.wordSpacing = val
+		case "Tw":
+			if v, ok := numberOperands(operands, 1); ok {
+				textState.wordSpacing = v[0]
 			}
-			continue
-		}
-
-		// Text rise
-		if match := regexp.MustCompile(`^([\d\.\-]+)\s+Ts`).FindStringSubmatch(line); match != nil {
-			if val, err := strconv.ParseFloat(match[1], 64); err == nil {
-				textState.textRise = val
+		case "Ts":
+			if v, ok := numberOperands(operands, 1); ok {
+				textState.textRise = v[0]
 			}
-			continue
-		}
-
-		// Show text (Tj operator) - literal string or hex string
-		if match := regexp.MustCompile(`^\(([^)]*)\)\s+Tj`).FindStringSubmatch(line); match != nil {
-			// Literal string
-			rawText := unescapePDFString(match[1])
-			text := decodeTextWithFont(rawText, textState.decoder, false)
-			textElement := createTextElement(text, textState)
-			textElements = append(textElements, textElement)
-			continue
-		}
-		if match := regexp.MustCompile(`^<([0-9A-Fa-f\s]*)>\s+Tj`).FindStringSubmatch(line); match != nil {
-			// Hex string
-			text := decodeTextWithFont(match[1], textState.decoder, true)
-			textElement := createTextElement(text, textState)
-			textElements = append(textElements, textElement)
-			continue
-		}
-
-		// Show text next line (') - literal string or hex string
-		if match := regexp.MustCompile(`^\(([^)]*)\)\s+'`).FindStringSubmatch(line); match != nil {
-			rawText := unescapePDFString(match[1])
-			text := decodeTextWithFont(rawText, textState.decoder, false)
-			textElement := createTextElement(text, textState)
-			textElements = append(textElements, textElement)
-			// Move to next line (simplified - would need leading)
-			textState.y -= textState.fontSize * 1.2
-			continue
-		}
-		if match := regexp.MustCompile(`^<([0-9A-Fa-f\s]*)>\s+'`).FindStringSubmatch(line); match != nil {
-			text := decodeTextWithFont(match[1], textState.decoder, true)
-			textElement := createTextElement(text, textState)
-			textElements = append(textElements, textElement)
-			textState.y -= textState.fontSize * 1.2
-			continue
-		}
-
-		// Show text array (TJ operator)
-		if match := regexp.MustCompile(`^\[([^\]]+)\]\s+TJ`).FindStringSubmatch(line); match != nil {
-			text := parseTextArrayWithDecoder(match[1], textState.decoder)
-			textElement := createTextElement(text, textState)
-			textElements = append(textElements, textElement)
-			continue
-		}
-
-		// Graphics operations
-		// Rectangle (re operator)
-		if match := regexp.MustCompile(`^([\d\.\-]+)\s+([\d\.\-]+)\s+([\d\.\-]+)\s+([\d\.\-]+)\s+re`).FindStringSubmatch(line); match != nil {
-			if x, err := strconv.ParseFloat(match[1], 64); err == nil {
-				if y, err := strconv.ParseFloat(match[2], 64); err == nil {
-					if w, err := strconv.ParseFloat(match[3], 64); err == nil {
-						if h, err := strconv.ParseFloat(match[4], 64); err == nil {
-							graphic := types.Graphic{
-								Type:        types.GraphicTypeRectangle,
-								FillColor:   graphicsState.fillColor,
-								StrokeColor: graphicsState.strokeColor,
-								LineWidth:   graphicsState.lineWidth,
-								BoundingBox: &types.Rectangle{
-									LowerX: x,
-									LowerY: y,
-									UpperX: x + w,
-									UpperY: y + h,
-								},
-							}
-							graphics = append(graphics, graphic)
-						}
-					}
-				}
+		case "TL":
+			if v, ok := numberOperands(operands, 1); ok {
+				textState.leading = v[0]
 			}
-			continue
-		}
 
-		// Move to (m operator)
-		if match := regexp.MustCompile(`^([\d\.\-]+)\s+([\d\.\-]+)\s+m`).FindStringSubmatch(line); match != nil {
-			// Start of a path - we'll track this for line/path extraction
-			// For now, just note it
-			continue
-		}
+		// Show text - literal string or hex string
+		case "Tj", "'", "\"":
+			if len(operands) == 0 || !isString(operands[len(operands)-1]) {
+				break
+			}
+			if v, ok := numberOperands(operands[:len(operands)-1], 2); token == "\"" && ok {
+				textState.wordSpacing = v[0]
+				textState.charSpacing = v[1]
+			}
+			if token != "Tj" {
+				textState.moveLine(0, -textState.leading)
+			}
+			showText(decodeStringToken(operands[len(operands)-1], textState.decoder))
+
+		// Show text array
+		case "TJ":
+			showText(decodeStringTokens(operands, textState.decoder))
+
+		// Rectangle
+		case "re":
+			if v, ok := numberOperands(operands, 4); ok {
+				graphics = append(graphics, types.Graphic{
+					Type:        types.GraphicTypeRectangle,
+					FillColor:   graphicsState.fillColor,
+					StrokeColor: graphicsState.strokeColor,
+					LineWidth:   graphicsState.lineWidth,
+					BoundingBox: &types.Rectangle{
+						LowerX: v[0],
+						LowerY: v[1],
+						UpperX: v[0] + v[2],
+						UpperY: v[1] + v[3],
+					},
+				})
+			}
 
-		// Line to (l operator)
-		if match := regexp.MustCompile(`^([\d\.\-]+)\s+([\d\.\-]+)\s+l`).FindStringSubmatch(line); match != nil {
+		// Line to
+		case "l":
 			// Simplified - would need to track path start
 			// For now, just note that a line was drawn
-			graphic := types.Graphic{
-				Type:        types.GraphicTypeLine,
-				StrokeColor: graphicsState.strokeColor,
-				LineWidth:   graphicsState.lineWidth,
+			if _, ok := numberOperands(operands, 2); ok {
+				graphics = append(graphics, types.Graphic{
+					Type:        types.GraphicTypeLine,
+					StrokeColor: graphicsState.strokeColor,
+					LineWidth:   graphicsState.lineWidth,
+				})
 			}
-			graphics = append(graphics, graphic)
-			continue
-		}
 
-		// Stroke (S operator)
-		if strings.HasPrefix(line, "S") {
-			// Stroke the current path
-			continue
-		}
-
-		// Fill (f operator)
-		if strings.HasPrefix(line, "f") {
-			// Fill the current path
-			continue
-		}
-
-		// Save graphics state (q operator) - push current matrix to stack
-		if strings.TrimSpace(line) == "q" {
-			matrixStack = append(matrixStack, currentMatrix)
-			continue
-		}
-
-		// Restore graphics state (Q operator) - pop matrix from stack
-		if strings.TrimSpace(line) == "Q" {
-			if len(matrixStack) > 0 {
-				currentMatrix = matrixStack[len(matrixStack)-1]
-				matrixStack = matrixStack[:len(matrixStack)-1]
+		// Save and restore graphics state
+		case "q":
+			stack = append(stack, savedState{*graphicsState, textState.textParameters})
+		case "Q":
+			if len(stack) > 0 {
+				*graphicsState = stack[len(stack)-1].graphics
+				textState.textParameters = stack[len(stack)-1].text
+				stack = stack[:len(stack)-1]
 			}
-			continue
-		}
 
-		// Set transformation matrix (cm operator)
-		// Format: a b c d e f cm
-		if match := regexp.MustCompile(`^([\d\.\-]+)\s+([\d\.\-]+)\s+([\d\.\-]+)\s+([\d\.\-]+)\s+([\d\.\-]+)\s+([\d\.\-]+)\s+cm`).FindStringSubmatch(line); match != nil {
-			matrix := [6]float64{}
-			for i := 1; i <= 6; i++ {
-				if val, err := strconv.ParseFloat(match[i], 64); err == nil {
-					matrix[i-1] = val
-				}
+		// Concatenate to the transformation matrix
+		case "cm":
+			if v, ok := numberOperands(operands, 6); ok {
+				graphicsState.matrix = multiplyMatrix([6]float64{v[0], v[1], v[2], v[3], v[4], v[5]}, graphicsState.matrix)
 			}
-			// Multiply with current matrix (concatenate transformations)
-			// For simplicity, we'll just replace (assuming q/Q handles stacking)
-			// In full implementation, should multiply: newMatrix = currentMatrix * matrix
-			// For now, replace since DrawImageAt uses q/cm/Do/Q pattern
-			currentMatrix = matrix
-			continue
-		}
 
-		// Set line width (w operator)
-		if match := regexp.MustCompile(`^([\d\.\-]+)\s+w`).FindStringSubmatch(line); match != nil {
-			if val, err := strconv.ParseFloat(match[1], 64); err == nil {
-				graphicsState.lineWidth = val
+		// Line width
+		case "w":
+			if v, ok := numberOperands(operands, 1); ok {
+				graphicsState.lineWidth = v[0]
 			}
-			continue
-		}
 
-		// Set fill color RGB (rg operator)
-		if match := regexp.MustCompile(`^([\d\.\-]+)\s+([\d\.\-]+)\s+([\d\.\-]+)\s+rg`).FindStringSubmatch(line); match != nil {
-			if r, err := strconv.ParseFloat(match[1], 64); err == nil {
-				if g, err := strconv.ParseFloat(match[2], 64); err == nil {
-					if b, err := strconv.ParseFloat(match[3], 64); err == nil {
-						graphicsState.fillColor = &types.Color{R: r, G: g, B: b}
-					}
-				}
+		// Fill and stroke color
+		case "rg", "g", "k":
+			if color := colorOperands(operands, token); color != nil {
+				graphicsState.fillColor = color
 			}
-			continue
-		}
-
-		// Set stroke color RGB (RG operator)
-		if match := regexp.MustCompile(`^([\d\.\-]+)\s+([\d\.\-]+)\s+([\d\.\-]+)\s+RG`).FindStringSubmatch(line); match != nil {
-			if r, err := strconv.ParseFloat(match[1], 64); err == nil {
-				if g, err := strconv.ParseFloat(match[2], 64); err == nil {
-					if b, err := strconv.ParseFloat(match[3], 64); err == nil {
-						graphicsState.strokeColor = &types.Color{R: r, G: g, B: b}
-					}
-				}
+		case "RG", "G", "K":
+			if color := colorOperands(operands, strings.ToLower(token)); color != nil {
+				graphicsState.strokeColor = color
 			}
-			continue
-		}
 
-		// Draw image (Do operator)
+		// Draw image
 		// Extract position and size from current transformation matrix
-		if match := regexp.MustCompile(`^([/\w]+)\s+Do`).FindStringSubmatch(line); match != nil {
+		case "Do":
+			if len(operands) == 0 {
+				break
+			}
 			// Transformation matrix [a b c d e f] where:
 			// - a, d are scale factors (width, height)
 			// - e, f are translation (x, y position)
 			// For DrawImageAt pattern: [width 0 0 height x y]
-			x := currentMatrix[4]      // e (translation X)
-			y := currentMatrix[5]      // f (translation Y)
-			width := currentMatrix[0]  // a (scale X)
-			height := currentMatrix[3] // d (scale Y)
-
-			// Handle negative scales (flipped images)
-			if width < 0 {
-				width = -width
-			}
-			if height < 0 {
-				height = -height
-			}
-
-			imageRef := types.ImageRef{
-				ImageID:   match[1],
-				X:         x,
-				Y:         y,
-				Width:     width,
-				Height:    height,
-				Transform: currentMatrix,
-			}
-			imageRefs = append(imageRefs, imageRef)
-			continue
+			matrix := graphicsState.matrix
+			imageRefs = append(imageRefs, types.ImageRef{
+				ImageID:   operands[len(operands)-1],
+				X:         matrix[4],
+				Y:         matrix[5],
+				Width:     math.Abs(matrix[0]), // Handle negative scales (flipped images)
+				Height:    math.Abs(matrix[3]),
+				Transform: matrix,
+			})
+
+		// Inline image - its data is not made of tokens
+		case "ID":
+			pos = skipInlineImage(content, pos)
 		}
+		operands = operands[:0]
 	}
 
 	return textElements, graphics, imageRefs
 }
 
+// identityMatrix is the transformation that changes nothing
+var identityMatrix = [6]float64{1, 0, 0, 1, 0, 0}
+
+// multiplyMatrix returns the transformation that applies a and then b
+func multiplyMatrix(a, b [6]float64) [6]float64 {
+	return [6]float64{
+		a[0]*b[0] + a[1]*b[2],
+		a[0]*b[1] + a[1]*b[3],
+		a[2]*b[0] + a[3]*b[2],
+		a[2]*b[1] + a[3]*b[3],
+		a[4]*b[0] + a[5]*b[2] + b[4],
+		a[4]*b[1] + a[5]*b[3] + b[5],
+	}
+}
+
+// isOperand reports whether a token of a content stream is (part of) an operand rather
+// than an operator
+func isOperand(token string) bool {
+	switch token[0] {
+	case '/', '(', '<', '>', '[', ']', '+', '-', '.', '0', '1', '2', '3', '4', '5', '6', '7', '8', '9':
+		return true
+	}
+	return token == "true" || token == "false" || token == "null"
+}
+
+// numberOperands returns the last n operands, if they are numbers
+func numberOperands(operands []string, n int) ([]float64, bool) {
+	if len(operands) < n {
+		return nil, false
+	}
+	values := make([]float64, n)
+	for i, operand := range operands[len(operands)-n:] {
+		value, err := strconv.ParseFloat(operand, 64)
+		if err != nil {
+			return nil, false
+		}
+		values[i] = value
+	}
+	return values, true
+}
+
+// colorOperands returns the color that the operands of rg, g or k stand for, or nil
+func colorOperands(operands []string, operator string) *types.Color {
+	switch operator {
+	case "g":
+		if v, ok := numberOperands(operands, 1); ok {
+			return &types.Color{Space: types.ColorSpaceGray, R: v[0], G: v[0], B: v[0]}
+		}
+	case "rg":
+		if v, ok := numberOperands(operands, 3); ok {
+			return &types.Color{R: v[0], G: v[1], B: v[2]}
+		}
+	case "k":
+		if v, ok := numberOperands(operands, 4); ok {
+			return &types.Color{Space: types.ColorSpaceCMYK, C: v[0], M: v[1], Y: v[2], K: v[3]}
+		}
+	}
+	return nil
+}
+
+// skipInlineImage returns the position after the inline image whose data starts at pos
+func skipInlineImage(content []byte, pos int) int {
+	for {
+		end := bytes.Index(content[pos:], []byte("EI"))
+		if end == -1 {
+			return len(content)
+		}
+		start := pos + end
+		pos = start + len("EI")
+		if start > 0 && isSpace(content[start-1]) && (pos == len(content) || isSpace(content[pos])) {
+			return pos
+		}
+	}
+}
+
+// isSpace reports whether b is white space
+func isSpace(b byte) bool {
+	return b == 0 || b == ' ' || b >= '\t' && b <= '\r' && b != '\v'
+}
+
 // textState tracks the current text rendering state
 type textState struct {
+	textParameters
+	textMatrix [6]float64 // as set last
+	lineMatrix [6]float64 // start of the current line
+}
+
+// textParameters is the part of the text state that q and Q save and restore
+type textParameters struct {
 	fontName    string
 	fontSize    float64
-	x           float64
-	y           float64
 	charSpacing float64
 	wordSpacing float64
 	textRise    float64
-	textMatrix  [6]float64
-	inText      bool
+	leading     float64
 	decoder     *FontDecoder // Current font decoder for text extraction
 }
 
+// moveLine moves to the start of another line, relative to the start of the current one
+func (state *textState) moveLine(tx, ty float64) {
+	state.lineMatrix = multiplyMatrix([6]float64{1, 0, 0, 1, tx, ty}, state.lineMatrix)
+}
+
 // graphicsState tracks the current graphics rendering state
 type graphicsState struct {
 	lineWidth   float64
 	fillColor   *types.Color
 	strokeColor *types.Color
+	matrix      [6]float64
+}
+
+// savedState is what q saves
+type savedState struct {
+	graphics graphicsState
+	text     textParameters
 }
 
 // createTextElement creates a TextElement from text and current text state
@@ -356,8 +342,8 @@ func createTextElement(text string, state *textState) types.TextElement {
 
 	return types.TextElement{
 		Text:        text,
-		X:           state.x,
-		Y:           state.y,
+		X:           state.lineMatrix[4],
+		Y:           state.lineMatrix[5],
 		Width:       width,
 		Height:      state.fontSize,
 		FontName:    state.fontName,
@@ -369,117 +355,31 @@ func createTextElement(text string, state *textState) types.TextElement {
 	}
 }
 
-// parseTextArray parses a TJ text array and concatenates strings
+// decodeStringTokens concatenates the strings of a TJ text array
 // Format: [ (text1) -50 (text2) ] where numbers are adjustments
-func parseTextArray(arrStr string) string {
-	return parseTextArrayWithDecoder(arrStr, nil)
-}
-
-// parseTextArrayWithDecoder parses a TJ text array with font decoding
-func parseTextArrayWithDecoder(arrStr string, decoder *FontDecoder) string {
+func decodeStringTokens(tokens []string, decoder *FontDecoder) string {
 	var result strings.Builder
-
-	// Remove brackets if present
-	arrStr = strings.TrimSpace(arrStr)
-	arrStr = strings.TrimPrefix(arrStr, "[")
-	arrStr = strings.TrimSuffix(arrStr, "]")
-
-	// Parse elements - strings in parentheses, hex strings, or numbers
-	// Pattern: (text) or <hex> or number
-	// We need to handle both literal and hex strings
-	i := 0
-	for i < len(arrStr) {
-		// Skip whitespace
-		for i < len(arrStr) && (arrStr[i] == ' ' || arrStr[i] == '\t' || arrStr[i] == '\n' || arrStr[i] == '\r') {
-			i++
-		}
-		if i >= len(arrStr) {
-			break
-		}
-
-		if arrStr[i] == '(' {
-			// Literal string - find matching closing paren (handle escapes)
-			start := i + 1
-			depth := 1
-			i++
-			for i < len(arrStr) && depth > 0 {
-				if arrStr[i] == '\\' && i+1 < len(arrStr) {
-					i += 2 // Skip escaped character
-					continue
-				}
-				if arrStr[i] == '(' {
-					depth++
-				} else if arrStr[i] == ')' {
-					depth--
-				}
-				i++
-			}
-			if depth == 0 {
-				rawText := unescapePDFString(arrStr[start : i-1])
-				text := decodeTextWithFont(rawText, decoder, false)
-				result.WriteString(text)
-			}
-		} else if arrStr[i] == '<' {
-			// Hex string - find closing >
-			start := i + 1
-			i++
-			for i < len(arrStr) && arrStr[i] != '>' {
-				i++
-			}
-			if i < len(arrStr) {
-				hexStr := arrStr[start:i]
-				text := decodeTextWithFont(hexStr, decoder, true)
-				result.WriteString(text)
-				i++ // Skip >
-			}
-		} else if arrStr[i] == '-' || arrStr[i] == '.' || (arrStr[i] >= '0' && arrStr[i] <= '9') {
-			// Number (adjustment) - skip it
-			for i < len(arrStr) && (arrStr[i] == '-' || arrStr[i] == '.' || (arrStr[i] >= '0' && arrStr[i] <= '9')) {
-				i++
-			}
-		} else {
-			i++ // Skip unknown character
+	for _, token := range tokens {
+		if isString(token) {
+			result.WriteString(decodeStringToken(token, decoder))
 		}
 	}
-
 	return result.String()
 }
 
-// decodeTextWithFont decodes raw text bytes using the font's encoding
-func decodeTextWithFont(rawText string, decoder *FontDecoder, isHex bool) string {
-	if decoder == nil {
-		// No decoder available - return as-is (original behavior)
-		if isHex {
-			// Decode hex to bytes and return as Latin-1
-			return decodeHexToLatin1(rawText)
-		}
-		return rawText
-	}
-
-	if isHex {
-		return decoder.DecodeHex(rawText)
+// decodeStringToken decodes a literal or hex string using the font's encoding
+func decodeStringToken(token string, decoder *FontDecoder) string {
+	data := pdfStringBytes(token)
+	if decoder != nil {
+		return decoder.DecodeHex(hex.EncodeToString([]byte(data)))
 	}
-	return decoder.Decode([]byte(rawText))
-}
-
-// decodeHexToLatin1 decodes a hex string to Latin-1 text (fallback when no font decoder)
-func decodeHexToLatin1(hexStr string) string {
-	hexStr = strings.ReplaceAll(hexStr, " ", "")
-	hexStr = strings.ReplaceAll(hexStr, "\n", "")
-	hexStr = strings.ReplaceAll(hexStr, "\r", "")
-
-	// Pad if odd length
-	if len(hexStr)%2 != 0 {
-		hexStr += "0"
+	// No decoder available
+	if token[0] == '(' {
+		return data // as it is
 	}
-
-	var result strings.Builder
-	for i := 0; i < len(hexStr); i += 2 {
-		if val, err := strconv.ParseInt(hexStr[i:i+2], 16, 32); err == nil {
-			result.WriteRune(rune(val))
-		}
+	var result strings.Builder // as Latin-1
+	for i := 0; i < len(data); i++ {
+		result.WriteRune(rune(data[i]))
 	}
 	return result.String()
 }
-
-// unescapePDFString is defined in metadata.go
diff --git a/content/extract/encoding.go b/content/extract/encoding.go
index eebbb54..c0001a6 100644
--- a/content/extract/encoding.go
+++ b/content/extract/encoding.go
@@ -4,6 +4,8 @@ import (
 	"regexp"
 	"strconv"
 	"strings"
+
+	"github.com/benedoc-inc/pdfer/core/parse"
 )
 
 // FontDecoder decodes character codes to Unicode for a specific font
@@ -17,6 +19,9 @@ type FontDecoder struct {
 	// Differences array overlays the base encoding
 	differences map[int]rune
 
+	// Number of bytes of a character code, 0 if not known
+	codeBytes int
+
 	// Font name for debugging
 	fontName string
 }
@@ -105,7 +110,7 @@ func (fd *FontDecoder) DecodeHex(hexStr string) string {
 
 	// Check if this is a 2-byte encoding (common for CID fonts)
 	// Heuristic: if we have ToUnicode entries for codes > 255, use 2-byte decoding
-	is2Byte := fd.has2ByteMapping()
+	is2Byte := fd.codeBytes == 2 || fd.codeBytes == 0 && fd.has2ByteMapping()
 
 	if is2Byte && len(hexStr) >= 4 {
 		// 2-byte character codes
@@ -283,16 +288,8 @@ func hexToUnicodeRunes(hex string) []rune {
 // ParseDifferencesArray parses a PDF Differences array
 // Format: [ code1 /name1 /name2 code2 /name3 ... ]
 func (fd *FontDecoder) ParseDifferencesArray(diffStr string) {
-	// Remove brackets
-	diffStr = strings.TrimSpace(diffStr)
-	diffStr = strings.TrimPrefix(diffStr, "[")
-	diffStr = strings.TrimSuffix(diffStr, "]")
-
-	// Parse tokens
-	tokens := strings.Fields(diffStr)
 	currentCode := 0
-
-	for _, token := range tokens {
+	for _, token := range parse.Tokens([]byte(diffStr)) {
 		if strings.HasPrefix(token, "/") {
 			// Glyph name
 			glyphName := strings.TrimPrefix(token, "/")
diff --git a/content/extract/pages.go b/content/extract/pages.go
index 7d15ff9..061b4c2 100644
--- a/content/extract/pages.go
+++ b/content/extract/pages.go
@@ -61,6 +61,9 @@ func ExtractPages(pdfBytes []byte, pdf *parse.PDF, verbose bool) ([]types.Page,
 	// Update page numbers
 	for i := range pages {
 		pages[i].PageNumber = i + 1
+		for j := range pages[i].Annotations {
+			pages[i].Annotations[j].PageNumber = i + 1
+		}
 	}
 
 	return pages, nil
@@ -152,7 +155,8 @@ func extractPage(pdfBytes []byte, pdf *parse.PDF, pageObjNum int, pageStr string
 			contentRefs = []string{contents}
 		}
 
-		// Extract text and graphics from content streams
+		// The streams are parts of one content stream
+		var content strings.Builder
 		for _, contentRef := range contentRefs {
 			contentObjNum, err := parseObjectRef(contentRef)
 			if err != nil {
@@ -161,63 +165,15 @@ func extractPage(pdfBytes []byte, pdf *parse.PDF, pageObjNum int, pageStr string
 				}
 				continue
 			}
-
-			contentObj, err := pdf.GetObject(contentObjNum)
-			if err != nil {
-				if verbose {
-					fmt.Printf("Warning: failed to get content object %d: %v\n", contentObjNum, err)
-				}
-				continue
-			}
-
-			// Parse content stream
-			// Content streams are usually stored as stream objects with FlateDecode
-			// We need to get the actual stream data, not the object wrapper
-			contentStr := string(contentObj)
-
-			// Check if this is a stream object and extract/decompress the stream data
-			if strings.Contains(contentStr, "stream") {
-				streamIdx := strings.Index(contentStr, "stream")
-				if streamIdx != -1 {
-					// Check for FlateDecode filter
-					isCompressed := strings.Contains(contentStr, "/FlateDecode")
-
-					// Extract stream data
-					dataStart := streamIdx + 6 // Skip "stream"
-					// Skip EOL after "stream"
-					if dataStart < len(contentStr) && (contentStr[dataStart] == '\r' || contentStr[dataStart] == '\n') {
-						dataStart++
-					}
-					if dataStart < len(contentStr) && contentStr[dataStart] == '\n' {
-						dataStart++
-					}
-
-					endstreamIdx := strings.Index(contentStr[dataStart:], "endstream")
-					if endstreamIdx != -1 {
-						streamData := []byte(contentStr[dataStart : dataStart+endstreamIdx])
-
-						// Decompress if needed using parse package
-						if isCompressed {
-							// Use parse.DecodeFlateDecode which handles both zlib and raw deflate
-							decompressed, err := parse.DecodeFlateDecode(streamData)
-							if err == nil {
-								contentStr = string(decompressed)
-							} else {
-								// Fallback to raw if decompression fails
-								contentStr = string(streamData)
-							}
-						} else {
-							contentStr = string(streamData)
-						}
-					}
-				}
-			}
-
-			textElements, graphics, images := parseContentStreamWithDecoders(contentStr, pdf, pageObjNum, fontDecoders, verbose)
-			page.Text = append(page.Text, textElements...)
-			page.Graphics = append(page.Graphics, graphics...)
-			page.Images = append(page.Images, images...)
+			content.WriteString(extractStreamData(contentObjNum, pdf, verbose))
+			content.WriteString("\n")
 		}
+
+		// Extract text and graphics
+		textElements, graphics, images := parseContentStreamWithDecoders(content.String(), pdf, pageObjNum, fontDecoders, verbose)
+		page.Text = append(page.Text, textElements...)
+		page.Graphics = append(page.Graphics, graphics...)
+		page.Images = append(page.Images, images...)
 	}
 
 	// Extract annotations
-- 
2.43.0


From c1966aed9c65c91e071802b5f3c407cb2e8120e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:03 +0000
Subject: [PATCH 43/99] fix: outlines with cycles, actions and page numbers;
 direct annotations, link actions and strings

---
 content/extract/annotations.go | 114 ++++++++--------------------
 content/extract/bookmarks.go   | 131 +++++++++++++--------------------
 2 files changed, 84 insertions(+), 161 deletions(-)

diff --git a/content/extract/annotations.go b/content/extract/annotations.go
index e70e769..4b8feb2 100644
--- a/content/extract/annotations.go
+++ b/content/extract/annotations.go
@@ -13,26 +13,20 @@ func extractAnnotations(annotsStr string, pdf *parse.PDF, pageNum int, verbose b
 	var annotations []types.Annotation
 
 	// Parse annotations array (e.g., "[5 0 R 6 0 R]")
-	annotRefs := parseObjectRefArray(annotsStr)
-	if len(annotRefs) == 0 {
-		// Try as single reference
-		if annotRefs = []string{annotsStr}; len(annotsStr) > 0 {
-			// Already set
-		} else {
-			return annotations
-		}
-	}
-
-	for _, annotRef := range annotRefs {
-		annotObjNum, err := parseObjectRef(annotRef)
-		if err != nil {
-			if verbose {
-				fmt.Printf("Warning: failed to parse annotation reference %s: %v\n", annotRef, err)
+	for _, element := range arrayElements(annotsStr) {
+		annotObjNum := 0 // Of a dictionary in the array itself
+		if !strings.HasPrefix(element, "<<") {
+			objNum, err := parseObjectRef(element)
+			if err != nil {
+				if verbose {
+					fmt.Printf("Warning: failed to parse annotation reference %s: %v\n", element, err)
+				}
+				continue
 			}
-			continue
+			annotObjNum = objNum
 		}
 
-		annot := extractAnnotation(annotObjNum, pdf, pageNum, verbose)
+		annot := extractAnnotation(annotObjNum, resolveValue(element, pdf), pdf, pageNum)
 		if annot != nil {
 			annotations = append(annotations, *annot)
 		}
@@ -41,25 +35,19 @@ func extractAnnotations(annotsStr string, pdf *parse.PDF, pageNum int, verbose b
 	return annotations
 }
 
-// extractAnnotation extracts a single annotation object
-func extractAnnotation(annotObjNum int, pdf *parse.PDF, pageNum int, verbose bool) *types.Annotation {
-	annotObj, err := pdf.GetObject(annotObjNum)
-	if err != nil {
-		if verbose {
-			fmt.Printf("Warning: failed to get annotation object %d: %v\n", annotObjNum, err)
-		}
-		return nil
-	}
-
-	annotStr := string(annotObj)
+// extractAnnotation extracts a single annotation. annotObjNum is 0 if it is not an object
+// of its own.
+func extractAnnotation(annotObjNum int, annotStr string, pdf *parse.PDF, pageNum int) *types.Annotation {
 	annotation := &types.Annotation{
-		ID:         fmt.Sprintf("%d", annotObjNum),
 		PageNumber: pageNum,
 		Properties: make(map[string]interface{}),
 	}
+	if annotObjNum != 0 {
+		annotation.ID = fmt.Sprintf("%d", annotObjNum)
+	}
 
 	// Extract Subtype (annotation type)
-	subtype := extractDictValue(annotStr, "/Subtype")
+	subtype := resolveValue(extractDictValue(annotStr, "/Subtype"), pdf)
 	if subtype == "" {
 		// Not a valid annotation
 		return nil
@@ -115,24 +103,10 @@ func extractAnnotation(annotObjNum int, pdf *parse.PDF, pageNum int, verbose boo
 		}
 	}
 
-	// Extract Contents (annotation text/contents)
-	contents := extractDictValue(annotStr, "/Contents")
-	if contents != "" {
-		// Unescape PDF string
-		annotation.Contents = unescapePDFString(contents)
-	}
-
-	// Extract Title
-	title := extractDictValue(annotStr, "/T")
-	if title != "" {
-		annotation.Title = unescapePDFString(title)
-	}
-
-	// Extract Subject
-	subject := extractDictValue(annotStr, "/Subj")
-	if subject != "" {
-		annotation.Subject = unescapePDFString(subject)
-	}
+	// Extract Contents (annotation text/contents), Title and Subject
+	annotation.Contents = textString(resolveValue(extractDictValue(annotStr, "/Contents"), pdf))
+	annotation.Title = textString(resolveValue(extractDictValue(annotStr, "/T"), pdf))
+	annotation.Subject = textString(resolveValue(extractDictValue(annotStr, "/Subj"), pdf))
 
 	// Extract Color
 	color := extractArrayValue(annotStr, "/C", pdf)
@@ -156,60 +130,36 @@ func extractAnnotation(annotObjNum int, pdf *parse.PDF, pageNum int, verbose boo
 	// Extract Border
 	borderWidthStr := extractDictValue(annotStr, "/Border")
 	if borderWidthStr != "" {
-		// Border can be [width] or [width dashArray dashPhase]
+		// Border is [horizontalRadius verticalRadius width], maybe with a dash array
 		borderArray := extractArrayValue(annotStr, "/Border", pdf)
-		if len(borderArray) > 0 {
+		if len(borderArray) > 2 {
 			annotation.Border = &types.Border{
-				Width: borderArray[0],
+				Width: borderArray[2],
 			}
-			if len(borderArray) > 2 {
-				annotation.Border.Dash = borderArray[1 : len(borderArray)-1]
+			if len(borderArray) > 3 {
+				annotation.Border.Dash = borderArray[3:]
 			}
 		}
 	}
 
 	// Link-specific: Extract URI or Destination
 	if annotation.Type == types.AnnotationTypeLink {
-		// Check for URI
-		uriRef := extractDictValue(annotStr, "/URI")
-		if uriRef != "" {
-			// URI might be a string or a reference to a URI object
-			if strings.HasPrefix(uriRef, "(") {
-				// It's a string
-				annotation.URI = unescapePDFString(uriRef[1 : len(uriRef)-1])
-			} else {
-				// It's a reference - get the URI object
-				uriObjNum, err := parseObjectRef(uriRef)
-				if err == nil {
-					uriObj, err := pdf.GetObject(uriObjNum)
-					if err == nil {
-						uriStr := string(uriObj)
-						uriValue := extractDictValue(uriStr, "/URI")
-						if uriValue != "" {
-							annotation.URI = unescapePDFString(uriValue[1 : len(uriValue)-1])
-						}
-					}
-				}
-			}
-		}
-
-		// Check for Destination (named destination or array)
-		dest := extractDictValue(annotStr, "/Dest")
-		if dest != "" {
-			annotation.Destination = dest
+		annotation.Destination, annotation.URI = extractTarget(annotStr, pdf)
+		if uri := textString(resolveValue(extractDictValue(annotStr, "/URI"), pdf)); uri != "" {
+			annotation.URI = uri
 		}
 	}
 
 	// Text annotation-specific
 	if annotation.Type == types.AnnotationTypeText {
 		// Extract Open (is annotation open/popup visible)
-		openStr := extractDictValue(annotStr, "/Open")
+		openStr := resolveValue(extractDictValue(annotStr, "/Open"), pdf)
 		if openStr == "true" {
 			annotation.Open = true
 		}
 
 		// Extract Icon
-		icon := extractDictValue(annotStr, "/Name")
+		icon := resolveValue(extractDictValue(annotStr, "/Name"), pdf)
 		if icon != "" {
 			annotation.Icon = icon
 		}
diff --git a/content/extract/bookmarks.go b/content/extract/bookmarks.go
index ade6f82..1da0a2d 100644
--- a/content/extract/bookmarks.go
+++ b/content/extract/bookmarks.go
@@ -23,105 +23,78 @@ func ExtractBookmarks(pdfBytes []byte, pdf *parse.PDF, verbose bool) ([]types.Bo
 		return []types.Bookmark{}, nil
 	}
 
-	// Find Outlines reference in catalog
-	outlinesRef := extractDictValue(string(catalogObj), "/Outlines")
-	if outlinesRef == "" {
-		return []types.Bookmark{}, nil
-	}
-
-	outlinesObjNum, err := parseObjectRef(outlinesRef)
-	if err != nil {
-		return []types.Bookmark{}, nil
-	}
-
-	outlinesObj, err := pdf.GetObject(outlinesObjNum)
-	if err != nil {
+	// Find Outlines in catalog
+	outlines := extractDict(string(catalogObj), "/Outlines", pdf)
+	if outlines == "" {
 		return []types.Bookmark{}, nil
 	}
 
 	// Get First child
-	firstRef := extractDictValue(string(outlinesObj), "/First")
+	firstRef := extractDictValue(outlines, "/First")
 	if firstRef == "" {
 		return []types.Bookmark{}, nil
 	}
 
-	// Extract bookmarks recursively
-	bookmarks, err := extractBookmarksRecursive(pdf, firstRef, verbose)
-	if err != nil {
-		return []types.Bookmark{}, nil
+	// Page numbers by object number, for destinations
+	pageNumbers := make(map[int]int)
+	if pagesObjNum, err := parseObjectRef(extractDictValue(string(catalogObj), "/Pages")); err == nil {
+		pageDicts, _ := collectPages(pdf, pagesObjNum, nil, false)
+		for i, pageDict := range pageDicts {
+			pageNumbers[pageDict.objNum] = i + 1
+		}
 	}
 
-	return bookmarks, nil
+	// Extract bookmarks recursively
+	return extractBookmarksRecursive(pdf, firstRef, pageNumbers, make(map[int]bool)), nil
 }
 
-// extractBookmarksRecursive recursively extracts bookmarks from the outline tree
-func extractBookmarksRecursive(pdf *parse.PDF, itemRef string, verbose bool) ([]types.Bookmark, error) {
-	var bookmarks []types.Bookmark
-
-	itemObjNum, err := parseObjectRef(itemRef)
-	if err != nil {
-		return bookmarks, err
-	}
-
-	itemObj, err := pdf.GetObject(itemObjNum)
-	if err != nil {
-		return bookmarks, err
-	}
-
-	itemStr := string(itemObj)
+// extractBookmarksRecursive recursively extracts an outline item, its siblings after it, and
+// the items below them. Each item is extracted once, also if the tree leads to it again.
+func extractBookmarksRecursive(pdf *parse.PDF, itemRef string, pageNumbers map[int]int, visited map[int]bool) []types.Bookmark {
+	bookmarks := []types.Bookmark{}
+	for itemRef != "" {
+		itemObjNum, err := parseObjectRef(itemRef)
+		if err != nil || visited[itemObjNum] {
+			break
+		}
+		visited[itemObjNum] = true
 
-	// Extract title
-	title := extractDictValue(itemStr, "/Title")
-	if title != "" {
-		title = unescapePDFString(title)
-	}
+		itemObj, err := pdf.GetObject(itemObjNum)
+		if err != nil {
+			break
+		}
+		itemStr := string(itemObj)
 
-	// Extract destination or action
-	dest := extractDictValue(itemStr, "/Dest")
-	uri := ""
-	if dest == "" {
-		// Check for action with URI
-		actionRef := extractDictValue(itemStr, "/A")
-		if actionRef != "" {
-			actionObjNum, err := parseObjectRef(actionRef)
-			if err == nil {
-				actionObj, err := pdf.GetObject(actionObjNum)
-				if err == nil {
-					uri = extractDictValue(string(actionObj), "/URI")
-					if uri != "" {
-						uri = unescapePDFString(uri)
-					}
-				}
+		bookmark := types.Bookmark{
+			Title: textString(resolveValue(extractDictValue(itemStr, "/Title"), pdf)),
+		}
+		bookmark.Destination, bookmark.URI = extractTarget(itemStr, pdf)
+		if refs := parseObjectRefArray(resolveValue(bookmark.Destination, pdf)); len(refs) > 0 {
+			if objNum, err := parseObjectRef(refs[0]); err == nil {
+				bookmark.PageNumber = pageNumbers[objNum]
 			}
 		}
-	}
 
-	bookmark := types.Bookmark{
-		Title:       title,
-		Destination: dest,
-		URI:         uri,
-		Children:    []types.Bookmark{},
-	}
+		// Extract children (First/Next chain)
+		bookmark.Children = extractBookmarksRecursive(pdf, extractDictValue(itemStr, "/First"), pageNumbers, visited)
 
-	// Extract children (First/Next chain)
-	firstRef := extractDictValue(itemStr, "/First")
-	if firstRef != "" {
-		children, err := extractBookmarksRecursive(pdf, firstRef, verbose)
-		if err == nil {
-			bookmark.Children = children
-		}
-	}
+		bookmarks = append(bookmarks, bookmark)
 
-	bookmarks = append(bookmarks, bookmark)
+		// Get next sibling
+		itemRef = extractDictValue(itemStr, "/Next")
+	}
+	return bookmarks
+}
 
-	// Get next sibling
-	nextRef := extractDictValue(itemStr, "/Next")
-	if nextRef != "" {
-		siblings, err := extractBookmarksRecursive(pdf, nextRef, verbose)
-		if err == nil {
-			bookmarks = append(bookmarks, siblings...)
+// extractTarget returns where an outline item or a link leads: its destination, as it is
+// written there, and its URI
+func extractTarget(dictStr string, pdf *parse.PDF) (dest, uri string) {
+	dest = extractDictValue(dictStr, "/Dest")
+	if action := extractDict(dictStr, "/A", pdf); action != "" {
+		uri = textString(resolveValue(extractDictValue(action, "/URI"), pdf))
+		if dest == "" && resolveValue(extractDictValue(action, "/S"), pdf) == "/GoTo" {
+			dest = extractDictValue(action, "/D")
 		}
 	}
-
-	return bookmarks, nil
+	return dest, uri
 }
-- 
2.43.0


From a56216abfba9add728da94d8d9b629712dcaf7fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:03 +0000
Subject: [PATCH 44/99] fix: direct fonts and encodings, composite fonts,
 filters of images; images and fonts in a fixed order, none dropped

---
 content/extract/extract.go   |  52 ++++---
 content/extract/images.go    | 143 +++++------------
 content/extract/resources.go | 290 +++++++++--------------------------
 3 files changed, 144 insertions(+), 341 deletions(-)

diff --git a/content/extract/extract.go b/content/extract/extract.go
index 581cb88..8f8bd4f 100644
--- a/content/extract/extract.go
+++ b/content/extract/extract.go
@@ -6,6 +6,7 @@ package extract
 import (
 	"encoding/json"
 	"fmt"
+	"sort"
 
 	"github.com/benedoc-inc/pdfer/core/parse"
 	"github.com/benedoc-inc/pdfer/types"
@@ -72,38 +73,53 @@ func ExtractContent(pdfBytes []byte, password []byte, verbose bool) (*types.Cont
 	doc.Annotations = allAnnotations
 
 	// Extract images (collect unique images from all pages)
-	imageMap := make(map[string]types.Image)
+	type imageKey struct {
+		id            string
+		width, height int
+	}
+	seenImages := make(map[imageKey]bool)
 	for _, page := range doc.Pages {
-		if page.Resources != nil && page.Resources.Images != nil {
-			for id, img := range page.Resources.Images {
-				if _, exists := imageMap[id]; !exists {
-					imageMap[id] = img
-				}
+		if page.Resources == nil {
+			continue
+		}
+		for _, name := range sortedKeys(page.Resources.Images) {
+			img := page.Resources.Images[name]
+			key := imageKey{img.ID, img.Width, img.Height}
+			if !seenImages[key] {
+				seenImages[key] = true
+				doc.Images = append(doc.Images, img)
 			}
 		}
 	}
-	for _, img := range imageMap {
-		doc.Images = append(doc.Images, img)
-	}
 
 	// Extract fonts (collect unique fonts from all pages)
-	fontMap := make(map[string]types.FontInfo)
+	seenFonts := make(map[types.FontInfo]bool)
 	for _, page := range doc.Pages {
-		if page.Resources != nil && page.Resources.Fonts != nil {
-			for id, font := range page.Resources.Fonts {
-				if _, exists := fontMap[id]; !exists {
-					fontMap[id] = font
-				}
+		if page.Resources == nil {
+			continue
+		}
+		for _, name := range sortedKeys(page.Resources.Fonts) {
+			font := page.Resources.Fonts[name]
+			if !seenFonts[font] {
+				seenFonts[font] = true
+				doc.Fonts = append(doc.Fonts, font)
 			}
 		}
 	}
-	for _, font := range fontMap {
-		doc.Fonts = append(doc.Fonts, font)
-	}
 
 	return doc, nil
 }
 
+// sortedKeys returns the keys of a map in order
+func sortedKeys[V any](m map[string]V) []string {
+	keys := make([]string, 0, len(m))
+	for key := range m {
+		keys = append(keys, key)
+	}
+	sort.Strings(keys)
+	return keys
+}
+
 // ExtractContentToJSON extracts content and returns as JSON string
 func ExtractContentToJSON(pdfBytes []byte, password []byte, verbose bool) (string, error) {
 	doc, err := ExtractContent(pdfBytes, password, verbose)
diff --git a/content/extract/images.go b/content/extract/images.go
index 5f69e18..8e8829c 100644
--- a/content/extract/images.go
+++ b/content/extract/images.go
@@ -1,10 +1,8 @@
 package extract
 
 import (
-	"bytes"
 	"encoding/base64"
 	"fmt"
-	"regexp"
 	"strconv"
 	"strings"
 
@@ -19,16 +17,15 @@ func extractImageData(imageObjNum int, pdf *parse.PDF, verbose bool) (*types.Ima
 		return nil, fmt.Errorf("failed to get image object %d: %w", imageObjNum, err)
 	}
 
-	imageObjBytes := imageObj
-	imageStr := string(imageObjBytes)
+	imageStr := string(imageObj)
 	image := &types.Image{
 		ID:       fmt.Sprintf("/Im%d", imageObjNum),
 		Metadata: make(map[string]interface{}),
 	}
 
 	// Extract Width and Height
-	widthStr := extractDictValue(imageStr, "/Width")
-	heightStr := extractDictValue(imageStr, "/Height")
+	widthStr := resolveValue(extractDictValue(imageStr, "/Width"), pdf)
+	heightStr := resolveValue(extractDictValue(imageStr, "/Height"), pdf)
 	if widthStr != "" {
 		if w, err := strconv.Atoi(widthStr); err == nil {
 			image.Width = w
@@ -41,13 +38,13 @@ func extractImageData(imageObjNum int, pdf *parse.PDF, verbose bool) (*types.Ima
 	}
 
 	// Extract ColorSpace
-	colorSpace := extractDictValue(imageStr, "/ColorSpace")
+	colorSpace := resolveValue(extractDictValue(imageStr, "/ColorSpace"), pdf)
 	if colorSpace != "" {
 		image.ColorSpace = colorSpace
 	}
 
 	// Extract BitsPerComponent
-	bitsPerCompStr := extractDictValue(imageStr, "/BitsPerComponent")
+	bitsPerCompStr := resolveValue(extractDictValue(imageStr, "/BitsPerComponent"), pdf)
 	if bitsPerCompStr != "" {
 		if b, err := strconv.Atoi(bitsPerCompStr); err == nil {
 			image.BitsPerComponent = b
@@ -55,7 +52,7 @@ func extractImageData(imageObjNum int, pdf *parse.PDF, verbose bool) (*types.Ima
 	}
 
 	// Extract Filter to determine format and decompression method
-	filter := extractDictValue(imageStr, "/Filter")
+	filter := resolveValue(extractDictValue(imageStr, "/Filter"), pdf)
 	if filter != "" {
 		image.Filter = filter
 		// Determine format from filter
@@ -73,64 +70,24 @@ func extractImageData(imageObjNum int, pdf *parse.PDF, verbose bool) (*types.Ima
 	}
 
 	// Extract stream data - handle binary data properly
-	streamIdx := bytes.Index(imageObjBytes, []byte("stream"))
-	if streamIdx != -1 {
-		// Get /Length from dictionary for exact stream size
-		dictPart := imageObjBytes[:streamIdx]
-		lengthPattern := regexp.MustCompile(`/Length\s+(\d+)`)
-		lengthMatch := lengthPattern.FindSubmatch(dictPart)
-
-		var streamLength int
-		if lengthMatch != nil {
-			streamLength, _ = strconv.Atoi(string(lengthMatch[1]))
-		}
-
-		// Find actual stream data (after "stream\r\n" or "stream\n")
-		streamDataStart := streamIdx + 6 // len("stream")
-		// Skip exactly one EOL per PDF spec
-		if streamDataStart < len(imageObjBytes) && imageObjBytes[streamDataStart] == '\r' {
-			streamDataStart++
-		}
-		if streamDataStart < len(imageObjBytes) && imageObjBytes[streamDataStart] == '\n' {
-			streamDataStart++
-		}
-
-		// Use /Length if available, otherwise find endstream
-		var streamData []byte
-		if streamLength > 0 && streamDataStart+streamLength <= len(imageObjBytes) {
-			streamData = imageObjBytes[streamDataStart : streamDataStart+streamLength]
-		} else {
-			endstreamIdx := bytes.Index(imageObjBytes[streamDataStart:], []byte("endstream"))
-			if endstreamIdx != -1 {
-				streamData = imageObjBytes[streamDataStart : streamDataStart+endstreamIdx]
-			}
-		}
-
+	if _, streamData, ok := parse.SplitStream(parse.ObjectContent(imageObj)); ok {
 		if len(streamData) > 0 {
-			// Decompress if needed
-			if filter != "" {
-				if strings.Contains(filter, "FlateDecode") {
-					// Decompress FlateDecode
-					decompressed, err := parse.DecodeFlateDecode(streamData)
-					if err == nil {
-						image.Data = decompressed
-					} else {
-						if verbose {
-							fmt.Printf("Warning: failed to decompress FlateDecode image: %v\n", err)
-						}
-						image.Data = streamData
+			// Decompress if needed. The data of filters for images (JPEG, for example) is
+			// returned as it is.
+			for _, name := range parse.Tokens([]byte(filter)) {
+				if !strings.HasPrefix(name, "/") || name == "/DCTDecode" {
+					continue
+				}
+				decoded, err := parse.DecodeFilter(streamData, name)
+				if err != nil {
+					if verbose {
+						fmt.Printf("Warning: failed to decode image: %v\n", err)
 					}
-				} else if strings.Contains(filter, "DCTDecode") {
-					// DCTDecode (JPEG) - data is already JPEG, no decompression needed
-					image.Data = streamData
-				} else {
-					// Other filters - use raw data
-					image.Data = streamData
+					break
 				}
-			} else {
-				// No filter - use raw data
-				image.Data = streamData
+				streamData = decoded
 			}
+			image.Data = streamData
 
 			// Set base64 encoded version for JSON serialization
 			if len(image.Data) > 0 {
@@ -160,8 +117,8 @@ func ExtractAllImages(pdfBytes []byte, password []byte, verbose bool) ([]types.I
 	}
 
 	allImages := make([]types.Image, 0)
-	imageMap := make(map[string]bool)      // Track unique images by ID
-	imageObjNumMap := make(map[string]int) // Map image name to object number
+	imageMap := make(map[string]bool) // Names of the images that were found
+	extracted := make(map[int]bool)   // Object numbers of the images that were extracted
 
 	// Collect image object numbers by re-parsing Resources from pages
 	// We need to get the actual page object numbers to extract Resources
@@ -197,46 +154,26 @@ func ExtractAllImages(pdfBytes []byte, password []byte, verbose bool) ([]types.I
 		return []types.Image{}, fmt.Errorf("failed to get pages: %w", err)
 	}
 
-	// For each page, extract Resources and get image object numbers
-	for i, pageDict := range pageDicts {
-		if i >= len(doc.Pages) {
-			break
-		}
+	// For each page, extract the images of its Resources
+	for _, pageDict := range pageDicts {
+		resourcesStr := extractDict(pageDict.dict, "/Resources", pdf)
+		xobjects, objNums := extractXObjectsDictWithObjNums(resourcesStr, pdf, verbose)
 
-		pageStr := pageDict.dict
-		// Extract Resources
-		resourcesStr := extractDict(pageStr, "/Resources", pdf)
-
-		if resourcesStr != "" {
-			// Extract XObject object numbers
-			_, objNums := extractXObjectsDictWithObjNums(resourcesStr, pdf, verbose)
-			for name, objNum := range objNums {
-				imageID := "/" + name
-				if !imageMap[imageID] {
-					imageObjNumMap[name] = objNum
-					imageMap[imageID] = true
-				}
+		for _, name := range sortedKeys(objNums) {
+			objNum := objNums[name]
+			if xobjects[name].Subtype != "/Image" || extracted[objNum] {
+				continue
 			}
-		}
-	}
-
-	// Extract full image data with binary for each unique image
-	for name, objNum := range imageObjNumMap {
-		image, err := extractImageData(objNum, pdf, verbose)
-		if err != nil {
-			if verbose {
-				fmt.Printf("Warning: failed to extract image data for %s (obj %d): %v\n", name, objNum, err)
-			}
-			// Fall back to metadata-only image from Resources
-			for _, page := range doc.Pages {
-				if page.Resources != nil {
-					if img, ok := page.Resources.Images[name]; ok {
-						allImages = append(allImages, img)
-						break
-					}
+			image, err := extractImageData(objNum, pdf, verbose)
+			if err != nil {
+				if verbose {
+					fmt.Printf("Warning: failed to extract image data for %s (obj %d): %v\n", name, objNum, err)
 				}
+				continue
 			}
-		} else {
+			image.ID = "/" + name
+			imageMap[image.ID] = true
+			extracted[objNum] = true
 			allImages = append(allImages, *image)
 		}
 	}
@@ -244,10 +181,10 @@ func ExtractAllImages(pdfBytes []byte, password []byte, verbose bool) ([]types.I
 	// Also add any images we found but couldn't get object numbers for (metadata only)
 	for _, page := range doc.Pages {
 		if page.Resources != nil {
-			for name, image := range page.Resources.Images {
+			for _, name := range sortedKeys(page.Resources.Images) {
 				imageID := "/" + name
 				if !imageMap[imageID] {
-					allImages = append(allImages, image)
+					allImages = append(allImages, page.Resources.Images[name])
 					imageMap[imageID] = true
 				}
 			}
diff --git a/content/extract/resources.go b/content/extract/resources.go
index 7aaf4a7..95fe040 100644
--- a/content/extract/resources.go
+++ b/content/extract/resources.go
@@ -2,7 +2,6 @@ package extract
 
 import (
 	"fmt"
-	"regexp"
 	"strconv"
 	"strings"
 
@@ -10,9 +9,6 @@ import (
 	"github.com/benedoc-inc/pdfer/types"
 )
 
-// resourceEntry matches an entry of a resource dictionary, such as "/F1 5 0 R"
-var resourceEntry = regexp.MustCompile(`/([^\s/<>\[\](){}%]+)\s+(\d+)\s+\d+\s+R`)
-
 // extractResources extracts resources from a Resources dictionary
 func extractResources(resourcesStr string, pdf *parse.PDF, verbose bool) *types.PageResources {
 	resources := &types.PageResources{
@@ -73,18 +69,16 @@ func extractFontsDict(resourcesStr string, pdf *parse.PDF, verbose bool) map[str
 	}
 
 	// Parse font entries: /F1 5 0 R /F2 6 0 R ...
-	fontEntryPattern := resourceEntry
-	fontEntries := fontEntryPattern.FindAllStringSubmatch(fontDictStr, -1)
+	fontEntries := dictEntries(fontDictStr)
 
 	if verbose {
 		fmt.Printf("Found %d font entries\n", len(fontEntries))
 	}
 
 	for _, entry := range fontEntries {
-		fontName := entry[1]
-		fontObjNum, _ := parseObjectRef(entry[2] + " 0 R")
+		fontName := entry.key
 
-		fontInfo := extractFontInfo(fontObjNum, pdf, verbose)
+		fontInfo := extractFontInfo(resolveValue(entry.value, pdf), pdf)
 		if fontInfo != nil {
 			fontInfo.ID = "/" + fontName
 			fonts[fontName] = *fontInfo
@@ -94,27 +88,17 @@ func extractFontsDict(resourcesStr string, pdf *parse.PDF, verbose bool) map[str
 	return fonts
 }
 
-// extractFontInfo extracts information from a font dictionary object
-func extractFontInfo(fontObjNum int, pdf *parse.PDF, verbose bool) *types.FontInfo {
-	fontObj, err := pdf.GetObject(fontObjNum)
-	if err != nil {
-		if verbose {
-			fmt.Printf("Warning: failed to get font object %d: %v\n", fontObjNum, err)
-		}
+// extractFontInfo extracts information from a font dictionary
+func extractFontInfo(fontStr string, pdf *parse.PDF) *types.FontInfo {
+	if !strings.HasPrefix(fontStr, "<<") {
 		return nil
 	}
-
-	fontStr := string(fontObj)
 	fontInfo := &types.FontInfo{
 		Embedded: false,
 	}
 
 	// Extract Subtype (Type1, TrueType, Type0, etc.)
-	// Try both /Subtype and Subtype (with and without leading /)
-	subtype := extractDictValue(fontStr, "/Subtype")
-	if subtype == "" {
-		subtype = extractDictValue(fontStr, "Subtype")
-	}
+	subtype := resolveValue(extractDictValue(fontStr, "/Subtype"), pdf)
 	if subtype != "" {
 		fontInfo.Subtype = subtype
 		// Ensure it starts with /
@@ -126,10 +110,7 @@ func extractFontInfo(fontObjNum int, pdf *parse.PDF, verbose bool) *types.FontIn
 	}
 
 	// Extract BaseFont
-	baseFont := extractDictValue(fontStr, "/BaseFont")
-	if baseFont == "" {
-		baseFont = extractDictValue(fontStr, "BaseFont")
-	}
+	baseFont := resolveValue(extractDictValue(fontStr, "/BaseFont"), pdf)
 	if baseFont != "" {
 		fontInfo.Name = baseFont
 		// Remove leading / if present for family extraction
@@ -147,35 +128,26 @@ func extractFontInfo(fontObjNum int, pdf *parse.PDF, verbose bool) *types.FontIn
 		fontInfo.Encoding = encoding
 	}
 
-	// Check if font is embedded (has FontDescriptor with FontFile, FontFile2, or FontFile3)
-	if strings.Contains(fontStr, "/FontFile") || strings.Contains(fontStr, "/FontFile2") || strings.Contains(fontStr, "/FontFile3") {
-		fontInfo.Embedded = true
-	}
-
 	// Check for ToUnicode CMap
-	if strings.Contains(fontStr, "/ToUnicode") {
+	if extractDictValue(fontStr, "/ToUnicode") != "" {
 		fontInfo.ToUnicode = true
 	}
 
-	// Extract FontDescriptor for more info
-	fontDescriptorRef := extractDictValue(fontStr, "/FontDescriptor")
-	if fontDescriptorRef != "" {
-		descObjNum, err := parseObjectRef(fontDescriptorRef)
-		if err == nil {
-			descObj, err := pdf.GetObject(descObjNum)
-			if err == nil {
-				descStr := string(descObj)
-				// Check for embedded font files in descriptor
-				if strings.Contains(descStr, "/FontFile") || strings.Contains(descStr, "/FontFile2") || strings.Contains(descStr, "/FontFile3") {
-					fontInfo.Embedded = true
-				}
-				// Extract font family name if available
-				fontFamily := extractDictValue(descStr, "/FontFamily")
-				if fontFamily != "" {
-					fontInfo.Family = fontFamily
-				}
+	// Extract FontDescriptor for more info - composite fonts have it in their descendant
+	if descendants := parseObjectRefArray(extractArray(fontStr, "/DescendantFonts", pdf)); len(descendants) > 0 {
+		fontStr = resolveValue(descendants[0], pdf)
+	}
+	if descStr := extractDict(fontStr, "/FontDescriptor", pdf); descStr != "" {
+		// Check if font is embedded (has FontFile, FontFile2, or FontFile3)
+		for _, key := range []string{"/FontFile", "/FontFile2", "/FontFile3"} {
+			if extractDictValue(descStr, key) != "" {
+				fontInfo.Embedded = true
 			}
 		}
+		// Extract font family name if available
+		if fontFamily := textString(resolveValue(extractDictValue(descStr, "/FontFamily"), pdf)); fontFamily != "" {
+			fontInfo.Family = fontFamily
+		}
 	}
 
 	return fontInfo
@@ -183,29 +155,7 @@ func extractFontInfo(fontObjNum int, pdf *parse.PDF, verbose bool) *types.FontIn
 
 // extractXObjectsDict extracts XObject information from /Resources/XObject dictionary
 func extractXObjectsDict(resourcesStr string, pdf *parse.PDF, verbose bool) map[string]types.XObject {
-	xobjects := make(map[string]types.XObject)
-
-	// Find /XObject dictionary
-	xobjDictStr := extractDict(resourcesStr, "/XObject", pdf)
-	if xobjDictStr == "" {
-		return xobjects
-	}
-
-	// Parse XObject entries: /Im1 5 0 R /Im2 6 0 R ...
-	xobjEntryPattern := resourceEntry
-	xobjEntries := xobjEntryPattern.FindAllStringSubmatch(xobjDictStr, -1)
-
-	for _, entry := range xobjEntries {
-		xobjName := entry[1]
-		xobjObjNum, _ := parseObjectRef(entry[2] + " 0 R")
-
-		xobj := extractXObjectInfo(xobjObjNum, pdf, verbose)
-		if xobj != nil {
-			xobj.ID = "/" + xobjName
-			xobjects[xobjName] = *xobj
-		}
-	}
-
+	xobjects, _ := extractXObjectsDictWithObjNums(resourcesStr, pdf, verbose)
 	return xobjects
 }
 
@@ -221,12 +171,12 @@ func extractXObjectsDictWithObjNums(resourcesStr string, pdf *parse.PDF, verbose
 	}
 
 	// Parse XObject entries: /Im1 5 0 R /Im2 6 0 R ...
-	xobjEntryPattern := resourceEntry
-	xobjEntries := xobjEntryPattern.FindAllStringSubmatch(xobjDictStr, -1)
-
-	for _, entry := range xobjEntries {
-		xobjName := entry[1]
-		xobjObjNum, _ := parseObjectRef(entry[2] + " 0 R")
+	for _, entry := range dictEntries(xobjDictStr) {
+		xobjName := entry.key
+		xobjObjNum, err := parseObjectRef(entry.value)
+		if err != nil {
+			continue
+		}
 		objNums[xobjName] = xobjObjNum
 
 		xobj := extractXObjectInfo(xobjObjNum, pdf, verbose)
@@ -255,7 +205,7 @@ func extractXObjectInfo(xobjObjNum int, pdf *parse.PDF, verbose bool) *types.XOb
 	}
 
 	// Extract Subtype
-	subtype := extractDictValue(xobjStr, "/Subtype")
+	subtype := resolveValue(extractDictValue(xobjStr, "/Subtype"), pdf)
 	if subtype == "" {
 		return nil
 	}
@@ -264,8 +214,8 @@ func extractXObjectInfo(xobjObjNum int, pdf *parse.PDF, verbose bool) *types.XOb
 	// For Image XObjects, extract dimensions
 	if subtype == "/Image" {
 		// Extract Width and Height
-		widthStr := extractDictValue(xobjStr, "/Width")
-		heightStr := extractDictValue(xobjStr, "/Height")
+		widthStr := resolveValue(extractDictValue(xobjStr, "/Width"), pdf)
+		heightStr := resolveValue(extractDictValue(xobjStr, "/Height"), pdf)
 		if widthStr != "" {
 			if w, err := strconv.ParseFloat(widthStr, 64); err == nil {
 				xobject.Width = w
@@ -305,14 +255,10 @@ func extractFontDecoders(resourcesStr string, pdf *parse.PDF, verbose bool) map[
 	}
 
 	// Parse font entries: /F1 5 0 R /F2 6 0 R ...
-	fontEntryPattern := resourceEntry
-	fontEntries := fontEntryPattern.FindAllStringSubmatch(fontDictStr, -1)
+	for _, entry := range dictEntries(fontDictStr) {
+		fontName := entry.key
 
-	for _, entry := range fontEntries {
-		fontName := entry[1]
-		fontObjNum, _ := parseObjectRef(entry[2] + " 0 R")
-
-		decoder := extractFontDecoder(fontObjNum, fontName, pdf, verbose)
+		decoder := extractFontDecoder(resolveValue(entry.value, pdf), fontName, pdf, verbose)
 		if decoder != nil {
 			decoders["/"+fontName] = decoder
 		}
@@ -321,51 +267,30 @@ func extractFontDecoders(resourcesStr string, pdf *parse.PDF, verbose bool) map[
 	return decoders
 }
 
-// extractFontDecoder creates a FontDecoder for a font object
-func extractFontDecoder(fontObjNum int, fontName string, pdf *parse.PDF, verbose bool) *FontDecoder {
-	fontObj, err := pdf.GetObject(fontObjNum)
-	if err != nil {
-		if verbose {
-			fmt.Printf("Warning: failed to get font object %d: %v\n", fontObjNum, err)
-		}
+// extractFontDecoder creates a FontDecoder for a font dictionary
+func extractFontDecoder(fontStr string, fontName string, pdf *parse.PDF, verbose bool) *FontDecoder {
+	if !strings.HasPrefix(fontStr, "<<") {
 		return nil
 	}
-
-	fontStr := string(fontObj)
 	decoder := NewFontDecoder(fontName)
 
 	// Extract and set base encoding
-	encoding := extractDictValue(fontStr, "/Encoding")
-	if encoding != "" {
-		// Check if encoding is a name (e.g., /WinAnsiEncoding) or a reference
-		if strings.HasPrefix(encoding, "/") {
-			decoder.SetBaseEncoding(encoding)
-		} else {
-			// Encoding might be a reference to an encoding dictionary
-			encodingObjNum, err := parseObjectRef(encoding)
-			if err == nil {
-				encodingObj, err := pdf.GetObject(encodingObjNum)
-				if err == nil {
-					encodingStr := string(encodingObj)
-
-					// Extract BaseEncoding from encoding dictionary
-					baseEnc := extractDictValue(encodingStr, "/BaseEncoding")
-					if baseEnc != "" {
-						decoder.SetBaseEncoding(baseEnc)
-					}
-
-					// Extract Differences array
-					diffsStr := extractDifferencesArray(encodingStr)
-					if diffsStr != "" {
-						decoder.ParseDifferencesArray(diffsStr)
-					}
-				}
-			}
+	subtype := resolveValue(extractDictValue(fontStr, "/Subtype"), pdf)
+	encoding := resolveValue(extractDictValue(fontStr, "/Encoding"), pdf)
+	if strings.HasPrefix(encoding, "/") {
+		// A name (e.g., /WinAnsiEncoding)
+		decoder.SetBaseEncoding(encoding)
+	} else if encoding != "" {
+		// An encoding dictionary: BaseEncoding and Differences array
+		baseEnc := resolveValue(extractDictValue(encoding, "/BaseEncoding"), pdf)
+		if baseEnc == "" {
+			baseEnc = "StandardEncoding"
 		}
+		decoder.SetBaseEncoding(baseEnc)
+		decoder.ParseDifferencesArray(extractArray(encoding, "/Differences", pdf))
 	} else {
 		// Check for implicit encoding based on font type
-		subtype := extractDictValue(fontStr, "/Subtype")
-		baseFont := extractDictValue(fontStr, "/BaseFont")
+		baseFont := resolveValue(extractDictValue(fontStr, "/BaseFont"), pdf)
 
 		// Standard 14 fonts use StandardEncoding by default
 		if isStandard14Font(baseFont) {
@@ -376,12 +301,6 @@ func extractFontDecoder(fontObjNum int, fontName string, pdf *parse.PDF, verbose
 		}
 	}
 
-	// Handle Differences array in inline encoding
-	diffsStr := extractDifferencesArray(fontStr)
-	if diffsStr != "" {
-		decoder.ParseDifferencesArray(diffsStr)
-	}
-
 	// Extract ToUnicode CMap (highest priority for text decoding)
 	toUnicodeRef := extractDictValue(fontStr, "/ToUnicode")
 	if toUnicodeRef != "" {
@@ -397,65 +316,18 @@ func extractFontDecoder(fontObjNum int, fontName string, pdf *parse.PDF, verbose
 		}
 	}
 
-	// For Type0 (CID) fonts, extract the descendant font's encoding
-	subtype := extractDictValue(fontStr, "/Subtype")
+	// Codes of Type0 (CID) fonts have two bytes with the usual encodings, and those of other
+	// fonts have one
+	if subtype != "" {
+		decoder.codeBytes = 1
+	}
 	if subtype == "/Type0" {
-		descendantFontsRef := extractDictValue(fontStr, "/DescendantFonts")
-		if descendantFontsRef != "" {
-			// Parse array of references
-			refs := parseObjectRefArray(descendantFontsRef)
-			if len(refs) > 0 {
-				descFontObjNum, err := parseObjectRef(refs[0])
-				if err == nil {
-					descFontObj, err := pdf.GetObject(descFontObjNum)
-					if err == nil {
-						// Check for CIDToGIDMap, which might give us Unicode mappings
-						descFontStr := string(descFontObj)
-						if verbose {
-							fmt.Printf("Type0 descendant font: %s\n", descFontStr[:min(200, len(descFontStr))])
-						}
-					}
-				}
-			}
-		}
+		decoder.codeBytes = 2
 	}
 
 	return decoder
 }
 
-// extractDifferencesArray extracts the Differences array from an encoding dictionary or font
-func extractDifferencesArray(str string) string {
-	// Find /Differences array
-	diffIdx := strings.Index(str, "/Differences")
-	if diffIdx == -1 {
-		return ""
-	}
-
-	// Find the opening bracket
-	bracketStart := strings.Index(str[diffIdx:], "[")
-	if bracketStart == -1 {
-		return ""
-	}
-	bracketStart += diffIdx
-
-	// Find matching closing bracket
-	depth := 1
-	bracketEnd := bracketStart + 1
-	for bracketEnd < len(str) && depth > 0 {
-		if str[bracketEnd] == '[' {
-			depth++
-		} else if str[bracketEnd] == ']' {
-			depth--
-		}
-		bracketEnd++
-	}
-
-	if depth == 0 {
-		return str[bracketStart:bracketEnd]
-	}
-	return ""
-}
-
 // extractStreamData extracts and decompresses stream data from a stream object
 func extractStreamData(objNum int, pdf *parse.PDF, verbose bool) string {
 	obj, err := pdf.GetObject(objNum)
@@ -466,46 +338,24 @@ func extractStreamData(objNum int, pdf *parse.PDF, verbose bool) string {
 		return ""
 	}
 
-	objStr := string(obj)
-
-	// Check if this is a stream object
-	streamIdx := strings.Index(objStr, "stream")
-	if streamIdx == -1 {
+	dict, data, ok := parse.SplitStream(parse.ObjectContent(obj))
+	if !ok {
 		return ""
 	}
-
-	// Check for FlateDecode filter
-	isCompressed := strings.Contains(objStr, "/FlateDecode")
-
-	// Extract stream data
-	dataStart := streamIdx + 6 // Skip "stream"
-	// Skip EOL after "stream"
-	if dataStart < len(objStr) && (objStr[dataStart] == '\r' || objStr[dataStart] == '\n') {
-		dataStart++
-	}
-	if dataStart < len(objStr) && objStr[dataStart] == '\n' {
-		dataStart++
-	}
-
-	endstreamIdx := strings.Index(objStr[dataStart:], "endstream")
-	if endstreamIdx == -1 {
-		return ""
-	}
-
-	streamData := []byte(objStr[dataStart : dataStart+endstreamIdx])
-
-	// Decompress if needed
-	if isCompressed {
-		decompressed, err := parse.DecodeFlateDecode(streamData)
-		if err == nil {
-			return string(decompressed)
+	for _, filter := range parse.Tokens([]byte(extractArray(string(dict), "/Filter", pdf))) {
+		if !strings.HasPrefix(filter, "/") {
+			continue
 		}
-		if verbose {
-			fmt.Printf("Warning: failed to decompress stream %d: %v\n", objNum, err)
+		decoded, err := parse.DecodeFilter(data, filter)
+		if err != nil {
+			if verbose {
+				fmt.Printf("Warning: failed to decode stream %d: %v\n", objNum, err)
+			}
+			return string(data)
 		}
+		data = decoded
 	}
-
-	return string(streamData)
+	return string(data)
 }
 
 // isStandard14Font checks if a font is one of the standard 14 PDF fonts
-- 
2.43.0


From 5ec666d0aaebf9606956747ab9be22eefd41f924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:58 +0000
Subject: [PATCH 45/99] fix: text strings with any characters; outline items
 without a parent; custom metadata keys

---
 content/extract/metadata.go | 18 ++++++++++++++-
 core/write/bookmarks.go     | 10 +++++---
 core/write/content.go       |  6 ++---
 core/write/metadata.go      | 46 ++++++++++++++++++++++++++++---------
 4 files changed, 62 insertions(+), 18 deletions(-)

diff --git a/content/extract/metadata.go b/content/extract/metadata.go
index 91d911e..61fe3d3 100644
--- a/content/extract/metadata.go
+++ b/content/extract/metadata.go
@@ -90,7 +90,7 @@ func parseInfoDict(infoStr string, pdf *parse.PDF, metadata *types.DocumentMetad
 		if field, ok := fields[entry.key]; ok {
 			*field = textString(value)
 		} else {
-			metadata.Custom[entry.key] = textString(value)
+			metadata.Custom[unescapeName(entry.key)] = textString(value)
 		}
 	}
 }
@@ -101,6 +101,22 @@ func extractMetadataFromBytes(pdfBytes []byte, metadata *types.DocumentMetadata,
 	// In practice, Info dict parsing should work
 }
 
+// unescapeName returns a name with the characters that are written as # and two hex digits
+func unescapeName(name string) string {
+	var result strings.Builder
+	for i := 0; i < len(name); i++ {
+		if name[i] == '#' && i+2 < len(name) {
+			if b, err := hex.DecodeString(name[i+1 : i+3]); err == nil {
+				result.WriteByte(b[0])
+				i += 2
+				continue
+			}
+		}
+		result.WriteByte(name[i])
+	}
+	return result.String()
+}
+
 // isString reports whether a token is a literal or hex string
 func isString(token string) bool {
 	return token[0] == '(' || token[0] == '<' && token != "<<"
diff --git a/core/write/bookmarks.go b/core/write/bookmarks.go
index f6a076f..5fdcb80 100644
--- a/core/write/bookmarks.go
+++ b/core/write/bookmarks.go
@@ -16,8 +16,12 @@ func (w *PDFWriter) SetBookmarks(bookmarks []types.Bookmark, pageObjNums map[int
 		return 0, nil // No bookmarks
 	}
 
+	// Reserve the object number of the Outlines dictionary, which is the parent of the items
+	outlinesObjNum := w.nextObjNum
+	w.nextObjNum++
+
 	// Create outline items recursively
-	firstItemNum, lastItemNum, count, err := w.createOutlineItems(bookmarks, pageObjNums, 0)
+	firstItemNum, lastItemNum, count, err := w.createOutlineItems(bookmarks, pageObjNums, outlinesObjNum)
 	if err != nil {
 		return 0, fmt.Errorf("failed to create outline items: %w", err)
 	}
@@ -30,7 +34,7 @@ func (w *PDFWriter) SetBookmarks(bookmarks []types.Bookmark, pageObjNums map[int
 		"/Count": count,
 	}
 
-	outlinesObjNum := w.AddObject(w.formatDictionary(outlinesDict))
+	w.SetObject(outlinesObjNum, w.formatDictionary(outlinesDict))
 
 	// Store outlines reference for catalog update
 	w.outlinesRef = fmt.Sprintf("%d 0 R", outlinesObjNum)
@@ -97,7 +101,7 @@ func (w *PDFWriter) createOutlineItems(bookmarks []types.Bookmark, pageObjNums m
 
 		// Build outline item dictionary
 		itemDict := Dictionary{
-			"/Title": rawValue(fmt.Sprintf("(%s)", escapePDFString(bookmark.Title))),
+			"/Title": rawValue(fmt.Sprintf("(%s)", escapePDFStringForMetadata(bookmark.Title))),
 		}
 
 		if dest != "" {
diff --git a/core/write/content.go b/core/write/content.go
index 7c7d829..cb59b7a 100644
--- a/core/write/content.go
+++ b/core/write/content.go
@@ -324,8 +324,8 @@ func (cs *ContentStream) Raw(data string) *ContentStream {
 // escapePDFString escapes special characters in a PDF string
 func escapePDFString(s string) string {
 	var result bytes.Buffer
-	for _, c := range s {
-		switch c {
+	for i := 0; i < len(s); i++ {
+		switch c := s[i]; c {
 		case '(':
 			result.WriteString("\\(")
 		case ')':
@@ -339,7 +339,7 @@ func escapePDFString(s string) string {
 		case '\t':
 			result.WriteString("\\t")
 		default:
-			result.WriteRune(c)
+			result.WriteByte(c)
 		}
 	}
 	return result.String()
diff --git a/core/write/metadata.go b/core/write/metadata.go
index a3a8d3d..a9e83bd 100644
--- a/core/write/metadata.go
+++ b/core/write/metadata.go
@@ -4,6 +4,8 @@ import (
 	"fmt"
 	"strings"
 	"time"
+	"unicode/utf16"
+	"unicode/utf8"
 
 	"github.com/benedoc-inc/pdfer/types"
 )
@@ -52,9 +54,7 @@ func (w *PDFWriter) SetMetadata(metadata *types.DocumentMetadata) int {
 	for key, value := range metadata.Custom {
 		if key != "" && value != "" {
 			// Ensure key starts with /
-			if !strings.HasPrefix(key, "/") {
-				key = "/" + key
-			}
+			key = "/" + escapePDFName(strings.TrimPrefix(key, "/"))
 			dict[key] = rawValue("(" + escapePDFStringForMetadata(value) + ")")
 		}
 	}
@@ -102,14 +102,38 @@ func (w *PDFWriter) SetMetadataFields(fields map[string]string) int {
 
 // escapePDFStringForMetadata escapes a string for use in PDF metadata (returns content without parentheses)
 func escapePDFStringForMetadata(s string) string {
-	// PDF strings use parentheses and need escaping
-	s = strings.ReplaceAll(s, "\\", "\\\\")
-	s = strings.ReplaceAll(s, "(", "\\(")
-	s = strings.ReplaceAll(s, ")", "\\)")
-	s = strings.ReplaceAll(s, "\r", "\\r")
-	s = strings.ReplaceAll(s, "\n", "\\n")
-	s = strings.ReplaceAll(s, "\t", "\\t")
-	return s
+	if isASCII(s) || !utf8.ValidString(s) {
+		return escapePDFString(s)
+	}
+	// Text with other characters is UTF-16BE, with a byte order mark
+	encoded := []byte{0xFE, 0xFF}
+	for _, unit := range utf16.Encode([]rune(s)) {
+		encoded = append(encoded, byte(unit>>8), byte(unit))
+	}
+	return escapePDFString(string(encoded))
+}
+
+// isASCII reports whether s has ASCII characters only
+func isASCII(s string) bool {
+	for i := 0; i < len(s); i++ {
+		if s[i] >= utf8.RuneSelf {
+			return false
+		}
+	}
+	return true
+}
+
+// escapePDFName escapes the characters that a name cannot have as they are
+func escapePDFName(name string) string {
+	var result strings.Builder
+	for i := 0; i < len(name); i++ {
+		if c := name[i]; c <= ' ' || c > '~' || strings.IndexByte("()<>[]{}/%#", c) != -1 {
+			fmt.Fprintf(&result, "#%02X", c)
+		} else {
+			result.WriteByte(c)
+		}
+	}
+	return result.String()
 }
 
 // formatPDFDate formats a date string for PDF
-- 
2.43.0


From dff92cdbf2f7d352da5c51179417fa23f294abb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:26 +0000
Subject: [PATCH 46/99] fix: images and fonts with the same name, transparent
 images, page sizes, quotes, watermark defaults

---
 core/write/image.go     | 12 ++++++----
 core/write/page.go      | 22 +++++++++++++++---
 core/write/watermark.go | 50 +++++++++++++++++++++++++----------------
 3 files changed, 58 insertions(+), 26 deletions(-)

diff --git a/core/write/image.go b/core/write/image.go
index 10eefa4..f8f758e 100644
--- a/core/write/image.go
+++ b/core/write/image.go
@@ -90,6 +90,9 @@ func (w *PDFWriter) AddImage(imgData []byte, name string) (*ImageInfo, error) {
 	switch img.(type) {
 	case *image.NRGBA, *image.RGBA:
 		hasAlpha = true
+	default:
+		opaque, ok := img.(interface{ Opaque() bool })
+		hasAlpha = ok && !opaque.Opaque()
 	}
 
 	// Convert to RGB or Gray
@@ -108,11 +111,12 @@ func (w *PDFWriter) AddImage(imgData []byte, name string) (*ImageInfo, error) {
 		rawData = make([]byte, width*height*3)
 		for y := 0; y < height; y++ {
 			for x := 0; x < width; x++ {
-				r, g, b, _ := img.At(x+bounds.Min.X, y+bounds.Min.Y).RGBA()
+				// The colors are not multiplied by the alpha channel, which becomes the soft mask
+				c := color.NRGBAModel.Convert(img.At(x+bounds.Min.X, y+bounds.Min.Y)).(color.NRGBA)
 				idx := (y*width + x) * 3
-				rawData[idx] = uint8(r >> 8)
-				rawData[idx+1] = uint8(g >> 8)
-				rawData[idx+2] = uint8(b >> 8)
+				rawData[idx] = c.R
+				rawData[idx+1] = c.G
+				rawData[idx+2] = c.B
 			}
 		}
 	}
diff --git a/core/write/page.go b/core/write/page.go
index 0be9672..c060bc2 100644
--- a/core/write/page.go
+++ b/core/write/page.go
@@ -67,7 +67,11 @@ func (pb *PageBuilder) AddStandardFont(fontName string) string {
 		// an embedded font may have the name already
 		resourceName = fmt.Sprintf("F%d", i)
 	}
-	fontDict := fmt.Sprintf("<</Type/Font/Subtype/Type1/BaseFont/%s>>", fontName)
+	encoding := "/Encoding/WinAnsiEncoding"
+	if fontName == "Symbol" || fontName == "ZapfDingbats" {
+		encoding = "" // these have their own
+	}
+	fontDict := fmt.Sprintf("<</Type/Font/Subtype/Type1/BaseFont/%s%s>>", fontName, encoding)
 	objNum := pb.writer.AddObject([]byte(fontDict))
 	pb.fonts[resourceName] = objNum
 	if pb.standardFonts == nil {
@@ -88,6 +92,7 @@ func (pb *PageBuilder) AddImage(info *ImageInfo) string {
 	if len(resourceName) > 0 && resourceName[0] == '/' {
 		resourceName = resourceName[1:]
 	}
+	resourceName = unusedName(pb.images, resourceName, info.ObjectNum)
 	pb.images[resourceName] = info.ObjectNum
 	return "/" + resourceName
 }
@@ -110,11 +115,22 @@ func (pb *PageBuilder) AddEmbeddedFont(f *font.Font) (string, error) {
 	if len(resourceName) > 0 && resourceName[0] == '/' {
 		resourceName = resourceName[1:]
 	}
+	resourceName = unusedName(pb.fonts, resourceName, fontObjs.FontDictNum)
 	pb.fonts[resourceName] = fontObjs.FontDictNum
 
 	return "/" + resourceName, nil
 }
 
+// unusedName returns name, or if another object has it already, a similar name that no
+// other object has
+func unusedName(resources map[string]int, name string, objNum int) string {
+	unused := name
+	for i := 2; resources[unused] != 0 && resources[unused] != objNum; i++ {
+		unused = fmt.Sprintf("%s_%d", name, i)
+	}
+	return unused
+}
+
 // fontWriterWrapper wraps PDFWriter to implement font.PDFWriter interface
 type fontWriterWrapper struct {
 	w *PDFWriter
@@ -164,8 +180,8 @@ func (pb *PageBuilder) Build(pagesObjNum int) int {
 	resources += ">>"
 
 	// Create page object
-	pageDict := fmt.Sprintf(`<</Type/Page/Parent %d 0 R/MediaBox[0 0 %.0f %.0f]/Contents %d 0 R/Resources%s>>`,
-		pagesObjNum, pb.size.Width, pb.size.Height, contentObjNum, resources)
+	pageDict := fmt.Sprintf(`<</Type/Page/Parent %d 0 R/MediaBox[0 0 %s %s]/Contents %d 0 R/Resources%s>>`,
+		pagesObjNum, pb.writer.formatValue(pb.size.Width), pb.writer.formatValue(pb.size.Height), contentObjNum, resources)
 	pb.pageObjNum = pb.writer.AddObject([]byte(pageDict))
 
 	return pb.pageObjNum
diff --git a/core/write/watermark.go b/core/write/watermark.go
index 9718a13..7538b0f 100644
--- a/core/write/watermark.go
+++ b/core/write/watermark.go
@@ -3,6 +3,7 @@ package write
 import (
 	"fmt"
 	"math"
+	"strings"
 )
 
 // WatermarkOptions configures watermark appearance
@@ -41,6 +42,26 @@ func (pb *PageBuilder) AddWatermark(options *WatermarkOptions) error {
 		options = DefaultWatermarkOptions()
 	}
 
+	imageName := strings.TrimPrefix(options.ImageName, "/")
+	if imageName != "" {
+		if _, exists := pb.images[imageName]; !exists {
+			return fmt.Errorf("image %q not found in page resources", options.ImageName)
+		}
+	} else if options.Text == "" {
+		return fmt.Errorf("watermark text cannot be empty")
+	}
+	defaults := DefaultWatermarkOptions()
+	color, fontName, fontSize := options.Color, options.FontName, options.FontSize
+	if color == nil {
+		color = defaults.Color
+	}
+	if fontName == "" {
+		fontName = defaults.FontName
+	}
+	if fontSize == 0 {
+		fontSize = defaults.FontSize
+	}
+
 	// Save graphics state
 	pb.content.SaveState()
 
@@ -51,12 +72,12 @@ func (pb *PageBuilder) AddWatermark(options *WatermarkOptions) error {
 		// Full ExtGState support would require adding it to resources
 		opacity := options.Opacity
 		pb.content.SetFillColorRGB(
-			options.Color.R*opacity,
-			options.Color.G*opacity,
-			options.Color.B*opacity,
+			color.R*opacity,
+			color.G*opacity,
+			color.B*opacity,
 		)
 	} else {
-		pb.content.SetFillColorRGB(options.Color.R, options.Color.G, options.Color.B)
+		pb.content.SetFillColorRGB(color.R, color.G, color.B)
 	}
 
 	// Calculate center if not specified
@@ -80,40 +101,31 @@ func (pb *PageBuilder) AddWatermark(options *WatermarkOptions) error {
 		)
 	}
 
-	if options.ImageName != "" {
+	if imageName != "" {
 		// Image watermark
-		// Add image to resources if not already added
-		if _, exists := pb.images[options.ImageName]; !exists {
-			return fmt.Errorf("image %q not found in page resources", options.ImageName)
-		}
-
 		// Draw image centered using Do operator
 		// Scale and position the image
 		// For simplicity, scale to reasonable size and center
 		// Image will be drawn at current position (0,0 after translate/rotate)
 		pb.content.Translate(-pb.size.Width/4, -pb.size.Height/4) // Center the image
 		pb.content.Scale(pb.size.Width/2, pb.size.Height/2)
-		pb.content.DrawImage(options.ImageName)
+		pb.content.DrawImage("/" + imageName)
 	} else {
 		// Text watermark
-		if options.Text == "" {
-			return fmt.Errorf("watermark text cannot be empty")
-		}
-
 		// Add font if not already added
-		fontName := pb.AddStandardFont(options.FontName)
+		resourceName := pb.AddStandardFont(fontName)
 
 		// Begin text
 		pb.content.BeginText()
 
 		// Set font and size
-		pb.content.SetFont(fontName, options.FontSize)
+		pb.content.SetFont(resourceName, fontSize)
 
 		// Calculate text position (center the text)
 		// For simplicity, approximate text width (could be improved)
-		textWidth := float64(len(options.Text)) * options.FontSize * 0.6
+		textWidth := float64(len(options.Text)) * fontSize * 0.6
 		textX := -textWidth / 2
-		textY := -options.FontSize / 2
+		textY := -fontSize / 2
 
 		pb.content.SetTextPosition(textX, textY)
 
-- 
2.43.0


From 7e857f9ba04a80980895edfb8dcc70af2e35c6cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:24 +0000
Subject: [PATCH 47/99] fix: image names with special characters; images with
 several names are extracted once

---
 content/extract/images.go | 6 +++++-
 core/write/page.go        | 2 +-
 core/write/watermark.go   | 3 +++
 3 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/content/extract/images.go b/content/extract/images.go
index 8e8829c..074f4e2 100644
--- a/content/extract/images.go
+++ b/content/extract/images.go
@@ -161,7 +161,11 @@ func ExtractAllImages(pdfBytes []byte, password []byte, verbose bool) ([]types.I
 
 		for _, name := range sortedKeys(objNums) {
 			objNum := objNums[name]
-			if xobjects[name].Subtype != "/Image" || extracted[objNum] {
+			if xobjects[name].Subtype != "/Image" {
+				continue
+			}
+			if extracted[objNum] {
+				imageMap["/"+name] = true // another name of the same image
 				continue
 			}
 			image, err := extractImageData(objNum, pdf, verbose)
diff --git a/core/write/page.go b/core/write/page.go
index c060bc2..e94e816 100644
--- a/core/write/page.go
+++ b/core/write/page.go
@@ -92,7 +92,7 @@ func (pb *PageBuilder) AddImage(info *ImageInfo) string {
 	if len(resourceName) > 0 && resourceName[0] == '/' {
 		resourceName = resourceName[1:]
 	}
-	resourceName = unusedName(pb.images, resourceName, info.ObjectNum)
+	resourceName = unusedName(pb.images, escapePDFName(resourceName), info.ObjectNum)
 	pb.images[resourceName] = info.ObjectNum
 	return "/" + resourceName
 }
diff --git a/core/write/watermark.go b/core/write/watermark.go
index 7538b0f..eba01f1 100644
--- a/core/write/watermark.go
+++ b/core/write/watermark.go
@@ -44,6 +44,9 @@ func (pb *PageBuilder) AddWatermark(options *WatermarkOptions) error {
 
 	imageName := strings.TrimPrefix(options.ImageName, "/")
 	if imageName != "" {
+		if _, exists := pb.images[imageName]; !exists {
+			imageName = escapePDFName(imageName) // may be the name before AddImage escaped it
+		}
 		if _, exists := pb.images[imageName]; !exists {
 			return fmt.Errorf("image %q not found in page resources", options.ImageName)
 		}
-- 
2.43.0


From 29b68698e545381237fdd7a9cb20142de95130f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:14 +0000
Subject: [PATCH 48/99] fix: ToUnicode maps with sequences, surrogate pairs and
 arrays

---
 content/extract/encoding.go | 210 +++++++++++++++++-------------------
 1 file changed, 98 insertions(+), 112 deletions(-)

diff --git a/content/extract/encoding.go b/content/extract/encoding.go
index c0001a6..bc37fee 100644
--- a/content/extract/encoding.go
+++ b/content/extract/encoding.go
@@ -1,9 +1,9 @@
 package extract
 
 import (
-	"regexp"
 	"strconv"
 	"strings"
+	"unicode/utf16"
 
 	"github.com/benedoc-inc/pdfer/core/parse"
 )
@@ -11,7 +11,7 @@ import (
 // FontDecoder decodes character codes to Unicode for a specific font
 type FontDecoder struct {
 	// ToUnicode mapping from character codes to Unicode (highest priority)
-	toUnicode map[int]rune
+	toUnicode map[int]string
 
 	// Base encoding (WinAnsiEncoding, MacRomanEncoding, etc.)
 	baseEncoding map[int]rune
@@ -29,7 +29,7 @@ type FontDecoder struct {
 // NewFontDecoder creates a new font decoder
 func NewFontDecoder(fontName string) *FontDecoder {
 	return &FontDecoder{
-		toUnicode:    make(map[int]rune),
+		toUnicode:    make(map[int]string),
 		baseEncoding: make(map[int]rune),
 		differences:  make(map[int]rune),
 		fontName:     fontName,
@@ -63,7 +63,7 @@ func (fd *FontDecoder) SetDifferences(code int, glyphName string) {
 
 // SetToUnicode adds a ToUnicode mapping
 func (fd *FontDecoder) SetToUnicode(code int, unicode rune) {
-	fd.toUnicode[code] = unicode
+	fd.toUnicode[code] = string(unicode)
 }
 
 // Decode decodes a byte slice to a Unicode string using the font's encoding
@@ -76,7 +76,8 @@ func (fd *FontDecoder) Decode(data []byte) string {
 
 		// Priority: ToUnicode > Differences > BaseEncoding > Identity
 		if unicode, ok := fd.toUnicode[code]; ok {
-			char = unicode
+			result.WriteString(unicode)
+			continue
 		} else if unicode, ok := fd.differences[code]; ok {
 			char = unicode
 		} else if unicode, ok := fd.baseEncoding[code]; ok {
@@ -118,19 +119,19 @@ func (fd *FontDecoder) DecodeHex(hexStr string) string {
 			if i+4 > len(hexStr) {
 				// Remaining single byte
 				if val, err := strconv.ParseInt(hexStr[i:], 16, 32); err == nil {
-					result.WriteRune(fd.lookupCode(int(val)))
+					result.WriteString(fd.lookupCode(int(val)))
 				}
 				break
 			}
 			if val, err := strconv.ParseInt(hexStr[i:i+4], 16, 32); err == nil {
-				result.WriteRune(fd.lookupCode(int(val)))
+				result.WriteString(fd.lookupCode(int(val)))
 			}
 		}
 	} else {
 		// 1-byte character codes
 		for i := 0; i < len(hexStr); i += 2 {
 			if val, err := strconv.ParseInt(hexStr[i:i+2], 16, 32); err == nil {
-				result.WriteRune(fd.lookupCode(int(val)))
+				result.WriteString(fd.lookupCode(int(val)))
 			}
 		}
 	}
@@ -149,140 +150,125 @@ func (fd *FontDecoder) has2ByteMapping() bool {
 }
 
 // lookupCode looks up a character code in all encoding tables
-func (fd *FontDecoder) lookupCode(code int) rune {
+func (fd *FontDecoder) lookupCode(code int) string {
 	if unicode, ok := fd.toUnicode[code]; ok {
 		return unicode
 	}
 	if unicode, ok := fd.differences[code]; ok {
-		return unicode
+		return string(unicode)
 	}
 	if code < 256 {
 		if unicode, ok := fd.baseEncoding[code]; ok {
-			return unicode
+			return string(unicode)
 		}
 	}
 	// Default: treat as Unicode code point (for Identity-H)
 	if code < 0x10000 {
-		return rune(code)
+		return string(rune(code))
 	}
-	return '?'
+	return "?"
 }
 
 // ParseToUnicodeCMap parses a ToUnicode CMap stream and populates the decoder
 func (fd *FontDecoder) ParseToUnicodeCMap(cmapData string) {
-	// Parse beginbfchar...endbfchar sections (single character mappings)
-	// Format: <srcCode> <dstUnicode>
-	bfcharPattern := regexp.MustCompile(`beginbfchar\s*([\s\S]*?)\s*endbfchar`)
-	bfcharMatches := bfcharPattern.FindAllStringSubmatch(cmapData, -1)
-	for _, match := range bfcharMatches {
-		fd.parseBfcharBlock(match[1])
-	}
-
-	// Parse beginbfrange...endbfrange sections (range mappings)
-	// Format: <srcCodeLo> <srcCodeHi> <dstUnicode> or <srcCodeLo> <srcCodeHi> [<dst1> <dst2> ...]
-	bfrangePattern := regexp.MustCompile(`beginbfrange\s*([\s\S]*?)\s*endbfrange`)
-	bfrangeMatches := bfrangePattern.FindAllStringSubmatch(cmapData, -1)
-	for _, match := range bfrangeMatches {
-		fd.parseBfrangeBlock(match[1])
-	}
-}
-
-// parseBfcharBlock parses a bfchar block
-func (fd *FontDecoder) parseBfcharBlock(block string) {
-	// Match pairs of hex values: <srcCode> <dstUnicode>
-	linePattern := regexp.MustCompile(`<([0-9A-Fa-f]+)>\s*<([0-9A-Fa-f]+)>`)
-	matches := linePattern.FindAllStringSubmatch(block, -1)
-	for _, match := range matches {
-		srcCode, err := strconv.ParseInt(match[1], 16, 32)
-		if err != nil {
-			continue
-		}
-		// Destination can be multi-byte Unicode
-		dstHex := match[2]
-		unicodeRunes := hexToUnicodeRunes(dstHex)
-		if len(unicodeRunes) == 1 {
-			fd.toUnicode[int(srcCode)] = unicodeRunes[0]
-		} else if len(unicodeRunes) > 1 {
-			// For ligatures/sequences, store the first rune
-			// TODO: Handle multi-rune mappings properly
-			fd.toUnicode[int(srcCode)] = unicodeRunes[0]
+	section := ""      // The operator that the section starts with
+	var args []string  // The operands since the last mapping
+	inArray := false   // Whether the operands end in an array that is not closed
+	var array []string // The elements of that array
+	for _, token := range parse.Tokens([]byte(cmapData)) {
+		switch {
+		case token == "beginbfchar" || token == "beginbfrange":
+			section, args, inArray = token, nil, false
+		case token == "endbfchar" || token == "endbfrange":
+			section = ""
+		case section == "":
+			// Not part of a mapping
+		case token == "[":
+			inArray, array = true, nil
+		case token == "]" && inArray:
+			inArray = false
+			if section == "beginbfrange" && len(args) == 2 {
+				fd.addRange(args[0], args[1], array)
+			}
+			args = nil
+		case inArray:
+			array = append(array, token)
+		default:
+			args = append(args, token)
+			// Format: <srcCode> <dstUnicode>
+			if section == "beginbfchar" && len(args) == 2 {
+				fd.addRange(args[0], args[0], []string{args[1]})
+				args = nil
+			}
+			// Format: <srcCodeLo> <srcCodeHi> <dstUnicode>
+			if section == "beginbfrange" && len(args) == 3 {
+				fd.addRange(args[0], args[1], args[2:])
+				args = nil
+			}
 		}
 	}
 }
 
-// parseBfrangeBlock parses a bfrange block
-func (fd *FontDecoder) parseBfrangeBlock(block string) {
-	// Match range definitions: <srcLo> <srcHi> <dstStart> or <srcLo> <srcHi> [array]
-	// Simple range: <0020> <007E> <0020>
-	simpleRangePattern := regexp.MustCompile(`<([0-9A-Fa-f]+)>\s*<([0-9A-Fa-f]+)>\s*<([0-9A-Fa-f]+)>`)
-	simpleMatches := simpleRangePattern.FindAllStringSubmatch(block, -1)
-	for _, match := range simpleMatches {
-		srcLo, err1 := strconv.ParseInt(match[1], 16, 32)
-		srcHi, err2 := strconv.ParseInt(match[2], 16, 32)
-		dstStart, err3 := strconv.ParseInt(match[3], 16, 32)
-		if err1 != nil || err2 != nil || err3 != nil {
-			continue
-		}
-		for i := srcLo; i <= srcHi; i++ {
-			fd.toUnicode[int(i)] = rune(dstStart + (i - srcLo))
-		}
+// addRange adds the mappings of the codes from lo to hi. There is a target for each code, or
+// one for the first code that the others count up from.
+func (fd *FontDecoder) addRange(lo, hi string, targets []string) {
+	srcLo, ok1 := hexCode(lo)
+	srcHi, ok2 := hexCode(hi)
+	if !ok1 || !ok2 {
+		return
 	}
-
-	// Array range: <srcLo> <srcHi> [<dst1> <dst2> ...]
-	arrayRangePattern := regexp.MustCompile(`<([0-9A-Fa-f]+)>\s*<([0-9A-Fa-f]+)>\s*\[([^\]]+)\]`)
-	arrayMatches := arrayRangePattern.FindAllStringSubmatch(block, -1)
-	for _, match := range arrayMatches {
-		srcLo, err1 := strconv.ParseInt(match[1], 16, 32)
-		srcHi, err2 := strconv.ParseInt(match[2], 16, 32)
-		if err1 != nil || err2 != nil {
-			continue
-		}
-		// Parse array elements
-		arrayHexPattern := regexp.MustCompile(`<([0-9A-Fa-f]+)>`)
-		arrayElements := arrayHexPattern.FindAllStringSubmatch(match[3], -1)
-		for i, elem := range arrayElements {
-			code := int(srcLo) + i
-			if code > int(srcHi) {
-				break
+	for code := srcLo; code <= srcHi; code++ {
+		i := code - srcLo
+		if i < len(targets) {
+			if text := hexToUnicode(targets[i], 0); text != "" {
+				fd.toUnicode[code] = text
 			}
-			unicodeRunes := hexToUnicodeRunes(elem[1])
-			if len(unicodeRunes) > 0 {
-				fd.toUnicode[code] = unicodeRunes[0]
+		} else if len(targets) == 1 {
+			if text := hexToUnicode(targets[0], i); text != "" {
+				fd.toUnicode[code] = text
 			}
+		} else {
+			break
 		}
 	}
 }
 
-// hexToUnicodeRunes converts a hex string to Unicode runes
-// Each pair of hex digits represents a byte in UTF-16BE
-func hexToUnicodeRunes(hex string) []rune {
-	var runes []rune
+// hexCode returns the character code, of up to two bytes, that a hex string stands for
+func hexCode(token string) (int, bool) {
+	if !strings.HasPrefix(token, "<") {
+		return 0, false
+	}
+	data := pdfStringBytes(token)
+	if len(data) < 1 || len(data) > 2 {
+		return 0, false
+	}
+	code := 0
+	for i := 0; i < len(data); i++ {
+		code = code<<8 | int(data[i])
+	}
+	return code, true
+}
 
-	// Handle UTF-16BE encoding (most common in PDFs)
-	if len(hex) == 4 {
-		// Single BMP character
-		if val, err := strconv.ParseInt(hex, 16, 32); err == nil {
-			runes = append(runes, rune(val))
-		}
-	} else if len(hex) == 2 {
+// hexToUnicode converts a hex string in UTF-16BE to text. offset is added to its last
+// character.
+func hexToUnicode(token string, offset int) string {
+	if !strings.HasPrefix(token, "<") {
+		return ""
+	}
+	data := pdfStringBytes(token)
+	if len(data) == 1 {
 		// Single byte - treat as code point
-		if val, err := strconv.ParseInt(hex, 16, 32); err == nil {
-			runes = append(runes, rune(val))
-		}
-	} else if len(hex) > 4 {
-		// Multi-character or surrogate pair
-		for i := 0; i < len(hex); i += 4 {
-			end := i + 4
-			if end > len(hex) {
-				end = len(hex)
-			}
-			if val, err := strconv.ParseInt(hex[i:end], 16, 32); err == nil {
-				runes = append(runes, rune(val))
-			}
-		}
+		return string(rune(int(data[0]) + offset))
 	}
-
-	return runes
+	var units []uint16
+	for i := 0; i+1 < len(data); i += 2 {
+		units = append(units, uint16(data[i])<<8|uint16(data[i+1]))
+	}
+	runes := utf16.Decode(units)
+	if len(runes) > 0 {
+		runes[len(runes)-1] += rune(offset)
+	}
+	return string(runes)
 }
 
 // ParseDifferencesArray parses a PDF Differences array
-- 
2.43.0


From 768938c2866354a83ef8fc57aaecd27a5f28891f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:14 +0000
Subject: [PATCH 49/99] fix: PolyLine annotations have their type

---
 content/extract/annotations.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/content/extract/annotations.go b/content/extract/annotations.go
index 4b8feb2..d155c0e 100644
--- a/content/extract/annotations.go
+++ b/content/extract/annotations.go
@@ -75,7 +75,7 @@ func extractAnnotation(annotObjNum int, annotStr string, pdf *parse.PDF, pageNum
 		annotation.Type = types.AnnotationTypeLine
 	case "/Polygon":
 		annotation.Type = types.AnnotationTypePolygon
-	case "/Polyline":
+	case "/PolyLine", "/Polyline":
 		annotation.Type = types.AnnotationTypePolyline
 	case "/Ink":
 		annotation.Type = types.AnnotationTypeInk
-- 
2.43.0


From 786c8c8c8107b64ec8425c7fac3441264fc75de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:14 +0000
Subject: [PATCH 50/99] fix: predictors of page contents and images are undone

---
 content/extract/dict_helpers.go |  4 +-
 content/extract/images.go       | 17 ++-------
 content/extract/resources.go    | 42 ++++++++++++++++++---
 core/parse/object_stream.go     | 65 ++++++++++++++++++++++++++-------
 4 files changed, 94 insertions(+), 34 deletions(-)

diff --git a/content/extract/dict_helpers.go b/content/extract/dict_helpers.go
index f8d0684..fcf51a0 100644
--- a/content/extract/dict_helpers.go
+++ b/content/extract/dict_helpers.go
@@ -54,7 +54,7 @@ func dictEntries(dictStr string) []dictEntry {
 	}
 }
 
-// arrayElements returns the references and dictionaries of an array
+// arrayElements returns the references, dictionaries and nulls of an array
 func arrayElements(array string) []string {
 	var elements []string
 	content := []byte(array)
@@ -79,6 +79,8 @@ func arrayElements(array string) []string {
 			}
 		case token == "R" && depth == 0 && len(numbers) >= 2:
 			elements = append(elements, strings.Join(numbers[len(numbers)-2:], " ")+" R")
+		case token == "null" && depth == 0:
+			elements = append(elements, token)
 		}
 		numbers = append(numbers, token)
 	}
diff --git a/content/extract/images.go b/content/extract/images.go
index 074f4e2..abbd22b 100644
--- a/content/extract/images.go
+++ b/content/extract/images.go
@@ -70,22 +70,13 @@ func extractImageData(imageObjNum int, pdf *parse.PDF, verbose bool) (*types.Ima
 	}
 
 	// Extract stream data - handle binary data properly
-	if _, streamData, ok := parse.SplitStream(parse.ObjectContent(imageObj)); ok {
+	if dict, streamData, ok := parse.SplitStream(parse.ObjectContent(imageObj)); ok {
 		if len(streamData) > 0 {
 			// Decompress if needed. The data of filters for images (JPEG, for example) is
 			// returned as it is.
-			for _, name := range parse.Tokens([]byte(filter)) {
-				if !strings.HasPrefix(name, "/") || name == "/DCTDecode" {
-					continue
-				}
-				decoded, err := parse.DecodeFilter(streamData, name)
-				if err != nil {
-					if verbose {
-						fmt.Printf("Warning: failed to decode image: %v\n", err)
-					}
-					break
-				}
-				streamData = decoded
+			streamData, err = decodeStream(string(dict), streamData, pdf)
+			if err != nil && verbose {
+				fmt.Printf("Warning: failed to decode image: %v\n", err)
 			}
 			image.Data = streamData
 
diff --git a/content/extract/resources.go b/content/extract/resources.go
index 95fe040..1550841 100644
--- a/content/extract/resources.go
+++ b/content/extract/resources.go
@@ -342,20 +342,50 @@ func extractStreamData(objNum int, pdf *parse.PDF, verbose bool) string {
 	if !ok {
 		return ""
 	}
-	for _, filter := range parse.Tokens([]byte(extractArray(string(dict), "/Filter", pdf))) {
+	decoded, err := decodeStream(string(dict), data, pdf)
+	if err != nil {
+		if verbose {
+			fmt.Printf("Warning: failed to decode stream %d: %v\n", objNum, err)
+		}
+	}
+	return string(decoded)
+}
+
+// decodeStream undoes the filters of a stream, with their predictors. The data of JPEG
+// images is returned as it is, and that of a filter that fails with an error.
+func decodeStream(dict string, data []byte, pdf *parse.PDF) ([]byte, error) {
+	parms := extractDict(dict, "/DecodeParms", pdf)
+	var parmsArray []string // one for each filter
+	if array := extractArray(dict, "/DecodeParms", pdf); strings.HasPrefix(array, "[") {
+		parmsArray = arrayElements(array)
+	}
+
+	filters := resolveValue(extractDictValue(dict, "/Filter"), pdf)
+	index := 0
+	for _, filter := range parse.Tokens([]byte(filters)) {
 		if !strings.HasPrefix(filter, "/") {
 			continue
 		}
+		index++
+		if filter == "/DCTDecode" {
+			continue
+		}
 		decoded, err := parse.DecodeFilter(data, filter)
 		if err != nil {
-			if verbose {
-				fmt.Printf("Warning: failed to decode stream %d: %v\n", objNum, err)
-			}
-			return string(data)
+			return data, err
 		}
 		data = decoded
+
+		if index <= len(parmsArray) {
+			parms = resolveValue(parmsArray[index-1], pdf)
+		}
+		if filter == "/FlateDecode" && strings.HasPrefix(parms, "<<") {
+			if data, err = parse.DecodePredictor(decoded, parms); err != nil {
+				return decoded, err
+			}
+		}
 	}
-	return string(data)
+	return data, nil
 }
 
 // isStandard14Font checks if a font is one of the standard 14 PDF fonts
diff --git a/core/parse/object_stream.go b/core/parse/object_stream.go
index a92bf1e..35ba689 100644
--- a/core/parse/object_stream.go
+++ b/core/parse/object_stream.go
@@ -220,36 +220,73 @@ func decodeStructureStream(dict string, data []byte) ([]byte, error) {
 	if !filtered || start == -1 {
 		return data, nil
 	}
-	parmEntries := dictTokens(parms[start:])
-	predictor := int(tokenInt(parmEntries["/Predictor"]))
-	columns := 1
-	if match := parmEntries["/Columns"]; len(match) == 1 {
-		columns, err = strconv.Atoi(match[0])
-		if err != nil || columns < 1 || columns > 1<<20 {
-			return nil, fmt.Errorf("invalid /Columns %s", match[0])
+	return DecodePredictor(data, parms[start:])
+}
+
+// DecodePredictor undoes the predictor, if any, that the decode parameters of a filter
+// name. data is what the filter itself decoded to.
+func DecodePredictor(data []byte, parms string) ([]byte, error) {
+	entries := dictTokens(parms)
+	number := func(key string, value, limit int) (int, error) {
+		if match := entries[key]; len(match) == 1 {
+			var err error
+			value, err = strconv.Atoi(match[0])
+			if err != nil || value < 1 || value > limit {
+				return 0, fmt.Errorf("invalid %s %s", key, match[0])
+			}
 		}
+		return value, nil
 	}
-	if predictor < 10 || predictor > 15 {
+	predictor := int(tokenInt(entries["/Predictor"]))
+	columns, err := number("/Columns", 1, 1<<20)
+	if err != nil {
+		return nil, err
+	}
+	if predictor != 2 && (predictor < 10 || predictor > 15) {
 		return data, nil
 	}
+	colors, err := number("/Colors", 1, 32)
+	if err != nil {
+		return nil, err
+	}
+	bits, err := number("/BitsPerComponent", 8, 16)
+	if err != nil {
+		return nil, err
+	}
+	rowBytes := (columns*colors*bits + 7) / 8
+	pixelBytes := (colors*bits + 7) / 8
+
+	if predictor == 2 {
+		// TIFF predictor - each component is the difference to the pixel before it
+		if bits != 8 {
+			return nil, fmt.Errorf("unsupported TIFF predictor with %d bits per component", bits)
+		}
+		decoded := append([]byte(nil), data...)
+		for i := range decoded {
+			if i%rowBytes >= pixelBytes {
+				decoded[i] += decoded[i-pixelBytes]
+			}
+		}
+		return decoded, nil
+	}
 
 	// PNG predictor - apply filter
-	rowSize := columns + 1 // +1 for filter byte
+	rowSize := rowBytes + 1 // +1 for filter byte
 	numRows := len(data) / rowSize
 
-	decoded := make([]byte, numRows*columns)
-	prevRow := make([]byte, columns)
+	decoded := make([]byte, numRows*rowBytes)
+	prevRow := make([]byte, rowBytes)
 
 	for row := 0; row < numRows; row++ {
 		rowStart := row * rowSize
 		filterByte := data[rowStart]
 		rowData := data[rowStart+1 : rowStart+rowSize]
-		current := decoded[row*columns : (row+1)*columns]
+		current := decoded[row*rowBytes : (row+1)*rowBytes]
 
 		for i := range current {
 			left, upperLeft := byte(0), byte(0)
-			if i > 0 {
-				left, upperLeft = current[i-1], prevRow[i-1]
+			if i >= pixelBytes {
+				left, upperLeft = current[i-pixelBytes], prevRow[i-pixelBytes]
 			}
 			switch filterByte {
 			case 1: // Sub
-- 
2.43.0


From 625701f5512850af94c7c37ec20944e6987157d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:43 +0000
Subject: [PATCH 51/99] fix: page rotation is normalised and font encodings are
 resolved

---
 content/extract/pages.go     | 2 +-
 content/extract/resources.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/content/extract/pages.go b/content/extract/pages.go
index 061b4c2..bf78f3c 100644
--- a/content/extract/pages.go
+++ b/content/extract/pages.go
@@ -128,7 +128,7 @@ func extractPage(pdfBytes []byte, pdf *parse.PDF, pageObjNum int, pageStr string
 	rotationStr := resolveValue(extractDictValue(pageStr, "/Rotate"), pdf)
 	if rotationStr != "" {
 		if rot, err := strconv.Atoi(rotationStr); err == nil {
-			page.Rotation = rot
+			page.Rotation = (rot%360 + 360) % 360
 		}
 	}
 
diff --git a/content/extract/resources.go b/content/extract/resources.go
index 1550841..3598363 100644
--- a/content/extract/resources.go
+++ b/content/extract/resources.go
@@ -123,7 +123,7 @@ func extractFontInfo(fontStr string, pdf *parse.PDF) *types.FontInfo {
 	}
 
 	// Extract Encoding
-	encoding := extractDictValue(fontStr, "/Encoding")
+	encoding := resolveValue(extractDictValue(fontStr, "/Encoding"), pdf)
 	if encoding != "" {
 		fontInfo.Encoding = encoding
 	}
-- 
2.43.0


From cbeaf67e36e6f39186926410b5cef8c6b4ab31a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:12 +0000
Subject: [PATCH 52/99] fix: the encryption of a file is found in spite of a
 torn last update

---
 core/encrypt/trailer.go | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/core/encrypt/trailer.go b/core/encrypt/trailer.go
index 3249285..f7e2d6f 100644
--- a/core/encrypt/trailer.go
+++ b/core/encrypt/trailer.go
@@ -15,7 +15,7 @@ var ErrNotEncrypted = errors.New("/Encrypt dictionary not found")
 // there, in those of its predecessors. read is false when the file has no
 // cross-reference section to start from.
 func trailerEntry(pdf []byte, key string) (value []byte, read bool) {
-	at := bytes.LastIndex(pdf, []byte("startxref"))
+	at := lastStartXRef(pdf)
 	if at == -1 {
 		return nil, false
 	}
@@ -48,6 +48,24 @@ func trailerEntry(pdf []byte, key string) (value []byte, read bool) {
 	return nil, read
 }
 
+// startXRefEnd matches what follows startxref where it ends a revision: the offset and
+// %%EOF, with only white space and comments between them.
+var startXRefEnd = regexp.MustCompile(`^startxref\s+\d+\s*(?:%[^\r\n]*[\r\n]\s*)*%%EOF`)
+
+// lastStartXRef returns the position of the last startxref that ends a revision. The
+// last one of all may be part of an update that was cut short; it is only used when
+// no revision is complete. The result is -1 if there is none.
+func lastStartXRef(pdf []byte) int {
+	keyword := []byte("startxref")
+	last := bytes.LastIndex(pdf, keyword)
+	for at := last; at != -1; at = bytes.LastIndex(pdf[:at], keyword) {
+		if startXRefEnd.Match(pdf[at:]) {
+			return at
+		}
+	}
+	return last
+}
+
 var (
 	objectHeader = regexp.MustCompile(`^\d+\s+\d+\s+obj\b`)
 	reference    = regexp.MustCompile(`^(\d+)\s+(\d+)\s+R\b`)
-- 
2.43.0


From 15ecf76acb79db4a45b00eba920c3b2a5906d03a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:13 +0000
Subject: [PATCH 53/99] fix: an image that cannot be written fails the
 extraction to a directory

---
 content/extract/directory.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/content/extract/directory.go b/content/extract/directory.go
index b35130a..78c95f5 100644
--- a/content/extract/directory.go
+++ b/content/extract/directory.go
@@ -129,6 +129,13 @@ func ExtractToDirectory(pdfBytes []byte, password []byte, outputDir string, verb
 		extractedContent.IsEncrypted = doc.Metadata.Encrypted
 	}
 
+	// The structure file is written last; one of an earlier extraction must not
+	// describe images that are being replaced
+	structureFile := filepath.Join(outputDir, "content.json")
+	if err := os.Remove(structureFile); err != nil && !os.IsNotExist(err) {
+		return nil, fmt.Errorf("failed to replace content.json: %w", err)
+	}
+
 	// Save images to files and build references
 	imageFiles := make([]string, 0)
 	imageRefMap := make(map[string]ImageReference)
@@ -157,10 +164,7 @@ func ExtractToDirectory(pdfBytes []byte, password []byte, outputDir string, verb
 
 		// Write image data
 		if err := os.WriteFile(filepath, img.Data, 0644); err != nil {
-			if verbose {
-				fmt.Printf("Warning: failed to write image %s: %v\n", filename, err)
-			}
-			continue
+			return nil, fmt.Errorf("failed to write image %s: %w", filename, err)
 		}
 
 		imageRef := ImageReference{
@@ -239,7 +243,6 @@ func ExtractToDirectory(pdfBytes []byte, password []byte, outputDir string, verb
 	}
 
 	// Write content.json
-	structureFile := filepath.Join(outputDir, "content.json")
 	jsonBytes, err := json.MarshalIndent(extractedContent, "", "  ")
 	if err != nil {
 		return nil, fmt.Errorf("failed to marshal content: %w", err)
-- 
2.43.0


From 91f4e94ac71c8a00dad066c744847db9ac19714d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:33 +0000
Subject: [PATCH 54/99] fix: a document that is built with a form has the form
 in its catalog

---
 core/write/page.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/write/page.go b/core/write/page.go
index e94e816..e3d78a3 100644
--- a/core/write/page.go
+++ b/core/write/page.go
@@ -255,8 +255,8 @@ func (b *SimplePDFBuilder) Bytes() ([]byte, error) {
 	pagesDict := fmt.Sprintf("<</Type/Pages/Kids%s/Count %d>>", kids, len(b.pages))
 	b.writer.SetObject(b.pagesObjNum, []byte(pagesDict))
 
-	// Create Catalog, once
-	if b.catalogObjNum == 0 {
+	// Create Catalog, once, unless there is one, as there is for a document with a form
+	if b.catalogObjNum == 0 && b.writer.rootRef == "" {
 		b.catalogObjNum = b.writer.AddObject([]byte(fmt.Sprintf("<</Type/Catalog/Pages %d 0 R>>", b.pagesObjNum)))
 		b.writer.SetRoot(b.catalogObjNum)
 	}
-- 
2.43.0


From 5d6750ef55d73a25f2615f23dc93b5266dd8f054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:33 +0000
Subject: [PATCH 55/99] fix: form fields are read through the catalog, at any
 depth and in any spelling

---
 content/extract/annotations.go    |   8 +-
 content/extract/bookmarks.go      |   4 +-
 content/extract/content_stream.go |   2 +-
 content/extract/encoding.go       |   4 +-
 content/extract/metadata.go       | 114 +-------
 content/extract/resources.go      |   2 +-
 core/parse/api.go                 |   6 +
 core/parse/strings.go             | 115 ++++++++
 core/write/metadata.go            |  11 +
 forms/acroform/extract.go         |  92 +++---
 forms/acroform/parser.go          | 445 ++++++++++++++++--------------
 forms/acroform/validation.go      |  49 ++--
 12 files changed, 471 insertions(+), 381 deletions(-)
 create mode 100644 core/parse/strings.go

diff --git a/content/extract/annotations.go b/content/extract/annotations.go
index d155c0e..7e97afc 100644
--- a/content/extract/annotations.go
+++ b/content/extract/annotations.go
@@ -104,9 +104,9 @@ func extractAnnotation(annotObjNum int, annotStr string, pdf *parse.PDF, pageNum
 	}
 
 	// Extract Contents (annotation text/contents), Title and Subject
-	annotation.Contents = textString(resolveValue(extractDictValue(annotStr, "/Contents"), pdf))
-	annotation.Title = textString(resolveValue(extractDictValue(annotStr, "/T"), pdf))
-	annotation.Subject = textString(resolveValue(extractDictValue(annotStr, "/Subj"), pdf))
+	annotation.Contents = parse.TextString(resolveValue(extractDictValue(annotStr, "/Contents"), pdf))
+	annotation.Title = parse.TextString(resolveValue(extractDictValue(annotStr, "/T"), pdf))
+	annotation.Subject = parse.TextString(resolveValue(extractDictValue(annotStr, "/Subj"), pdf))
 
 	// Extract Color
 	color := extractArrayValue(annotStr, "/C", pdf)
@@ -145,7 +145,7 @@ func extractAnnotation(annotObjNum int, annotStr string, pdf *parse.PDF, pageNum
 	// Link-specific: Extract URI or Destination
 	if annotation.Type == types.AnnotationTypeLink {
 		annotation.Destination, annotation.URI = extractTarget(annotStr, pdf)
-		if uri := textString(resolveValue(extractDictValue(annotStr, "/URI"), pdf)); uri != "" {
+		if uri := parse.TextString(resolveValue(extractDictValue(annotStr, "/URI"), pdf)); uri != "" {
 			annotation.URI = uri
 		}
 	}
diff --git a/content/extract/bookmarks.go b/content/extract/bookmarks.go
index 1da0a2d..ad96214 100644
--- a/content/extract/bookmarks.go
+++ b/content/extract/bookmarks.go
@@ -66,7 +66,7 @@ func extractBookmarksRecursive(pdf *parse.PDF, itemRef string, pageNumbers map[i
 		itemStr := string(itemObj)
 
 		bookmark := types.Bookmark{
-			Title: textString(resolveValue(extractDictValue(itemStr, "/Title"), pdf)),
+			Title: parse.TextString(resolveValue(extractDictValue(itemStr, "/Title"), pdf)),
 		}
 		bookmark.Destination, bookmark.URI = extractTarget(itemStr, pdf)
 		if refs := parseObjectRefArray(resolveValue(bookmark.Destination, pdf)); len(refs) > 0 {
@@ -91,7 +91,7 @@ func extractBookmarksRecursive(pdf *parse.PDF, itemRef string, pageNumbers map[i
 func extractTarget(dictStr string, pdf *parse.PDF) (dest, uri string) {
 	dest = extractDictValue(dictStr, "/Dest")
 	if action := extractDict(dictStr, "/A", pdf); action != "" {
-		uri = textString(resolveValue(extractDictValue(action, "/URI"), pdf))
+		uri = parse.TextString(resolveValue(extractDictValue(action, "/URI"), pdf))
 		if dest == "" && resolveValue(extractDictValue(action, "/S"), pdf) == "/GoTo" {
 			dest = extractDictValue(action, "/D")
 		}
diff --git a/content/extract/content_stream.go b/content/extract/content_stream.go
index 77fc4d8..1cc4cd2 100644
--- a/content/extract/content_stream.go
+++ b/content/extract/content_stream.go
@@ -369,7 +369,7 @@ func decodeStringTokens(tokens []string, decoder *FontDecoder) string {
 
 // decodeStringToken decodes a literal or hex string using the font's encoding
 func decodeStringToken(token string, decoder *FontDecoder) string {
-	data := pdfStringBytes(token)
+	data := parse.StringBytes(token)
 	if decoder != nil {
 		return decoder.DecodeHex(hex.EncodeToString([]byte(data)))
 	}
diff --git a/content/extract/encoding.go b/content/extract/encoding.go
index bc37fee..e129e29 100644
--- a/content/extract/encoding.go
+++ b/content/extract/encoding.go
@@ -238,7 +238,7 @@ func hexCode(token string) (int, bool) {
 	if !strings.HasPrefix(token, "<") {
 		return 0, false
 	}
-	data := pdfStringBytes(token)
+	data := parse.StringBytes(token)
 	if len(data) < 1 || len(data) > 2 {
 		return 0, false
 	}
@@ -255,7 +255,7 @@ func hexToUnicode(token string, offset int) string {
 	if !strings.HasPrefix(token, "<") {
 		return ""
 	}
-	data := pdfStringBytes(token)
+	data := parse.StringBytes(token)
 	if len(data) == 1 {
 		// Single byte - treat as code point
 		return string(rune(int(data[0]) + offset))
diff --git a/content/extract/metadata.go b/content/extract/metadata.go
index 61fe3d3..435c79d 100644
--- a/content/extract/metadata.go
+++ b/content/extract/metadata.go
@@ -1,13 +1,10 @@
 package extract
 
 import (
-	"encoding/hex"
 	"fmt"
 	"strconv"
 	"strings"
 	"time"
-	"unicode/utf16"
-	"unicode/utf8"
 
 	"github.com/benedoc-inc/pdfer/core/parse"
 	"github.com/benedoc-inc/pdfer/types"
@@ -88,9 +85,9 @@ func parseInfoDict(infoStr string, pdf *parse.PDF, metadata *types.DocumentMetad
 			continue
 		}
 		if field, ok := fields[entry.key]; ok {
-			*field = textString(value)
+			*field = parse.TextString(value)
 		} else {
-			metadata.Custom[unescapeName(entry.key)] = textString(value)
+			metadata.Custom[parse.UnescapeName(entry.key)] = parse.TextString(value)
 		}
 	}
 }
@@ -101,118 +98,11 @@ func extractMetadataFromBytes(pdfBytes []byte, metadata *types.DocumentMetadata,
 	// In practice, Info dict parsing should work
 }
 
-// unescapeName returns a name with the characters that are written as # and two hex digits
-func unescapeName(name string) string {
-	var result strings.Builder
-	for i := 0; i < len(name); i++ {
-		if name[i] == '#' && i+2 < len(name) {
-			if b, err := hex.DecodeString(name[i+1 : i+3]); err == nil {
-				result.WriteByte(b[0])
-				i += 2
-				continue
-			}
-		}
-		result.WriteByte(name[i])
-	}
-	return result.String()
-}
-
 // isString reports whether a token is a literal or hex string
 func isString(token string) bool {
 	return token[0] == '(' || token[0] == '<' && token != "<<"
 }
 
-// pdfStringBytes returns the bytes that a literal or hex string stands for
-func pdfStringBytes(token string) string {
-	if strings.HasPrefix(token, "<") {
-		var digits strings.Builder
-		for _, c := range token {
-			if c >= '0' && c <= '9' || c >= 'A' && c <= 'F' || c >= 'a' && c <= 'f' {
-				digits.WriteRune(c)
-			}
-		}
-		if digits.Len()%2 != 0 {
-			digits.WriteByte('0')
-		}
-		data, _ := hex.DecodeString(digits.String())
-		return string(data)
-	}
-
-	token = strings.TrimSuffix(strings.TrimPrefix(token, "("), ")")
-	var result strings.Builder
-	for i := 0; i < len(token); i++ {
-		c := token[i]
-		if c == '\r' {
-			// An end of line is a line feed, however it is written
-			if i+1 < len(token) && token[i+1] == '\n' {
-				i++
-			}
-			c = '\n'
-		}
-		if c != '\\' || i+1 == len(token) {
-			result.WriteByte(c)
-			continue
-		}
-		i++
-		switch c := token[i]; c {
-		case 'n':
-			result.WriteByte('\n')
-		case 'r':
-			result.WriteByte('\r')
-		case 't':
-			result.WriteByte('\t')
-		case 'b':
-			result.WriteByte('\b')
-		case 'f':
-			result.WriteByte('\f')
-		case '\n':
-			// The line continues
-		case '\r':
-			if i+1 < len(token) && token[i+1] == '\n' {
-				i++
-			}
-		case '0', '1', '2', '3', '4', '5', '6', '7':
-			// Up to three octal digits
-			value := 0
-			for n := 0; n < 3 && i < len(token) && token[i] >= '0' && token[i] <= '7'; n++ {
-				value = value*8 + int(token[i]-'0')
-				i++
-			}
-			i--
-			result.WriteByte(byte(value))
-		default:
-			result.WriteByte(c)
-		}
-	}
-	return result.String()
-}
-
-// textString returns the text that a literal or hex string outside of content streams
-// stands for, or "" if value is not a string
-func textString(value string) string {
-	if !strings.HasPrefix(value, "(") && (!strings.HasPrefix(value, "<") || strings.HasPrefix(value, "<<")) {
-		return ""
-	}
-	s := pdfStringBytes(value)
-	if strings.HasPrefix(s, "\xFE\xFF") {
-		// UTF-16BE
-		var units []uint16
-		for i := 2; i+1 < len(s); i += 2 {
-			units = append(units, uint16(s[i])<<8|uint16(s[i+1]))
-		}
-		return string(utf16.Decode(units))
-	}
-	s = strings.TrimPrefix(s, "\xEF\xBB\xBF")
-	if utf8.ValidString(s) {
-		return s
-	}
-	var result strings.Builder // as Latin-1
-	for i := 0; i < len(s); i++ {
-		result.WriteRune(rune(s[i]))
-	}
-	return result.String()
-}
-
 // parsePDFDate parses a PDF date string (D:YYYYMMDDHHmmSSOHH'mm)
 // parsePDFDate parses a PDF date string (D:YYYYMMDDHHmmSSOHH'mm).
 // This function is available for future use when date parsing is needed.
diff --git a/content/extract/resources.go b/content/extract/resources.go
index 3598363..7ffe993 100644
--- a/content/extract/resources.go
+++ b/content/extract/resources.go
@@ -145,7 +145,7 @@ func extractFontInfo(fontStr string, pdf *parse.PDF) *types.FontInfo {
 			}
 		}
 		// Extract font family name if available
-		if fontFamily := textString(resolveValue(extractDictValue(descStr, "/FontFamily"), pdf)); fontFamily != "" {
+		if fontFamily := parse.TextString(resolveValue(extractDictValue(descStr, "/FontFamily"), pdf)); fontFamily != "" {
 			fontInfo.Family = fontFamily
 		}
 	}
diff --git a/core/parse/api.go b/core/parse/api.go
index 0061d3f..354f223 100644
--- a/core/parse/api.go
+++ b/core/parse/api.go
@@ -38,6 +38,7 @@ import (
 // ParseOptions configures PDF parsing behavior
 type ParseOptions struct {
 	Password    []byte                  // Password for encrypted PDFs (empty for unencrypted)
+	Encryption  *types.PDFEncryption    // Encryption that was unlocked before, instead of a password
 	Verbose     bool                    // Enable verbose logging
 	BytePerfect bool                    // Preserve exact bytes for reconstruction
 	Warnings    *types.WarningCollector // Optional warning collector for non-fatal issues
@@ -119,6 +120,11 @@ func OpenWithOptions(data []byte, opts ParseOptions) (*PDF, error) {
 
 // handleEncryption checks for encryption and validates password
 func (p *PDF) handleEncryption() error {
+	if p.opts.Encryption != nil {
+		p.encryption = p.opts.Encryption
+		return nil
+	}
+
 	// Try to parse encryption dictionary
 	enc, err := encrypt.ParseEncryptionDictionary(p.raw, p.opts.Verbose)
 	if errors.Is(err, encrypt.ErrNotEncrypted) {
diff --git a/core/parse/strings.go b/core/parse/strings.go
new file mode 100644
index 0000000..9d1ff8f
--- /dev/null
+++ b/core/parse/strings.go
@@ -0,0 +1,115 @@
+package parse
+
+import (
+	"encoding/hex"
+	"strings"
+	"unicode/utf16"
+	"unicode/utf8"
+)
+
+// StringBytes returns the bytes that a literal or hex string stands for
+func StringBytes(token string) string {
+	if strings.HasPrefix(token, "<") {
+		var digits strings.Builder
+		for _, c := range token {
+			if c >= '0' && c <= '9' || c >= 'A' && c <= 'F' || c >= 'a' && c <= 'f' {
+				digits.WriteRune(c)
+			}
+		}
+		if digits.Len()%2 != 0 {
+			digits.WriteByte('0')
+		}
+		data, _ := hex.DecodeString(digits.String())
+		return string(data)
+	}
+
+	token = strings.TrimSuffix(strings.TrimPrefix(token, "("), ")")
+	var result strings.Builder
+	for i := 0; i < len(token); i++ {
+		c := token[i]
+		if c == '\r' {
+			// An end of line is a line feed, however it is written
+			if i+1 < len(token) && token[i+1] == '\n' {
+				i++
+			}
+			c = '\n'
+		}
+		if c != '\\' || i+1 == len(token) {
+			result.WriteByte(c)
+			continue
+		}
+		i++
+		switch c := token[i]; c {
+		case 'n':
+			result.WriteByte('\n')
+		case 'r':
+			result.WriteByte('\r')
+		case 't':
+			result.WriteByte('\t')
+		case 'b':
+			result.WriteByte('\b')
+		case 'f':
+			result.WriteByte('\f')
+		case '\n':
+			// The line continues
+		case '\r':
+			if i+1 < len(token) && token[i+1] == '\n' {
+				i++
+			}
+		case '0', '1', '2', '3', '4', '5', '6', '7':
+			// Up to three octal digits
+			value := 0
+			for n := 0; n < 3 && i < len(token) && token[i] >= '0' && token[i] <= '7'; n++ {
+				value = value*8 + int(token[i]-'0')
+				i++
+			}
+			i--
+			result.WriteByte(byte(value))
+		default:
+			result.WriteByte(c)
+		}
+	}
+	return result.String()
+}
+
+// TextString returns the text that a literal or hex string outside of content streams
+// stands for, or "" if value is not a string
+func TextString(value string) string {
+	if !strings.HasPrefix(value, "(") && (!strings.HasPrefix(value, "<") || strings.HasPrefix(value, "<<")) {
+		return ""
+	}
+	s := StringBytes(value)
+	if strings.HasPrefix(s, "\xFE\xFF") {
+		// UTF-16BE
+		var units []uint16
+		for i := 2; i+1 < len(s); i += 2 {
+			units = append(units, uint16(s[i])<<8|uint16(s[i+1]))
+		}
+		return string(utf16.Decode(units))
+	}
+	s = strings.TrimPrefix(s, "\xEF\xBB\xBF")
+	if utf8.ValidString(s) {
+		return s
+	}
+	var result strings.Builder // as Latin-1
+	for i := 0; i < len(s); i++ {
+		result.WriteRune(rune(s[i]))
+	}
+	return result.String()
+}
+
+// UnescapeName returns a name with the characters that are written as # and two hex digits
+func UnescapeName(name string) string {
+	var result strings.Builder
+	for i := 0; i < len(name); i++ {
+		if name[i] == '#' && i+2 < len(name) {
+			if b, err := hex.DecodeString(name[i+1 : i+3]); err == nil {
+				result.WriteByte(b[0])
+				i += 2
+				continue
+			}
+		}
+		result.WriteByte(name[i])
+	}
+	return result.String()
+}
diff --git a/core/write/metadata.go b/core/write/metadata.go
index a9e83bd..4a16e7b 100644
--- a/core/write/metadata.go
+++ b/core/write/metadata.go
@@ -100,6 +100,12 @@ func (w *PDFWriter) SetMetadataFields(fields map[string]string) int {
 	return w.SetMetadata(metadata)
 }
 
+// TextString returns s as a string object: (s), with the encoding and the escapes of text
+// outside of content streams
+func TextString(s string) string {
+	return "(" + escapePDFStringForMetadata(s) + ")"
+}
+
 // escapePDFStringForMetadata escapes a string for use in PDF metadata (returns content without parentheses)
 func escapePDFStringForMetadata(s string) string {
 	if isASCII(s) || !utf8.ValidString(s) {
@@ -123,6 +129,11 @@ func isASCII(s string) bool {
 	return true
 }
 
+// Name returns name (without its slash) as a name object
+func Name(name string) string {
+	return "/" + escapePDFName(name)
+}
+
 // escapePDFName escapes the characters that a name cannot have as they are
 func escapePDFName(name string) string {
 	var result strings.Builder
diff --git a/forms/acroform/extract.go b/forms/acroform/extract.go
index 4107412..4377868 100644
--- a/forms/acroform/extract.go
+++ b/forms/acroform/extract.go
@@ -2,28 +2,25 @@
 package acroform
 
 import (
-	"bytes"
 	"fmt"
 
-	"github.com/benedoc-inc/pdfer/core/encrypt"
+	"github.com/benedoc-inc/pdfer/core/parse"
 	"github.com/benedoc-inc/pdfer/types"
 )
 
 // ExtractAcroForm extracts AcroForm structure from a PDF
 // This is the main entry point for AcroForm extraction
 func ExtractAcroForm(pdfBytes []byte, password []byte, verbose bool) (*AcroForm, error) {
-	// Handle encryption
-	var encryptInfo *types.PDFEncryption
-	if bytes.Contains(pdfBytes, []byte("/Encrypt")) {
-		var err error
-		_, encryptInfo, err = encrypt.DecryptPDF(pdfBytes, password, verbose)
-		if err != nil {
-			return nil, fmt.Errorf("failed to decrypt PDF: %w", err)
-		}
+	pdf, err := parse.OpenWithOptions(pdfBytes, parse.ParseOptions{
+		Password: password,
+		Verbose:  verbose,
+	})
+	if err != nil {
+		return nil, fmt.Errorf("failed to parse PDF: %w", err)
 	}
 
 	// Parse AcroForm
-	acroForm, err := ParseAcroForm(pdfBytes, encryptInfo, verbose)
+	acroForm, err := parseAcroForm(pdf, verbose)
 	if err != nil {
 		return nil, fmt.Errorf("failed to parse AcroForm: %w", err)
 	}
@@ -45,28 +42,55 @@ func ExtractFormSchema(pdfBytes []byte, password []byte, verbose bool) (*types.F
 func (af *AcroForm) GetFieldValues() map[string]interface{} {
 	values := make(map[string]interface{})
 
-	for _, field := range af.Fields {
-		fieldName := field.GetFullName()
-		if fieldName != "" && field.V != nil {
-			values[fieldName] = field.V
+	af.walk(func(field *Field) bool {
+		if name := field.GetFullName(); name != "" && field.V != nil && field.isTerminal() {
+			// Fields with the same name are the same field
+			if _, found := values[name]; !found {
+				values[name] = field.V
+			}
 		}
+		return true
+	})
 
-		// Also get values from child fields
-		for _, kid := range field.Kids {
-			kidName := kid.GetFullName()
-			if kidName != "" && kid.V != nil {
-				values[kidName] = kid.V
-			}
+	return values
+}
+
+// walk calls visit for the fields at any depth, parents first, until it returns false
+func (af *AcroForm) walk(visit func(*Field) bool) {
+	walkFields(af.Fields, visit)
+}
+
+func walkFields(fields []*Field, visit func(*Field) bool) bool {
+	for _, field := range fields {
+		if !visit(field) || !walkFields(field.Kids, visit) {
+			return false
 		}
 	}
+	return true
+}
 
-	return values
+// isTerminal reports whether f is a field of its own: neither a group of other fields,
+// nor a widget of its parent, which has no name
+func (f *Field) isTerminal() bool {
+	if f.T == "" && f.Parent != nil {
+		return false
+	}
+	for _, kid := range f.Kids {
+		if kid.T != "" {
+			return false
+		}
+	}
+	return true
 }
 
 // GetFullName returns the full field name (handles hierarchical names)
 func (f *Field) GetFullName() string {
 	if f.Parent != nil {
 		parentName := f.Parent.GetFullName()
+		if f.T == "" {
+			// A widget, which goes by the name of its field
+			return parentName
+		}
 		if parentName != "" {
 			return parentName + "." + f.T
 		}
@@ -74,19 +98,19 @@ func (f *Field) GetFullName() string {
 	return f.T
 }
 
-// FindFieldByName finds a field by its name
+// FindFieldByName finds a field by its full name, or else by its partial name
 func (af *AcroForm) FindFieldByName(name string) *Field {
-	for _, field := range af.Fields {
-		if field.GetFullName() == name || field.T == name {
-			return field
-		}
-
-		// Search in kids
-		for _, kid := range field.Kids {
-			if kid.GetFullName() == name || kid.T == name {
-				return kid
-			}
+	var byFullName, byPartialName *Field
+	af.walk(func(field *Field) bool {
+		if field.GetFullName() == name {
+			byFullName = field
+		} else if field.T == name && byPartialName == nil {
+			byPartialName = field
 		}
+		return byFullName == nil
+	})
+	if byFullName != nil {
+		return byFullName
 	}
-	return nil
+	return byPartialName
 }
diff --git a/forms/acroform/parser.go b/forms/acroform/parser.go
index 6d764ae..636d98b 100644
--- a/forms/acroform/parser.go
+++ b/forms/acroform/parser.go
@@ -3,7 +3,6 @@ package acroform
 
 import (
 	"fmt"
-	"regexp"
 	"strconv"
 	"strings"
 
@@ -43,245 +42,264 @@ type Field struct {
 	Page       int                    // Page number (0-indexed)
 }
 
+// maxFieldDepth is the depth to which a field hierarchy is read
+const maxFieldDepth = 100
+
 // ParseAcroForm extracts AcroForm structure from a PDF
 func ParseAcroForm(pdfBytes []byte, encryptInfo *types.PDFEncryption, verbose bool) (*AcroForm, error) {
-	// Find AcroForm reference in catalog
 	pdf, err := parse.OpenWithOptions(pdfBytes, parse.ParseOptions{
-		Password: []byte(""),
-		Verbose:  verbose,
+		Encryption: encryptInfo,
+		Verbose:    verbose,
 	})
 	if err != nil {
 		return nil, types.WrapError(types.ErrCodeMalformedPDF, "failed to parse PDF", err)
 	}
-
-	// Search for /AcroForm in the PDF
-	// We'll parse directly from bytes for now
-	_ = pdf // May use later for better catalog access
-	return parseAcroFormFromBytes(pdfBytes, encryptInfo, verbose)
+	return parseAcroForm(pdf, verbose)
 }
 
-// parseAcroFormFromBytes finds and parses AcroForm by searching PDF bytes
-func parseAcroFormFromBytes(pdfBytes []byte, encryptInfo *types.PDFEncryption, verbose bool) (*AcroForm, error) {
-	pdfStr := string(pdfBytes)
-
-	// Find AcroForm reference
-	acroFormPattern := regexp.MustCompile(`/AcroForm\s+(\d+)\s+(\d+)\s+R`)
-	acroFormMatch := acroFormPattern.FindStringSubmatch(pdfStr)
+// parseAcroForm extracts the AcroForm that the catalog of a parsed PDF refers to
+func parseAcroForm(pdf *parse.PDF, verbose bool) (*AcroForm, error) {
+	r := &formReader{pdf: pdf, read: make(map[int]bool), verbose: verbose}
 
-	if acroFormMatch == nil {
-		// Try inline AcroForm
-		acroFormInlinePattern := regexp.MustCompile(`/AcroForm\s*<<`)
-		if acroFormInlinePattern.FindStringIndex(pdfStr) == nil {
-			return nil, types.NewPDFError(types.ErrCodeNoForms, "AcroForm not found in PDF")
-		}
-		// Inline AcroForm - would need more complex parsing
-		return nil, types.NewPDFError(types.ErrCodeUnsupportedPDF, "inline AcroForm not yet supported")
+	trailer := pdf.Trailer()
+	if trailer == nil {
+		return nil, types.NewPDFError(types.ErrCodeMalformedPDF, "no trailer found")
 	}
-
-	acroFormObjNum, err := strconv.Atoi(acroFormMatch[1])
-	if err != nil {
-		return nil, types.WrapError(types.ErrCodeInvalidObject, "invalid AcroForm object number", err)
+	catalog := r.resolve(trailer.RootRef)
+	if catalog == "" {
+		return nil, types.NewPDFError(types.ErrCodeObjectNotFound, "failed to get the catalog")
 	}
-
-	// Get AcroForm object
-	acroFormData, err := parse.GetObject(pdfBytes, acroFormObjNum, encryptInfo, verbose)
-	if err != nil {
-		return nil, types.WrapErrorf(types.ErrCodeObjectNotFound, err, "failed to get AcroForm object %d", acroFormObjNum)
+	dict := r.entry(catalog, "/AcroForm")
+	if !strings.HasPrefix(dict, "<<") {
+		return nil, types.NewPDFError(types.ErrCodeNoForms, "AcroForm not found in PDF")
 	}
 
 	acroForm := &AcroForm{
-		Fields: make([]*Field, 0),
+		NeedAppearances: r.entry(dict, "/NeedAppearances") == "true",
 	}
 
-	// Parse AcroForm dictionary
-	if err := parseAcroFormDict(acroFormData, acroForm, pdfBytes, encryptInfo, verbose); err != nil {
-		return nil, types.WrapError(types.ErrCodeInvalidForm, "failed to parse AcroForm dictionary", err)
-	}
-
-	return acroForm, nil
-}
-
-// parseAcroFormDict parses the AcroForm dictionary
-func parseAcroFormDict(data []byte, acroForm *AcroForm, pdfBytes []byte, encryptInfo *types.PDFEncryption, verbose bool) error {
-	dataStr := string(data)
-
 	// Check for XFA (hybrid form)
-	if strings.Contains(dataStr, "/XFA") {
+	if xfa := r.entry(dict, "/XFA"); xfa != "" && xfa != "null" {
 		acroForm.XFA = true
 		if verbose {
 			fmt.Println("Found XFA in AcroForm (hybrid form)")
 		}
 	}
 
-	// Find Fields array
-	fieldsPattern := regexp.MustCompile(`/Fields\s*\[([^\]]*)\]`)
-	fieldsMatch := fieldsPattern.FindStringSubmatch(dataStr)
-	if fieldsMatch == nil {
-		return types.NewPDFError(types.ErrCodeInvalidForm, "Fields array not found in AcroForm")
-	}
-
-	fieldsStr := fieldsMatch[1]
-	if verbose {
-		fmt.Printf("Found Fields array: %s\n", fieldsStr)
+	fields := r.entry(dict, "/Fields")
+	if !strings.HasPrefix(fields, "[") {
+		return nil, types.NewPDFError(types.ErrCodeInvalidForm, "Fields array not found in AcroForm")
 	}
+	// What the form has for all of its fields is inherited by them
+	defaults := &Field{}
+	defaults.DA = parse.TextString(r.entry(dict, "/DA"))
+	defaults.Q, _ = strconv.Atoi(r.entry(dict, "/Q"))
+	acroForm.Fields = r.fields(fields, defaults, 0)
+	acroForm.walk(func(field *Field) bool {
+		if field.FT == "Sig" && field.isTerminal() {
+			acroForm.SignatureFields = append(acroForm.SignatureFields, field.ObjectNum)
+		}
+		return true
+	})
 
-	// Extract field references
-	fieldRefPattern := regexp.MustCompile(`(\d+)\s+(\d+)\s+R`)
-	fieldRefs := fieldRefPattern.FindAllStringSubmatch(fieldsStr, -1)
+	return acroForm, nil
+}
 
-	for _, ref := range fieldRefs {
-		objNum, _ := strconv.Atoi(ref[1])
-		genNum, _ := strconv.Atoi(ref[2])
+// formReader reads the fields of a form
+type formReader struct {
+	pdf     *parse.PDF
+	read    map[int]bool // fields that were read, which are not read again
+	verbose bool
+}
 
-		field, err := parseField(pdfBytes, objNum, genNum, encryptInfo, verbose)
+// resolve returns the value that a value stands for: the content of the object if it is
+// a reference, which is "" if there is no such object
+func (r *formReader) resolve(value string) string {
+	for i := 0; i < 32; i++ {
+		objNum, _, ok := parseReference(value)
+		if !ok {
+			return value
+		}
+		obj, err := r.pdf.GetObject(objNum)
 		if err != nil {
-			if verbose {
-				fmt.Printf("Warning: Failed to parse field %d: %v\n", objNum, err)
-			}
-			continue
+			return ""
 		}
-
-		acroForm.Fields = append(acroForm.Fields, field)
+		value = strings.TrimSpace(string(parse.ObjectContent(obj)))
 	}
+	return ""
+}
 
-	return nil
+// entry returns the value that key has in a dictionary, or "" if there is none
+func (r *formReader) entry(dict, key string) string {
+	return r.resolve(dictValue(dict, key))
 }
 
-// parseField parses a single field dictionary
-func parseField(pdfBytes []byte, objNum, genNum int, encryptInfo *types.PDFEncryption, verbose bool) (*Field, error) {
-	fieldData, err := parse.GetObject(pdfBytes, objNum, encryptInfo, verbose)
-	if err != nil {
-		return nil, types.WrapError(types.ErrCodeFieldNotFound, "failed to get field object", err)
+// fields reads the fields that an array refers to. What they do not have themselves is
+// inherited from parent.
+func (r *formReader) fields(array string, parent *Field, depth int) []*Field {
+	fields := make([]*Field, 0)
+	if depth == maxFieldDepth {
+		return fields
+	}
+	for _, item := range arrayItems(array) {
+		objNum, genNum, ok := parseReference(item)
+		if !ok || r.read[objNum] {
+			continue
+		}
+		r.read[objNum] = true
+		dict := r.resolve(item)
+		if !strings.HasPrefix(dict, "<<") {
+			if r.verbose {
+				fmt.Printf("Warning: Failed to parse field %d\n", objNum)
+			}
+			continue
+		}
+		fields = append(fields, r.field(objNum, genNum, dict, parent, depth))
 	}
+	return fields
+}
 
+// field reads a single field dictionary
+func (r *formReader) field(objNum, genNum int, dict string, parent *Field, depth int) *Field {
 	field := &Field{
 		ObjectNum:  objNum,
 		Generation: genNum,
-		Kids:       make([]*Field, 0),
-	}
-
-	dataStr := string(fieldData)
-
-	// Extract field type (FT)
-	if ftMatch := regexp.MustCompile(`/FT\s*/(\w+)`).FindStringSubmatch(dataStr); ftMatch != nil {
-		field.FT = ftMatch[1]
-	}
-
-	// Extract field name (T)
-	if tMatch := regexp.MustCompile(`/T\s*\(([^)]*)\)`).FindStringSubmatch(dataStr); tMatch != nil {
-		field.T = tMatch[1]
-	} else if tMatch := regexp.MustCompile(`/T\s*/(\w+)`).FindStringSubmatch(dataStr); tMatch != nil {
-		field.T = tMatch[1]
-	}
-
-	// Extract alternate name (TU)
-	if tuMatch := regexp.MustCompile(`/TU\s*\(([^)]*)\)`).FindStringSubmatch(dataStr); tuMatch != nil {
-		field.TU = tuMatch[1]
-	}
-
-	// Extract field flags (Ff)
-	if ffMatch := regexp.MustCompile(`/Ff\s+(\d+)`).FindStringSubmatch(dataStr); ffMatch != nil {
-		field.Ff, _ = strconv.Atoi(ffMatch[1])
-	}
-
-	// Extract value (V)
-	if vMatch := regexp.MustCompile(`/V\s*\(([^)]*)\)`).FindStringSubmatch(dataStr); vMatch != nil {
-		field.V = vMatch[1]
-	} else if vMatch := regexp.MustCompile(`/V\s*/(\w+)`).FindStringSubmatch(dataStr); vMatch != nil {
-		field.V = vMatch[1]
-	} else if vMatch := regexp.MustCompile(`/V\s*\[([^\]]*)\]`).FindStringSubmatch(dataStr); vMatch != nil {
-		// Array value (for choice fields)
-		field.V = parseArray(vMatch[1])
-	}
-
-	// Extract default value (DV)
-	if dvMatch := regexp.MustCompile(`/DV\s*\(([^)]*)\)`).FindStringSubmatch(dataStr); dvMatch != nil {
-		field.DV = dvMatch[1]
+		T:          parse.TextString(r.entry(dict, "/T")),
+		TU:         parse.TextString(r.entry(dict, "/TU")),
+		TM:         parse.TextString(r.entry(dict, "/TM")),
+		// These are inherited
+		FT:     parent.FT,
+		Ff:     parent.Ff,
+		V:      parent.V,
+		DV:     parent.DV,
+		DA:     parent.DA,
+		Q:      parent.Q,
+		MaxLen: parent.MaxLen,
+	}
+	if depth > 0 {
+		field.Parent = parent
+	}
+	if t := r.entry(dict, "/T"); strings.HasPrefix(t, "/") {
+		field.T = parse.UnescapeName(t[1:])
+	}
+	if ft := r.entry(dict, "/FT"); strings.HasPrefix(ft, "/") {
+		field.FT = parse.UnescapeName(ft[1:])
+	}
+	r.number(dict, "/Ff", &field.Ff)
+	r.number(dict, "/Q", &field.Q)
+	r.number(dict, "/MaxLen", &field.MaxLen)
+	r.number(dict, "/TI", &field.TI)
+	if v := dictValue(dict, "/V"); v != "" {
+		field.V = r.value(v, 0)
+	}
+	if dv := dictValue(dict, "/DV"); dv != "" {
+		field.DV = r.value(dv, 0)
+	}
+	if da := r.entry(dict, "/DA"); da != "" {
+		field.DA = parse.TextString(da)
+	}
+	if opt := r.entry(dict, "/Opt"); opt != "" {
+		field.Opt, _ = r.value(opt, 0).([]interface{})
+	} else if field.FT == "Btn" {
+		field.Opt = parent.Opt
+	}
+	for _, item := range arrayItems(r.entry(dict, "/I")) {
+		if index, err := strconv.Atoi(r.resolve(item)); err == nil {
+			field.I = append(field.I, index)
+		}
 	}
-
-	// Extract maximum length (MaxLen)
-	if maxLenMatch := regexp.MustCompile(`/MaxLen\s+(\d+)`).FindStringSubmatch(dataStr); maxLenMatch != nil {
-		field.MaxLen, _ = strconv.Atoi(maxLenMatch[1])
+	for _, item := range arrayItems(r.entry(dict, "/Rect")) {
+		if coordinate, err := strconv.ParseFloat(r.resolve(item), 64); err == nil {
+			field.Rect = append(field.Rect, coordinate)
+		}
 	}
 
-	// Extract options (Opt) - for choice fields
-	if optMatch := regexp.MustCompile(`/Opt\s*\[([^\]]*)\]`).FindStringSubmatch(dataStr); optMatch != nil {
-		field.Opt = parseOptions(optMatch[1])
-	}
+	field.Kids = r.fields(r.entry(dict, "/Kids"), field, depth+1)
+	return field
+}
 
-	// Extract rectangle (Rect) - field position
-	if rectMatch := regexp.MustCompile(`/Rect\s*\[([^\]]*)\]`).FindStringSubmatch(dataStr); rectMatch != nil {
-		field.Rect = parseRect(rectMatch[1])
+// number sets n to the integer that key has in a dictionary, if there is one
+func (r *formReader) number(dict, key string, n *int) {
+	if value, err := strconv.Atoi(r.entry(dict, key)); err == nil {
+		*n = value
 	}
+}
 
-	// Extract kids (child fields)
-	if kidsMatch := regexp.MustCompile(`/Kids\s*\[([^\]]*)\]`).FindStringSubmatch(dataStr); kidsMatch != nil {
-		kidsStr := kidsMatch[1]
-		kidRefPattern := regexp.MustCompile(`(\d+)\s+(\d+)\s+R`)
-		kidRefs := kidRefPattern.FindAllStringSubmatch(kidsStr, -1)
-
-		for _, ref := range kidRefs {
-			kidObjNum, _ := strconv.Atoi(ref[1])
-			kidGenNum, _ := strconv.Atoi(ref[2])
-
-			kidField, err := parseField(pdfBytes, kidObjNum, kidGenNum, encryptInfo, verbose)
-			if err != nil {
-				if verbose {
-					fmt.Printf("Warning: Failed to parse kid field %d: %v\n", kidObjNum, err)
-				}
-				continue
-			}
-			kidField.Parent = field
-			field.Kids = append(field.Kids, kidField)
+// value returns a value of a field: the text of a string, a name without its slash, or
+// the values of an array. It is nil for anything else.
+func (r *formReader) value(value string, depth int) interface{} {
+	value = r.resolve(value)
+	switch {
+	case strings.HasPrefix(value, "(") || strings.HasPrefix(value, "<") && !strings.HasPrefix(value, "<<"):
+		return parse.TextString(value)
+	case strings.HasPrefix(value, "/"):
+		return parse.UnescapeName(value[1:])
+	case strings.HasPrefix(value, "[") && depth < 2:
+		values := make([]interface{}, 0)
+		for _, item := range arrayItems(value) {
+			values = append(values, r.value(item, depth+1))
 		}
+		return values
 	}
-
-	return field, nil
+	return nil
 }
 
-// parseArray parses a PDF array string
-func parseArray(arrStr string) []interface{} {
-	items := make([]interface{}, 0)
-	// Simple parsing - split by spaces and handle strings
-	parts := strings.Fields(arrStr)
-	for _, part := range parts {
-		if strings.HasPrefix(part, "(") && strings.HasSuffix(part, ")") {
-			items = append(items, part[1:len(part)-1])
-		} else {
-			items = append(items, part)
-		}
-	}
-	return items
+// parseReference returns the numbers of a reference ("N G R")
+func parseReference(value string) (objNum, genNum int, ok bool) {
+	number, pos := parse.NextToken([]byte(value), 0)
+	objNum, numErr := strconv.Atoi(number)
+	if numErr != nil {
+		return 0, 0, false
+	}
+	generation, pos := parse.NextToken([]byte(value), pos)
+	genNum, genErr := strconv.Atoi(generation)
+	keyword, pos := parse.NextToken([]byte(value), pos)
+	rest, _ := parse.NextToken([]byte(value), pos)
+	return objNum, genNum, genErr == nil && keyword == "R" && rest == ""
 }
 
-// parseOptions parses choice field options
-func parseOptions(optStr string) []interface{} {
-	// Options can be array of strings or array of [value, display] pairs
-	options := make([]interface{}, 0)
-
-	// Try to parse as array of strings first
-	if strings.Contains(optStr, "(") {
-		// Extract string values
-		strPattern := regexp.MustCompile(`\(([^)]*)\)`)
-		matches := strPattern.FindAllStringSubmatch(optStr, -1)
-		for _, match := range matches {
-			options = append(options, match[1])
-		}
+// dictValue returns the value of key in a dictionary, as it is written there, or "" if
+// there is none
+func dictValue(dict, key string) string {
+	start, end, ok := parse.DictValue([]byte(dict), key)
+	if !ok {
+		return ""
 	}
-
-	return options
+	return dict[start:end]
 }
 
-// parseRect parses a rectangle array [llx lly urx ury]
-func parseRect(rectStr string) []float64 {
-	parts := strings.Fields(rectStr)
-	rect := make([]float64, 0, 4)
-	for _, part := range parts {
-		if val, err := strconv.ParseFloat(part, 64); err == nil {
-			rect = append(rect, val)
+// arrayItems returns the items of an array, as they are written there
+func arrayItems(array string) []string {
+	if !strings.HasPrefix(array, "[") {
+		return nil
+	}
+	var items []string
+	var nested []string // tokens of an item that is an array or a dictionary
+	depth := 0
+	for _, token := range parse.Tokens([]byte(array))[1:] {
+		switch token {
+		case "[", "<<":
+			depth++
+		case "]", ">>":
+			depth--
+			if depth < 0 {
+				return items
+			}
+		}
+		switch {
+		case depth > 0:
+			nested = append(nested, token)
+		case token == "]" || token == ">>":
+			items = append(items, strings.Join(append(nested, token), " "))
+			nested = nil
+		case token == "R" && len(items) >= 2:
+			reference := strings.Join([]string{items[len(items)-2], items[len(items)-1], token}, " ")
+			items = append(items[:len(items)-2], reference)
+		default:
+			items = append(items, token)
 		}
 	}
-	return rect
+	return items
 }
 
 // ToFormSchema converts AcroForm to FormSchema
@@ -294,12 +312,14 @@ func (af *AcroForm) ToFormSchema() *types.FormSchema {
 		Rules:     make([]types.Rule, 0),
 	}
 
-	for _, field := range af.Fields {
-		question := field.ToQuestion()
-		if question != nil {
-			schema.Questions = append(schema.Questions, *question)
+	af.walk(func(field *Field) bool {
+		if field.isTerminal() {
+			if question := field.ToQuestion(); question != nil {
+				schema.Questions = append(schema.Questions, *question)
+			}
 		}
-	}
+		return true
+	})
 
 	return schema
 }
@@ -308,7 +328,7 @@ func (af *AcroForm) ToFormSchema() *types.FormSchema {
 func (f *Field) ToQuestion() *types.Question {
 	question := &types.Question{
 		ID:         fmt.Sprintf("field_%d", f.ObjectNum),
-		Name:       f.T,
+		Name:       f.GetFullName(),
 		Label:      f.TU,
 		Type:       mapFieldTypeWithFlags(f.FT, f.Ff),
 		Required:   (f.Ff & 0x2) != 0, // Required flag
@@ -330,19 +350,12 @@ func (f *Field) ToQuestion() *types.Question {
 	if len(f.Opt) > 0 {
 		question.Options = make([]types.Option, 0, len(f.Opt))
 		for i, opt := range f.Opt {
-			optStr := fmt.Sprintf("%v", opt)
+			value, label := optionText(opt)
 			question.Options = append(question.Options, types.Option{
-				Value: optStr,
-				Label: optStr,
+				Value:    value,
+				Label:    label,
+				Selected: f.isSelected(i, value),
 			})
-			// Check if this option is selected
-			if f.I != nil {
-				for _, idx := range f.I {
-					if idx == i {
-						question.Options[i].Selected = true
-					}
-				}
-			}
 		}
 	}
 
@@ -368,6 +381,36 @@ func (f *Field) ToQuestion() *types.Question {
 	return question
 }
 
+// optionText returns the value that stands for an option, and the text that is shown for it
+func optionText(opt interface{}) (value, label string) {
+	if pair, ok := opt.([]interface{}); ok && len(pair) == 2 {
+		return fmt.Sprintf("%v", pair[0]), fmt.Sprintf("%v", pair[1])
+	}
+	text := fmt.Sprintf("%v", opt)
+	return text, text
+}
+
+// isSelected reports whether the option with the given index and value is selected
+func (f *Field) isSelected(index int, value string) bool {
+	switch v := f.V.(type) {
+	case string:
+		return v == value
+	case []interface{}:
+		for _, selected := range v {
+			if selected == value {
+				return true
+			}
+		}
+		return false
+	}
+	for _, selected := range f.I {
+		if selected == index {
+			return true
+		}
+	}
+	return false
+}
+
 // mapFieldType maps AcroForm field type to ResponseType
 func mapFieldType(ft string) types.ResponseType {
 	switch ft {
diff --git a/forms/acroform/validation.go b/forms/acroform/validation.go
index d984078..55f0625 100644
--- a/forms/acroform/validation.go
+++ b/forms/acroform/validation.go
@@ -4,7 +4,9 @@ package acroform
 import (
 	"fmt"
 	"regexp"
+	"sort"
 	"strconv"
+	"unicode/utf8"
 
 	"github.com/benedoc-inc/pdfer/types"
 )
@@ -66,7 +68,7 @@ func validateTextField(field *Field, value interface{}) error {
 	}
 
 	// Check max length
-	if field.MaxLen > 0 && len(valueStr) > field.MaxLen {
+	if field.MaxLen > 0 && utf8.RuneCountInString(valueStr) > field.MaxLen {
 		return &ValidationError{
 			FieldName: field.GetFullName(),
 			Message:   fmt.Sprintf("value exceeds maximum length of %d", field.MaxLen),
@@ -103,7 +105,7 @@ func validateButtonField(field *Field, value interface{}) error {
 			valueStr := fmt.Sprintf("%v", value)
 			found := false
 			for _, opt := range field.Opt {
-				if fmt.Sprintf("%v", opt) == valueStr {
+				if optStr, _ := optionText(opt); optStr == valueStr {
 					found = true
 					break
 				}
@@ -132,7 +134,7 @@ func validateChoiceField(field *Field, value interface{}) error {
 	// Check if value is in options
 	found := false
 	for _, opt := range field.Opt {
-		optStr := fmt.Sprintf("%v", opt)
+		optStr, _ := optionText(opt)
 		if optStr == valueStr {
 			found = true
 			break
@@ -167,11 +169,22 @@ func validateSignatureField(field *Field, value interface{}) error {
 	return nil
 }
 
+// sortedNames returns the names that form data has values for, in ascending order
+func sortedNames(formData types.FormData) []string {
+	names := make([]string, 0, len(formData))
+	for name := range formData {
+		names = append(names, name)
+	}
+	sort.Strings(names)
+	return names
+}
+
 // ValidateFormData validates all fields in form data against the AcroForm
 func ValidateFormData(acroForm *AcroForm, formData types.FormData) []error {
 	var errors []error
 
-	for fieldName, value := range formData {
+	for _, fieldName := range sortedNames(formData) {
+		value := formData[fieldName]
 		field := acroForm.FindFieldByName(fieldName)
 		if field == nil {
 			errors = append(errors, fmt.Errorf("field '%s' not found in form", fieldName))
@@ -184,8 +197,8 @@ func ValidateFormData(acroForm *AcroForm, formData types.FormData) []error {
 	}
 
 	// Check for missing required fields
-	for _, field := range acroForm.Fields {
-		if (field.Ff & 0x2) != 0 { // Required flag
+	acroForm.walk(func(field *Field) bool {
+		if field.isTerminal() && (field.Ff&0x2) != 0 { // Required flag
 			fieldName := field.GetFullName()
 			if _, found := formData[fieldName]; !found {
 				errors = append(errors, &ValidationError{
@@ -195,21 +208,8 @@ func ValidateFormData(acroForm *AcroForm, formData types.FormData) []error {
 				})
 			}
 		}
-
-		// Check child fields too
-		for _, kid := range field.Kids {
-			if (kid.Ff & 0x2) != 0 {
-				kidName := kid.GetFullName()
-				if _, found := formData[kidName]; !found {
-					errors = append(errors, &ValidationError{
-						FieldName: kidName,
-						Message:   "required field is missing",
-						Value:     nil,
-					})
-				}
-			}
-		}
-	}
+		return true
+	})
 
 	return errors
 }
@@ -233,7 +233,7 @@ func ValidateFieldValue(question *types.Question, value interface{}) error {
 	}
 
 	// Check min length
-	if question.Validation.MinLength != nil && len(valueStr) < *question.Validation.MinLength {
+	if question.Validation.MinLength != nil && utf8.RuneCountInString(valueStr) < *question.Validation.MinLength {
 		return &ValidationError{
 			FieldName: question.Name,
 			Message:   fmt.Sprintf("value is too short (minimum %d characters)", *question.Validation.MinLength),
@@ -242,7 +242,7 @@ func ValidateFieldValue(question *types.Question, value interface{}) error {
 	}
 
 	// Check max length
-	if question.Validation.MaxLength != nil && len(valueStr) > *question.Validation.MaxLength {
+	if question.Validation.MaxLength != nil && utf8.RuneCountInString(valueStr) > *question.Validation.MaxLength {
 		return &ValidationError{
 			FieldName: question.Name,
 			Message:   fmt.Sprintf("value is too long (maximum %d characters)", *question.Validation.MaxLength),
@@ -305,7 +305,8 @@ func ValidateFormSchema(schema *types.FormSchema, formData types.FormData) []err
 	}
 
 	// Validate provided values
-	for fieldName, value := range formData {
+	for _, fieldName := range sortedNames(formData) {
+		value := formData[fieldName]
 		question, found := questionsByName[fieldName]
 		if !found {
 			errors = append(errors, fmt.Errorf("field '%s' not found in schema", fieldName))
-- 
2.43.0


From 4d46103605115b4ada15a324267a15ade52898d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:33 +0000
Subject: [PATCH 56/99] fix: filling a form sets the values and leaves the rest
 of the document whole

---
 core/manipulate/manipulate.go    |  25 ++-
 forms/acroform/fill_streams.go   | 267 +++++++++++++++---------------
 forms/acroform/replace.go        | 117 +++----------
 forms/acroform/stream_finder.go  |  51 ------
 forms/acroform/stream_rebuild.go | 271 +------------------------------
 5 files changed, 183 insertions(+), 548 deletions(-)
 delete mode 100644 forms/acroform/stream_finder.go

diff --git a/core/manipulate/manipulate.go b/core/manipulate/manipulate.go
index ac684f8..0fc7ab6 100644
--- a/core/manipulate/manipulate.go
+++ b/core/manipulate/manipulate.go
@@ -21,10 +21,17 @@ type PDFManipulator struct {
 
 // NewPDFManipulator creates a new PDF manipulator from existing PDF bytes
 func NewPDFManipulator(pdfBytes []byte, password []byte, verbose bool) (*PDFManipulator, error) {
-	pdf, err := parse.OpenWithOptions(pdfBytes, parse.ParseOptions{
+	return NewPDFManipulatorWithOptions(pdfBytes, parse.ParseOptions{
 		Password: password,
 		Verbose:  verbose,
 	})
+}
+
+// NewPDFManipulatorWithOptions creates a new PDF manipulator from existing PDF bytes,
+// which are parsed with the given options
+func NewPDFManipulatorWithOptions(pdfBytes []byte, opts parse.ParseOptions) (*PDFManipulator, error) {
+	verbose := opts.Verbose
+	pdf, err := parse.OpenWithOptions(pdfBytes, opts)
 	if err != nil {
 		return nil, fmt.Errorf("failed to parse PDF: %w", err)
 	}
@@ -60,6 +67,22 @@ func NewPDFManipulator(pdfBytes []byte, password []byte, verbose bool) (*PDFMani
 	}, nil
 }
 
+// PDF returns the parsed PDF, without the modifications
+func (m *PDFManipulator) PDF() *parse.PDF {
+	return m.pdf
+}
+
+// Object returns the content of an object, with the modifications so far
+func (m *PDFManipulator) Object(objNum int) (content []byte, ok bool) {
+	content, ok = m.objects[objNum]
+	return content, ok
+}
+
+// SetObject sets the content of an object
+func (m *PDFManipulator) SetObject(objNum int, content []byte) {
+	m.objects[objNum] = content
+}
+
 // Rebuild rebuilds the PDF with modified objects and returns the new PDF bytes
 func (m *PDFManipulator) Rebuild() ([]byte, error) {
 	return m.rebuildPDF()
diff --git a/forms/acroform/fill_streams.go b/forms/acroform/fill_streams.go
index 154e026..ee9acf9 100644
--- a/forms/acroform/fill_streams.go
+++ b/forms/acroform/fill_streams.go
@@ -2,12 +2,12 @@
 package acroform
 
 import (
-	"bytes"
 	"fmt"
-	"regexp"
 	"strings"
 
+	"github.com/benedoc-inc/pdfer/core/manipulate"
 	"github.com/benedoc-inc/pdfer/core/parse"
+	"github.com/benedoc-inc/pdfer/core/write"
 	"github.com/benedoc-inc/pdfer/types"
 )
 
@@ -17,38 +17,19 @@ func FillFormFieldsWithStreams(pdfBytes []byte, formData types.FormData, passwor
 		return nil, fmt.Errorf("PDF bytes are empty")
 	}
 
-	// Parse PDF to get encryption info and object locations
-	pdf, err := parse.OpenWithOptions(pdfBytes, parse.ParseOptions{
-		Password: password,
-		Verbose:  verbose,
-	})
+	manipulator, err := manipulate.NewPDFManipulator(pdfBytes, password, verbose)
 	if err != nil {
 		return nil, fmt.Errorf("failed to parse PDF: %w", err)
 	}
 
-	var encryptInfo *types.PDFEncryption
-	if pdf.Encryption() != nil {
-		encryptInfo = pdf.Encryption()
-	}
-
 	// Extract AcroForm
-	acroForm, err := ParseAcroForm(pdfBytes, encryptInfo, verbose)
+	acroForm, err := parseAcroForm(manipulator.PDF(), verbose)
 	if err != nil {
 		return nil, fmt.Errorf("failed to parse AcroForm: %w", err)
 	}
 
-	if acroForm == nil {
-		return nil, fmt.Errorf("AcroForm is nil")
-	}
-
-	// Get object locations from parser
-	result := make([]byte, len(pdfBytes))
-	copy(result, pdfBytes)
-
-	// Track updates per stream
-	streamUpdates := make(map[int][]StreamObjectUpdate)
-
-	for fieldName, value := range formData {
+	filled := false
+	for _, fieldName := range sortedNames(formData) {
 		field := acroForm.FindFieldByName(fieldName)
 		if field == nil {
 			if verbose {
@@ -56,142 +37,150 @@ func FillFormFieldsWithStreams(pdfBytes []byte, formData types.FormData, passwor
 			}
 			continue
 		}
-
-		// Check if field is in an object stream by accessing xref
-		// We need to get the object reference from the parser's internal xref
-		// For now, try to get the object and check if it's accessible
-		objData, objErr := pdf.GetObject(field.ObjectNum)
-		if objErr != nil {
-			if verbose {
-				fmt.Printf("Warning: Cannot access object %d: %v, trying direct replacement\n", field.ObjectNum, objErr)
-			}
-			// Try direct replacement
-			var fillErr error
-			result, fillErr = FillFieldValue(result, field, value, encryptInfo, verbose)
-			if fillErr != nil && verbose {
-				fmt.Printf("Warning: Failed to fill field '%s': %v\n", fieldName, fillErr)
-			}
-			continue
+		if err := setFieldValue(manipulator, field, formData[fieldName]); err != nil {
+			return nil, fmt.Errorf("failed to fill field '%s': %w", fieldName, err)
 		}
-
-		// Check if object appears to be from a stream (no "obj" header)
-		checkLen := 50
-		if len(objData) < checkLen {
-			checkLen = len(objData)
+		filled = true
+		if verbose {
+			fmt.Printf("Filled field '%s' with value '%v'\n", fieldName, formData[fieldName])
 		}
-		isInStream := !bytes.Contains(objData[:checkLen], []byte(fmt.Sprintf("%d 0 obj", field.ObjectNum)))
+	}
+	if !filled {
+		return append([]byte(nil), pdfBytes...), nil
+	}
 
-		if isInStream {
-			// Field is in an object stream - prepare update
-			updatedContent, err := updateFieldContent(objData, field, value)
-			if err != nil {
-				if verbose {
-					fmt.Printf("Warning: Failed to update field content: %v\n", err)
-				}
-				continue
-			}
+	result, err := manipulator.Rebuild()
+	if err != nil {
+		return nil, fmt.Errorf("failed to write PDF: %w", err)
+	}
+	return result, nil
+}
 
-			// Find which stream contains this object
-			streamObjNum := findStreamForObject(pdfBytes, field.ObjectNum, encryptInfo, verbose)
-			if streamObjNum > 0 {
-				// Get stream index from xref
-				startXRef := findStartXRef(pdfBytes)
-				var streamIndex int
-				if startXRef >= 0 {
-					xrefResult, err := parse.ParseXRefStreamFull(pdfBytes, int64(startXRef), false)
-					if err == nil {
-						if entry, ok := xrefResult.ObjectStreams[field.ObjectNum]; ok {
-							streamIndex = entry.IndexInStream
-						}
-					}
-				}
+// setFieldValue sets the value of a field, and the state of its widgets if it is a button
+func setFieldValue(m *manipulate.PDFManipulator, field *Field, value interface{}) error {
+	dict, ok := m.Object(field.ObjectNum)
+	if !ok {
+		return fmt.Errorf("field object %d not found", field.ObjectNum)
+	}
+	if field.FT != "Btn" {
+		m.SetObject(field.ObjectNum, setDictValue(dict, "/V", fieldValue(value, field.FT)))
+		return nil
+	}
 
-				// Add to stream updates
-				streamUpdates[streamObjNum] = append(streamUpdates[streamObjNum], StreamObjectUpdate{
-					ObjNum:     field.ObjectNum,
-					Index:      streamIndex,
-					NewContent: updatedContent,
-				})
+	// The widgets of the field are its kids, or the field itself
+	widgets := []int{field.ObjectNum}
+	for _, kid := range field.Kids {
+		if kid.T == "" {
+			widgets = append(widgets, kid.ObjectNum)
+		}
+	}
 
-				if verbose {
-					fmt.Printf("Prepared update for field '%s' (obj %d) in stream %d at index %d\n",
-						fieldName, field.ObjectNum, streamObjNum, streamIndex)
-				}
-			} else {
-				if verbose {
-					fmt.Printf("Warning: Could not find stream for object %d, using direct replacement\n", field.ObjectNum)
+	state := formatFieldValue(value, field.FT)
+	if value == nil {
+		state = "Off"
+	} else if value == true {
+		// The name that a widget has for it
+		for i := len(widgets) - 1; i >= 0; i-- {
+			for _, name := range widgetStates(m, widgets[i]) {
+				if name != "Off" {
+					state = name
+					break
 				}
-				// Fall back to direct replacement
-				var fillErr error
-				result, fillErr = FillFieldValue(result, field, value, encryptInfo, verbose)
-				if fillErr != nil && verbose {
-					fmt.Printf("Warning: Failed to fill field '%s': %v\n", fieldName, fillErr)
-				}
-			}
-		} else {
-			// Direct object - use simple replacement
-			var fillErr error
-			result, fillErr = FillFieldValue(result, field, value, encryptInfo, verbose)
-			if fillErr != nil {
-				if verbose {
-					fmt.Printf("Warning: Failed to fill field '%s': %v\n", fieldName, fillErr)
-				}
-				continue
 			}
 		}
-
-		if verbose {
-			fmt.Printf("Filled field '%s' with value '%v'\n", fieldName, value)
-		}
 	}
 
-	// Rebuild object streams that were modified
-	for streamObjNum, updates := range streamUpdates {
-		if verbose {
-			fmt.Printf("Rebuilding object stream %d with %d updates\n", streamObjNum, len(updates))
+	m.SetObject(field.ObjectNum, setDictValue(dict, "/V", write.Name(state)))
+	for _, objNum := range widgets {
+		widget, ok := m.Object(objNum)
+		if !ok {
+			continue
 		}
-
-		var rebuildErr error
-		result, rebuildErr = RebuildObjectStream(result, streamObjNum, updates, encryptInfo, verbose)
-		if rebuildErr != nil {
-			if verbose {
-				fmt.Printf("Warning: Failed to rebuild object stream %d: %v\n", streamObjNum, rebuildErr)
-			}
-			// Continue with other streams
+		states := widgetStates(m, objNum)
+		if len(states) == 0 {
 			continue
 		}
-
-		if verbose {
-			fmt.Printf("Successfully rebuilt object stream %d\n", streamObjNum)
+		widgetState := "Off"
+		for _, name := range states {
+			if name == state {
+				widgetState = state
+			}
 		}
+		m.SetObject(objNum, setDictValue(widget, "/AS", write.Name(widgetState)))
 	}
+	return nil
+}
 
-	if len(result) == 0 {
-		return nil, fmt.Errorf("result PDF is empty after filling")
+// fieldValue returns the object that stands for the value of a field that is not a button
+func fieldValue(value interface{}, fieldType string) string {
+	var items []interface{}
+	switch v := value.(type) {
+	case nil:
+		return "null"
+	case []string:
+		for _, item := range v {
+			items = append(items, item)
+		}
+	case []interface{}:
+		items = v
+	default:
+		return write.TextString(formatFieldValue(value, fieldType))
 	}
-
-	return result, nil
+	texts := make([]string, len(items))
+	for i, item := range items {
+		texts[i] = write.TextString(formatFieldValue(item, fieldType))
+	}
+	return "[" + strings.Join(texts, " ") + "]"
 }
 
-// updateFieldContent updates field content with new value
-func updateFieldContent(fieldData []byte, field *Field, value interface{}) ([]byte, error) {
-	fieldStr := string(fieldData)
-	valueStr := formatFieldValue(value, field.FT)
-
-	// Replace or add /V entry
-	vPattern := regexp.MustCompile(`/V\s*(?:\([^)]*\)|/[^\s]+|\[[^\]]*\])`)
-	newV := fmt.Sprintf("/V (%s)", escapeFieldValue(valueStr))
+// widgetStates returns the names of the states that a widget has an appearance for
+func widgetStates(m *manipulate.PDFManipulator, objNum int) []string {
+	dict, _ := m.Object(objNum)
+	for _, key := range []string{"/AP", "/N"} {
+		value := []byte(dictValue(string(dict), key))
+		for i := 0; i < 32; i++ {
+			refNum, _, ok := parseReference(string(value))
+			if !ok {
+				break
+			}
+			value, _ = m.Object(refNum)
+		}
+		dict = value
+	}
+	if _, _, isStream := parse.SplitStream(dict); isStream {
+		return nil
+	}
 
-	var newFieldStr string
-	if vPattern.MatchString(fieldStr) {
-		newFieldStr = vPattern.ReplaceAllString(fieldStr, newV)
-	} else {
-		dictEnd := strings.LastIndex(fieldStr, ">>")
-		if dictEnd == -1 {
-			return nil, fmt.Errorf("field dictionary not found")
+	var states []string
+	depth := 0
+	isKey := true
+	for _, token := range parse.Tokens(dict) {
+		switch {
+		case token == "<<" || token == "[":
+			depth++
+		case token == ">>" || token == "]":
+			depth--
+			isKey = true
+		case depth == 1 && token[0] == '/' && isKey:
+			states = append(states, parse.UnescapeName(token[1:]))
+			isKey = false
+		case depth == 1:
+			isKey = true
 		}
-		newFieldStr = fieldStr[:dictEnd] + newV + " " + fieldStr[dictEnd:]
 	}
+	return states
+}
 
-	return []byte(newFieldStr), nil
+// setDictValue returns a dictionary with the value of key set to value
+func setDictValue(dict []byte, key, value string) []byte {
+	start, end, ok := parse.DictValue(dict, key)
+	entry := " " + value
+	if !ok {
+		// Add it at the start of the dictionary
+		_, start = parse.NextToken(dict, 0)
+		end = start
+		entry = " " + key + " " + value + " "
+	}
+	result := append([]byte(nil), dict[:start]...)
+	return append(append(result, entry...), dict[end:]...)
 }
diff --git a/forms/acroform/replace.go b/forms/acroform/replace.go
index 136ce0f..54bffcf 100644
--- a/forms/acroform/replace.go
+++ b/forms/acroform/replace.go
@@ -3,88 +3,49 @@ package acroform
 
 import (
 	"fmt"
-	"regexp"
 	"strconv"
-	"strings"
 
+	"github.com/benedoc-inc/pdfer/core/manipulate"
 	"github.com/benedoc-inc/pdfer/core/parse"
 	"github.com/benedoc-inc/pdfer/types"
 )
 
 // ReplaceFieldObject replaces a field object in a PDF
 func ReplaceFieldObject(pdfBytes []byte, objNum, genNum int, newContent []byte, encryptInfo *types.PDFEncryption, verbose bool) ([]byte, error) {
-	pdfStr := string(pdfBytes)
-
-	// Find the object
-	objPattern := regexp.MustCompile(fmt.Sprintf(`%d\s+%d\s+obj`, objNum, genNum))
-	objMatch := objPattern.FindStringIndex(pdfStr)
-	if objMatch == nil {
-		return nil, fmt.Errorf("object %d %d not found", objNum, genNum)
-	}
-
-	objStart := objMatch[0]
-	objHeaderEnd := objStart + objMatch[1] - objMatch[0]
+	return replaceObjects(pdfBytes, map[int][]byte{objNum: newContent}, encryptInfo, verbose)
+}
 
-	// Find endobj - search from after the header
-	searchStart := objHeaderEnd
-	endObjPattern := regexp.MustCompile(`endobj`)
-	endObjMatches := endObjPattern.FindAllStringIndex(pdfStr[searchStart:], -1)
-	if len(endObjMatches) == 0 {
-		return nil, fmt.Errorf("endobj not found for object %d", objNum)
+// replaceObjects replaces the content of objects of a PDF
+func replaceObjects(pdfBytes []byte, contents map[int][]byte, encryptInfo *types.PDFEncryption, verbose bool) ([]byte, error) {
+	m, err := manipulate.NewPDFManipulatorWithOptions(pdfBytes, parse.ParseOptions{
+		Encryption: encryptInfo,
+		Verbose:    verbose,
+	})
+	if err != nil {
+		return nil, err
 	}
-
-	// Find the first endobj after our object start
-	endObjPos := searchStart + endObjMatches[0][1]
-
-	// Reconstruct: before object + header + new content + endobj + after object
-	before := pdfBytes[:objHeaderEnd]
-	after := pdfBytes[endObjPos:]
-
-	result := make([]byte, 0, len(before)+len(newContent)+len(after)+20)
-	result = append(result, before...)
-	result = append(result, []byte("\n")...)
-	result = append(result, newContent...)
-	result = append(result, []byte("\nendobj\n")...)
-	result = append(result, after...)
-
-	if verbose {
-		oldSize := endObjPos - objHeaderEnd
-		fmt.Printf("Replaced object %d %d: %d bytes -> %d bytes\n", objNum, genNum, oldSize, len(newContent))
+	for objNum, content := range contents {
+		if _, ok := m.Object(objNum); !ok {
+			return nil, fmt.Errorf("object %d not found", objNum)
+		}
+		m.SetObject(objNum, content)
 	}
-
-	return result, nil
+	return m.Rebuild()
 }
 
 // FillFieldValue fills a field with a value by replacing the object
 func FillFieldValue(pdfBytes []byte, field *Field, value interface{}, encryptInfo *types.PDFEncryption, verbose bool) ([]byte, error) {
-	// Get current field object
-	fieldData, err := parse.GetObject(pdfBytes, field.ObjectNum, encryptInfo, false)
+	m, err := manipulate.NewPDFManipulatorWithOptions(pdfBytes, parse.ParseOptions{
+		Encryption: encryptInfo,
+		Verbose:    verbose,
+	})
 	if err != nil {
-		return nil, fmt.Errorf("failed to get field object: %w", err)
+		return nil, err
 	}
-
-	fieldStr := string(fieldData)
-	valueStr := formatFieldValue(value, field.FT)
-
-	// Replace or add /V entry
-	vPattern := regexp.MustCompile(`/V\s*(?:\([^)]*\)|/[^\s]+|\[[^\]]*\])`)
-	newV := fmt.Sprintf("/V (%s)", escapeFieldValue(valueStr))
-
-	var newFieldStr string
-	if vPattern.MatchString(fieldStr) {
-		// Replace existing value
-		newFieldStr = vPattern.ReplaceAllString(fieldStr, newV)
-	} else {
-		// Add new /V entry before the closing >>
-		dictEnd := strings.LastIndex(fieldStr, ">>")
-		if dictEnd == -1 {
-			return nil, fmt.Errorf("field dictionary not found")
-		}
-		newFieldStr = fieldStr[:dictEnd] + newV + " " + fieldStr[dictEnd:]
+	if err := setFieldValue(m, field, value); err != nil {
+		return nil, err
 	}
-
-	// Replace the object
-	return ReplaceFieldObject(pdfBytes, field.ObjectNum, field.Generation, []byte(newFieldStr), encryptInfo, verbose)
+	return m.Rebuild()
 }
 
 // formatFieldValue formats a value for PDF based on field type
@@ -110,34 +71,6 @@ func formatFieldValue(value interface{}, fieldType string) string {
 	}
 }
 
-// escapeFieldValue escapes special characters in field values
-func escapeFieldValue(s string) string {
-	var result strings.Builder
-	for _, r := range s {
-		switch r {
-		case '\\':
-			result.WriteString("\\\\")
-		case '(':
-			result.WriteString("\\(")
-		case ')':
-			result.WriteString("\\)")
-		case '\n':
-			result.WriteString("\\n")
-		case '\r':
-			result.WriteString("\\r")
-		case '\t':
-			result.WriteString("\\t")
-		default:
-			if r > 127 {
-				result.WriteString(fmt.Sprintf("\\%03o", r))
-			} else {
-				result.WriteRune(r)
-			}
-		}
-	}
-	return result.String()
-}
-
 // FillFormFields fills multiple fields in a PDF
 // This function attempts to handle both direct objects and object streams
 func FillFormFields(pdfBytes []byte, formData types.FormData, password []byte, verbose bool) ([]byte, error) {
diff --git a/forms/acroform/stream_finder.go b/forms/acroform/stream_finder.go
deleted file mode 100644
index 3736498..0000000
--- a/forms/acroform/stream_finder.go
+++ /dev/null
@@ -1,51 +0,0 @@
-// Package acroform provides utilities to find object streams
-package acroform
-
-import (
-	"regexp"
-	"strconv"
-
-	"github.com/benedoc-inc/pdfer/core/parse"
-	"github.com/benedoc-inc/pdfer/types"
-)
-
-// findStreamForObject finds which object stream contains a given object
-func findStreamForObject(pdfBytes []byte, objNum int, encryptInfo *types.PDFEncryption, verbose bool) int {
-	// Parse xref to find object stream info
-	startXRef := findStartXRef(pdfBytes)
-	if startXRef < 0 {
-		return 0
-	}
-
-	xrefResult, err := parse.ParseXRefStreamFull(pdfBytes, int64(startXRef), false)
-	if err != nil {
-		return 0
-	}
-
-	// Check if object is in a stream
-	if entry, ok := xrefResult.ObjectStreams[objNum]; ok {
-		return entry.StreamObjNum
-	}
-
-	return 0
-}
-
-// findStartXRef finds the startxref position
-func findStartXRef(pdfBytes []byte) int64 {
-	// Search from end
-	searchLen := 1024
-	if len(pdfBytes) < searchLen {
-		searchLen = len(pdfBytes)
-	}
-
-	tail := pdfBytes[len(pdfBytes)-searchLen:]
-	pattern := regexp.MustCompile(`startxref\s+(\d+)`)
-	match := pattern.FindSubmatch(tail)
-	if match != nil {
-		val, err := strconv.ParseInt(string(match[1]), 10, 64)
-		if err == nil {
-			return val
-		}
-	}
-	return -1
-}
diff --git a/forms/acroform/stream_rebuild.go b/forms/acroform/stream_rebuild.go
index c07a6c8..ce14d72 100644
--- a/forms/acroform/stream_rebuild.go
+++ b/forms/acroform/stream_rebuild.go
@@ -2,15 +2,6 @@
 package acroform
 
 import (
-	"bytes"
-	"compress/zlib"
-	"fmt"
-	"regexp"
-	"strconv"
-	"strings"
-
-	"github.com/benedoc-inc/pdfer/core/encrypt"
-	"github.com/benedoc-inc/pdfer/core/parse"
 	"github.com/benedoc-inc/pdfer/types"
 )
 
@@ -21,262 +12,12 @@ type StreamObjectUpdate struct {
 	NewContent []byte
 }
 
-// RebuildObjectStream rebuilds an object stream with updated objects
+// RebuildObjectStream replaces objects of an object stream. The objects of the result are
+// not in a stream.
 func RebuildObjectStream(pdfBytes []byte, streamObjNum int, updates []StreamObjectUpdate, encryptInfo *types.PDFEncryption, verbose bool) ([]byte, error) {
-	// Get the object stream
-	streamObjData, err := parse.GetObject(pdfBytes, streamObjNum, encryptInfo, false)
-	if err != nil {
-		return nil, fmt.Errorf("failed to get object stream %d: %w", streamObjNum, err)
-	}
-
-	// Find the object stream in the PDF
-	pdfStr := string(pdfBytes)
-	streamPattern := regexp.MustCompile(fmt.Sprintf(`%d\s+0\s+obj`, streamObjNum))
-	streamMatch := streamPattern.FindStringIndex(pdfStr)
-	if streamMatch == nil {
-		return nil, fmt.Errorf("object stream %d not found", streamObjNum)
-	}
-
-	streamStart := streamMatch[0]
-
-	// Parse the object stream to extract all objects
-	streamDict, streamData, err := parseObjectStream(streamObjData, encryptInfo, verbose)
-	if err != nil {
-		return nil, fmt.Errorf("failed to parse object stream: %w", err)
-	}
-
-	// Create update map
-	updateMap := make(map[int]*StreamObjectUpdate)
-	for i := range updates {
-		updateMap[updates[i].ObjNum] = &updates[i]
-	}
-
-	// Rebuild stream with updates
-	newStreamData, newHeader, err := rebuildStreamContent(streamDict, streamData, updateMap, verbose)
-	if err != nil {
-		return nil, fmt.Errorf("failed to rebuild stream content: %w", err)
-	}
-
-	// Compress the new stream
-	var compressed bytes.Buffer
-	zw := zlib.NewWriter(&compressed)
-	zw.Write(newStreamData)
-	zw.Close()
-
-	// Update /First to point to new header length
-	newFirst := len(newHeader)
-	streamDict["/First"] = newFirst
-	streamDict["/Length"] = len(compressed.Bytes())
-
-	// Rebuild object stream dictionary
-	newDictStr := formatStreamDict(streamDict)
-
-	// Find stream boundaries in PDF
-	dictEnd := bytes.Index(pdfBytes[streamStart:], []byte("stream"))
-	if dictEnd == -1 {
-		return nil, fmt.Errorf("stream keyword not found")
-	}
-	dictEnd += streamStart
-
-	// Find endstream
-	endstreamPos := bytes.Index(pdfBytes[dictEnd:], []byte("endstream"))
-	if endstreamPos == -1 {
-		return nil, fmt.Errorf("endstream not found")
-	}
-	streamEnd := dictEnd + endstreamPos + 9
-
-	// Reconstruct PDF
-	before := pdfBytes[:streamStart]
-	after := pdfBytes[streamEnd:]
-
-	result := make([]byte, 0, len(before)+len(newDictStr)+len(compressed.Bytes())+len(after)+50)
-	result = append(result, before...)
-	result = append(result, []byte(fmt.Sprintf("%d 0 obj\n", streamObjNum))...)
-	result = append(result, []byte(newDictStr)...)
-	result = append(result, []byte("\nstream\n")...)
-	result = append(result, compressed.Bytes()...)
-	result = append(result, []byte("\nendstream\nendobj\n")...)
-	result = append(result, after...)
-
-	if verbose {
-		fmt.Printf("Rebuilt object stream %d: %d objects, %d bytes compressed\n", streamObjNum, streamDict["/N"], len(compressed.Bytes()))
-	}
-
-	return result, nil
-}
-
-// parseObjectStream parses an object stream to extract dictionary and decompressed data
-func parseObjectStream(streamObjData []byte, encryptInfo *types.PDFEncryption, verbose bool) (map[string]interface{}, []byte, error) {
-	// Find dictionary
-	dictStart := bytes.Index(streamObjData, []byte("<<"))
-	if dictStart == -1 {
-		return nil, nil, fmt.Errorf("dictionary not found")
-	}
-
-	dictEnd := bytes.Index(streamObjData[dictStart:], []byte(">>"))
-	if dictEnd == -1 {
-		return nil, nil, fmt.Errorf("dictionary end not found")
-	}
-	dictEnd += dictStart + 2
-
-	dictStr := string(streamObjData[dictStart:dictEnd])
-	dict := parseStreamDict(dictStr)
-
-	// Find stream data
-	streamKeyword := bytes.Index(streamObjData[dictEnd:], []byte("stream"))
-	if streamKeyword == -1 {
-		return nil, nil, fmt.Errorf("stream keyword not found")
-	}
-
-	streamDataStart := dictEnd + streamKeyword + 6
-	// Skip EOL
-	if streamDataStart < len(streamObjData) && (streamObjData[streamDataStart] == '\r' || streamObjData[streamDataStart] == '\n') {
-		streamDataStart++
-	}
-	if streamDataStart < len(streamObjData) && streamObjData[streamDataStart] == '\n' {
-		streamDataStart++
-	}
-
-	// Get stream length
-	length, ok := dict["/Length"].(int)
-	if !ok {
-		return nil, nil, fmt.Errorf("/Length not found or invalid")
-	}
-
-	streamData := streamObjData[streamDataStart : streamDataStart+length]
-
-	// Decrypt if needed
-	if encryptInfo != nil {
-		decrypted, err := encrypt.DecryptObject(streamData, 0, 0, encryptInfo)
-		if err != nil {
-			return nil, nil, fmt.Errorf("failed to decrypt stream: %w", err)
-		}
-		streamData = decrypted
-	}
-
-	// Decompress
-	var decompressed bytes.Buffer
-	zr, err := zlib.NewReader(bytes.NewReader(streamData))
-	if err != nil {
-		return nil, nil, fmt.Errorf("failed to create zlib reader: %w", err)
-	}
-	decompressed.ReadFrom(zr)
-	zr.Close()
-
-	return dict, decompressed.Bytes(), nil
-}
-
-// parseStreamDict parses a stream dictionary string
-func parseStreamDict(dictStr string) map[string]interface{} {
-	dict := make(map[string]interface{})
-
-	// Extract /N
-	if nMatch := regexp.MustCompile(`/N\s+(\d+)`).FindStringSubmatch(dictStr); nMatch != nil {
-		if n, err := strconv.Atoi(nMatch[1]); err == nil {
-			dict["/N"] = n
-		}
-	}
-
-	// Extract /First
-	if firstMatch := regexp.MustCompile(`/First\s+(\d+)`).FindStringSubmatch(dictStr); firstMatch != nil {
-		if first, err := strconv.Atoi(firstMatch[1]); err == nil {
-			dict["/First"] = first
-		}
-	}
-
-	// Extract /Length
-	if lenMatch := regexp.MustCompile(`/Length\s+(\d+)`).FindStringSubmatch(dictStr); lenMatch != nil {
-		if length, err := strconv.Atoi(lenMatch[1]); err == nil {
-			dict["/Length"] = length
-		}
+	contents := make(map[int][]byte)
+	for _, update := range updates {
+		contents[update.ObjNum] = update.NewContent
 	}
-
-	return dict
-}
-
-// rebuildStreamContent rebuilds stream content with updated objects
-func rebuildStreamContent(streamDict map[string]interface{}, streamData []byte, updates map[int]*StreamObjectUpdate, verbose bool) ([]byte, []byte, error) {
-	n, ok := streamDict["/N"].(int)
-	if !ok {
-		return nil, nil, fmt.Errorf("/N not found in stream dict")
-	}
-
-	first, ok := streamDict["/First"].(int)
-	if !ok {
-		return nil, nil, fmt.Errorf("/First not found in stream dict")
-	}
-
-	// Parse header
-	headerData := streamData[:first]
-	headerStr := string(headerData)
-	fields := strings.Fields(headerStr)
-
-	type objEntry struct {
-		objNum int
-		offset int
-	}
-	entries := make([]objEntry, 0, n)
-
-	for i := 0; i < len(fields)-1 && len(entries) < n; i += 2 {
-		on, _ := strconv.Atoi(fields[i])
-		off, _ := strconv.Atoi(fields[i+1])
-		entries = append(entries, objEntry{objNum: on, offset: off})
-	}
-
-	// Extract all objects
-	objects := make(map[int][]byte)
-	for i, entry := range entries {
-		objStart := first + entry.offset
-		var objEnd int
-		if i < len(entries)-1 {
-			objEnd = first + entries[i+1].offset
-		} else {
-			objEnd = len(streamData)
-		}
-
-		objData := streamData[objStart:objEnd]
-		objData = bytes.TrimRight(objData, " \t\r\n")
-		objects[entry.objNum] = objData
-	}
-
-	// Apply updates
-	for objNum, update := range updates {
-		objects[objNum] = update.NewContent
-	}
-
-	// Rebuild stream
-	var newStream bytes.Buffer
-	var newHeader bytes.Buffer
-
-	offset := 0
-	for _, entry := range entries {
-		objData := objects[entry.objNum]
-		newHeader.WriteString(fmt.Sprintf("%d %d ", entry.objNum, offset))
-		newStream.Write(objData)
-		newStream.WriteByte('\n')
-		offset += len(objData) + 1
-	}
-
-	return newStream.Bytes(), newHeader.Bytes(), nil
-}
-
-// formatStreamDict formats a stream dictionary
-func formatStreamDict(dict map[string]interface{}) string {
-	var buf strings.Builder
-	buf.WriteString("<<")
-
-	if n, ok := dict["/N"].(int); ok {
-		buf.WriteString(fmt.Sprintf(" /N %d", n))
-	}
-
-	if first, ok := dict["/First"].(int); ok {
-		buf.WriteString(fmt.Sprintf(" /First %d", first))
-	}
-
-	if length, ok := dict["/Length"].(int); ok {
-		buf.WriteString(fmt.Sprintf(" /Length %d", length))
-	}
-
-	buf.WriteString(" >>")
-	return buf.String()
+	return replaceObjects(pdfBytes, contents, encryptInfo, verbose)
 }
-- 
2.43.0


From bd5b43f23742f29fa6be90c8fd35de73d1def7ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:33 +0000
Subject: [PATCH 57/99] fix: flattening a form removes it in any layout of the
 file

---
 forms/acroform/flatten.go | 62 +++++++++++++++++++++------------------
 1 file changed, 33 insertions(+), 29 deletions(-)

diff --git a/forms/acroform/flatten.go b/forms/acroform/flatten.go
index c0dbde9..c2cdb1b 100644
--- a/forms/acroform/flatten.go
+++ b/forms/acroform/flatten.go
@@ -6,61 +6,46 @@ import (
 	"regexp"
 	"strconv"
 
+	"github.com/benedoc-inc/pdfer/core/manipulate"
 	"github.com/benedoc-inc/pdfer/core/parse"
 	"github.com/benedoc-inc/pdfer/types"
-	"github.com/benedoc-inc/pdfer/core/write"
 )
 
 // FlattenForm converts form fields to static content (removes interactivity)
 // This creates a new PDF with form fields rendered as regular text/graphics
 func FlattenForm(pdfBytes []byte, password []byte, verbose bool) ([]byte, error) {
-	// Parse PDF
-	pdf, err := parse.OpenWithOptions(pdfBytes, parse.ParseOptions{
-		Password: password,
-		Verbose:  verbose,
-	})
+	manipulator, err := manipulate.NewPDFManipulator(pdfBytes, password, verbose)
 	if err != nil {
 		return nil, fmt.Errorf("failed to parse PDF: %w", err)
 	}
 
-	var encryptInfo *types.PDFEncryption
-	if pdf.Encryption() != nil {
-		encryptInfo = pdf.Encryption()
-	}
-
 	// Extract AcroForm
-	acroForm, err := ParseAcroForm(pdfBytes, encryptInfo, verbose)
+	acroForm, err := parseAcroForm(manipulator.PDF(), verbose)
 	if err != nil {
 		return nil, fmt.Errorf("failed to parse AcroForm: %w", err)
 	}
 
-	// Create new PDF writer
-	w := write.NewPDFWriter()
-	w.SetVersion(pdf.Version())
-
-	// For each field, we need to:
-	// 1. Get the field's appearance stream (if it exists)
-	// 2. Add it to the page content
-	// 3. Remove the field from AcroForm
-
 	// This is a simplified version - full flattening would:
 	// - Extract appearance streams (/AP dictionary)
 	// - Convert them to page content
-	// - Remove /AcroForm from catalog
 	// - Remove field annotations from pages
 
 	if verbose {
 		fmt.Printf("Flattening %d form fields\n", len(acroForm.Fields))
 	}
 
-	// For now, return a copy with AcroForm reference removed from catalog
-	// Full implementation would require page-level annotation removal
-	result := make([]byte, len(pdfBytes))
-	copy(result, pdfBytes)
+	// Remove the AcroForm from the catalog
+	rootNum, _, _ := parseReference(manipulator.PDF().Trailer().RootRef)
+	catalog, ok := manipulator.Object(rootNum)
+	if !ok {
+		return nil, fmt.Errorf("catalog not found")
+	}
+	manipulator.SetObject(rootNum, removeDictEntry(catalog, "/AcroForm"))
 
-	// Remove AcroForm reference from catalog (simplified)
-	catalogPattern := regexp.MustCompile(`/AcroForm\s+\d+\s+\d+\s+R`)
-	result = catalogPattern.ReplaceAll(result, []byte(""))
+	result, err := manipulator.Rebuild()
+	if err != nil {
+		return nil, fmt.Errorf("failed to write PDF: %w", err)
+	}
 
 	if verbose {
 		fmt.Println("Form flattened (AcroForm reference removed)")
@@ -69,6 +54,25 @@ func FlattenForm(pdfBytes []byte, password []byte, verbose bool) ([]byte, error)
 	return result, nil
 }
 
+// removeDictEntry returns a dictionary without the entry that key has in it
+func removeDictEntry(dict []byte, key string) []byte {
+	start, end, ok := parse.DictValue(dict, key)
+	if !ok {
+		return dict
+	}
+	// The key is the last token before its value
+	keyStart := start
+	for pos := 0; ; {
+		token, next := parse.NextToken(dict, pos)
+		if token == "" || next > start {
+			break
+		}
+		keyStart = next - len(token)
+		pos = next
+	}
+	return append(append([]byte(nil), dict[:keyStart]...), dict[end:]...)
+}
+
 // FlattenField converts a single field to static content
 func FlattenField(pdfBytes []byte, field *Field, encryptInfo *types.PDFEncryption, verbose bool) ([]byte, error) {
 	// Get field object
-- 
2.43.0


From 1c458643faefcf7f0e085249398e0d11a4ea4143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:33 +0000
Subject: [PATCH 58/99] fix: strings of created form fields are encoded as text

---
 forms/acroform/actions.go | 36 ++++------------------------
 forms/acroform/writer.go  | 50 ++++++++++-----------------------------
 2 files changed, 17 insertions(+), 69 deletions(-)

diff --git a/forms/acroform/actions.go b/forms/acroform/actions.go
index ed89333..430e891 100644
--- a/forms/acroform/actions.go
+++ b/forms/acroform/actions.go
@@ -43,9 +43,9 @@ func AddActionToField(fieldObjNum int, action *Action, w *write.PDFWriter) error
 	var actionDict string
 	switch action.Type {
 	case ActionTypeURI:
-		actionDict = fmt.Sprintf("<< /Type /Action /S /URI /URI (%s) >>", escapeActionString(action.URI))
+		actionDict = fmt.Sprintf("<< /Type /Action /S /URI /URI %s >>", write.TextString(action.URI))
 	case ActionTypeJavaScript:
-		actionDict = fmt.Sprintf("<< /Type /Action /S /JavaScript /JS (%s) >>", escapeActionString(action.JavaScript))
+		actionDict = fmt.Sprintf("<< /Type /Action /S /JavaScript /JS %s >>", write.TextString(action.JavaScript))
 	case ActionTypeGoTo:
 		if action.Destination != "" {
 			actionDict = fmt.Sprintf("<< /Type /Action /S /GoTo /D %s >>", action.Destination)
@@ -104,9 +104,9 @@ func AddMouseAction(fieldObjNum int, event string, action *Action, w *write.PDFW
 	var actionDict string
 	switch action.Type {
 	case ActionTypeURI:
-		actionDict = fmt.Sprintf("<< /Type /Action /S /URI /URI (%s) >>", escapeActionString(action.URI))
+		actionDict = fmt.Sprintf("<< /Type /Action /S /URI /URI %s >>", write.TextString(action.URI))
 	case ActionTypeJavaScript:
-		actionDict = fmt.Sprintf("<< /Type /Action /S /JavaScript /JS (%s) >>", escapeActionString(action.JavaScript))
+		actionDict = fmt.Sprintf("<< /Type /Action /S /JavaScript /JS %s >>", write.TextString(action.JavaScript))
 	default:
 		return fmt.Errorf("unsupported action type for mouse event: %s", action.Type)
 	}
@@ -146,31 +146,3 @@ func AddMouseAction(fieldObjNum int, event string, action *Action, w *write.PDFW
 	w.SetObject(fieldObjNum, []byte(fieldStr))
 	return nil
 }
-
-// escapeActionString escapes strings for action dictionaries
-func escapeActionString(s string) string {
-	var result strings.Builder
-	for _, r := range s {
-		switch r {
-		case '\\':
-			result.WriteString("\\\\")
-		case '(':
-			result.WriteString("\\(")
-		case ')':
-			result.WriteString("\\)")
-		case '\n':
-			result.WriteString("\\n")
-		case '\r':
-			result.WriteString("\\r")
-		case '\t':
-			result.WriteString("\\t")
-		default:
-			if r > 127 {
-				result.WriteString(fmt.Sprintf("\\%03o", r))
-			} else {
-				result.WriteRune(r)
-			}
-		}
-	}
-	return result.String()
-}
diff --git a/forms/acroform/writer.go b/forms/acroform/writer.go
index b19b7cf..0a6cdc3 100644
--- a/forms/acroform/writer.go
+++ b/forms/acroform/writer.go
@@ -173,7 +173,7 @@ func (fb *FieldBuilder) createFieldObject(field *FieldDef) int {
 
 	// Field name
 	if field.Name != "" {
-		dict.WriteString(fmt.Sprintf(" /T (%s)", escapeFieldName(field.Name)))
+		dict.WriteString(fmt.Sprintf(" /T %s", write.TextString(field.Name)))
 	}
 
 	// Rectangle
@@ -190,13 +190,13 @@ func (fb *FieldBuilder) createFieldObject(field *FieldDef) int {
 	// Value
 	if field.Value != nil {
 		valueStr := formatFieldValueForWriter(field.Value, field.Type)
-		dict.WriteString(fmt.Sprintf(" /V (%s)", escapeFieldValueForWriter(valueStr)))
+		dict.WriteString(fmt.Sprintf(" /V %s", formatFieldObject(valueStr, field.Type)))
 	}
 
 	// Default value
 	if field.DefaultValue != nil {
 		valueStr := formatFieldValueForWriter(field.DefaultValue, field.Type)
-		dict.WriteString(fmt.Sprintf(" /DV (%s)", escapeFieldValueForWriter(valueStr)))
+		dict.WriteString(fmt.Sprintf(" /DV %s", formatFieldObject(valueStr, field.Type)))
 	}
 
 	// Maximum length
@@ -211,7 +211,7 @@ func (fb *FieldBuilder) createFieldObject(field *FieldDef) int {
 			if i > 0 {
 				dict.WriteString(" ")
 			}
-			dict.WriteString(fmt.Sprintf("(%s)", escapeFieldValue(opt)))
+			dict.WriteString(write.TextString(opt))
 		}
 		dict.WriteString("]")
 	}
@@ -224,6 +224,15 @@ func (fb *FieldBuilder) createFieldObject(field *FieldDef) int {
 	return fb.writer.AddObject([]byte(dict.String()))
 }
 
+// formatFieldObject returns the object that stands for a value: a name for the state of a
+// button, or else text
+func formatFieldObject(value, fieldType string) string {
+	if fieldType == "Btn" {
+		return write.Name(value)
+	}
+	return write.TextString(value)
+}
+
 // formatFieldValueForWriter formats a value for PDF writing
 func formatFieldValueForWriter(value interface{}, fieldType string) string {
 	switch v := value.(type) {
@@ -246,39 +255,6 @@ func formatFieldValueForWriter(value interface{}, fieldType string) string {
 	}
 }
 
-// escapeFieldName escapes special characters in field names
-func escapeFieldName(s string) string {
-	return escapeFieldValueForWriter(s)
-}
-
-// escapeFieldValueForWriter escapes special characters in field values
-func escapeFieldValueForWriter(s string) string {
-	var result strings.Builder
-	for _, r := range s {
-		switch r {
-		case '\\':
-			result.WriteString("\\\\")
-		case '(':
-			result.WriteString("\\(")
-		case ')':
-			result.WriteString("\\)")
-		case '\n':
-			result.WriteString("\\n")
-		case '\r':
-			result.WriteString("\\r")
-		case '\t':
-			result.WriteString("\\t")
-		default:
-			if r > 127 {
-				result.WriteString(fmt.Sprintf("\\%03o", r))
-			} else {
-				result.WriteRune(r)
-			}
-		}
-	}
-	return result.String()
-}
-
 // AddAcroFormToCatalog adds AcroForm reference to catalog
 func AddAcroFormToCatalog(w *write.PDFWriter, catalogNum, acroFormNum int) error {
 	// Get existing catalog
-- 
2.43.0


From 604165881d6e5734cf881d492dad1c414e97b318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:17 +0000
Subject: [PATCH 59/99] fix: kinds of buttons are told apart by the flags they
 have in PDF

---
 forms/acroform/parser.go     | 18 ++++++++++++------
 forms/acroform/validation.go | 12 +-----------
 forms/acroform/writer.go     | 20 ++++++++++----------
 3 files changed, 23 insertions(+), 27 deletions(-)

diff --git a/forms/acroform/parser.go b/forms/acroform/parser.go
index 636d98b..8b407d9 100644
--- a/forms/acroform/parser.go
+++ b/forms/acroform/parser.go
@@ -428,21 +428,27 @@ func mapFieldType(ft string) types.ResponseType {
 	}
 }
 
+// Field flags that tell what kind of button a field is, which is a checkbox without them
+const (
+	flagRadio      = 0x8000
+	flagPushbutton = 0x10000
+)
+
 // mapFieldTypeWithFlags maps field type using flags to distinguish checkboxes from buttons
 func mapFieldTypeWithFlags(ft string, flags int) types.ResponseType {
 	switch ft {
 	case "Tx":
 		return types.ResponseTypeText
 	case "Btn":
-		// Checkbox flag is 0x8000 (bit 15)
-		if (flags & 0x8000) != 0 {
-			return types.ResponseTypeCheckbox
+		// Pushbutton flag is 0x10000 (bit 17)
+		if (flags & flagPushbutton) != 0 {
+			return types.ResponseTypeButton
 		}
-		// Radio button flag is 0x10000 (bit 16)
-		if (flags & 0x10000) != 0 {
+		// Radio button flag is 0x8000 (bit 16)
+		if (flags & flagRadio) != 0 {
 			return types.ResponseTypeRadio
 		}
-		return types.ResponseTypeButton
+		return types.ResponseTypeCheckbox
 	case "Ch":
 		// Combo box flag is 0x20000 (bit 17)
 		if (flags & 0x20000) != 0 {
diff --git a/forms/acroform/validation.go b/forms/acroform/validation.go
index 55f0625..c5bee5b 100644
--- a/forms/acroform/validation.go
+++ b/forms/acroform/validation.go
@@ -88,18 +88,8 @@ func validateTextField(field *Field, value interface{}) error {
 
 // validateButtonField validates a button field (checkbox/radio/button)
 func validateButtonField(field *Field, value interface{}) error {
-	// Checkbox validation
-	if (field.Ff & 0x8000) != 0 { // Checkbox flag
-		// Checkbox values are typically "Yes", "On", "Off", or appearance state names
-		valueStr := fmt.Sprintf("%v", value)
-		if valueStr != "Yes" && valueStr != "On" && valueStr != "Off" && valueStr != "No" {
-			// Allow custom appearance state names
-			return nil
-		}
-	}
-
 	// Radio button validation
-	if (field.Ff & 0x10000) != 0 { // Radio button flag
+	if mapFieldTypeWithFlags(field.FT, field.Ff) == types.ResponseTypeRadio {
 		// Radio buttons should match one of the option values
 		if len(field.Opt) > 0 {
 			valueStr := fmt.Sprintf("%v", value)
diff --git a/forms/acroform/writer.go b/forms/acroform/writer.go
index 0a6cdc3..c3c053a 100644
--- a/forms/acroform/writer.go
+++ b/forms/acroform/writer.go
@@ -54,11 +54,10 @@ func (fb *FieldBuilder) AddTextField(name string, rect []float64, page int) *Fie
 // AddCheckbox adds a checkbox field
 func (fb *FieldBuilder) AddCheckbox(name string, rect []float64, page int) *FieldDef {
 	field := &FieldDef{
-		Name:  name,
-		Type:  "Btn",
-		Rect:  rect,
-		Page:  page,
-		Flags: 0x8000, // Checkbox flag
+		Name: name,
+		Type: "Btn",
+		Rect: rect,
+		Page: page,
 	}
 	fb.fields = append(fb.fields, field)
 	return field
@@ -71,7 +70,7 @@ func (fb *FieldBuilder) AddRadioButton(name string, rect []float64, page int) *F
 		Type:  "Btn",
 		Rect:  rect,
 		Page:  page,
-		Flags: 0x10000, // Radio button flag
+		Flags: flagRadio,
 	}
 	fb.fields = append(fb.fields, field)
 	return field
@@ -93,10 +92,11 @@ func (fb *FieldBuilder) AddChoiceField(name string, rect []float64, page int, op
 // AddButton adds a push button
 func (fb *FieldBuilder) AddButton(name string, rect []float64, page int) *FieldDef {
 	field := &FieldDef{
-		Name: name,
-		Type: "Btn",
-		Rect: rect,
-		Page: page,
+		Name:  name,
+		Type:  "Btn",
+		Rect:  rect,
+		Page:  page,
+		Flags: flagPushbutton,
 	}
 	fb.fields = append(fb.fields, field)
 	return field
-- 
2.43.0


From ff15fca6fbd46c025a2645becaf466ecde6a0d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:18 +0000
Subject: [PATCH 60/99] fix: a null entry of a form field is the same as none

---
 forms/acroform/parser.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/forms/acroform/parser.go b/forms/acroform/parser.go
index 8b407d9..895f553 100644
--- a/forms/acroform/parser.go
+++ b/forms/acroform/parser.go
@@ -79,7 +79,7 @@ func parseAcroForm(pdf *parse.PDF, verbose bool) (*AcroForm, error) {
 	}
 
 	// Check for XFA (hybrid form)
-	if xfa := r.entry(dict, "/XFA"); xfa != "" && xfa != "null" {
+	if r.entry(dict, "/XFA") != "" {
 		acroForm.XFA = true
 		if verbose {
 			fmt.Println("Found XFA in AcroForm (hybrid form)")
@@ -131,7 +131,11 @@ func (r *formReader) resolve(value string) string {
 
 // entry returns the value that key has in a dictionary, or "" if there is none
 func (r *formReader) entry(dict, key string) string {
-	return r.resolve(dictValue(dict, key))
+	value := r.resolve(dictValue(dict, key))
+	if value == "null" {
+		return ""
+	}
+	return value
 }
 
 // fields reads the fields that an array refers to. What they do not have themselves is
@@ -189,10 +193,10 @@ func (r *formReader) field(objNum, genNum int, dict string, parent *Field, depth
 	r.number(dict, "/Q", &field.Q)
 	r.number(dict, "/MaxLen", &field.MaxLen)
 	r.number(dict, "/TI", &field.TI)
-	if v := dictValue(dict, "/V"); v != "" {
+	if v := r.entry(dict, "/V"); v != "" {
 		field.V = r.value(v, 0)
 	}
-	if dv := dictValue(dict, "/DV"); dv != "" {
+	if dv := r.entry(dict, "/DV"); dv != "" {
 		field.DV = r.value(dv, 0)
 	}
 	if da := r.entry(dict, "/DA"); da != "" {
-- 
2.43.0


From 91e8119661f80e7ab8e8a795465354d6dc008313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:19 +0000
Subject: [PATCH 61/99] fix: the values of a choice field are validated one by
 one

---
 forms/acroform/validation.go | 41 ++++++++++++++++++++++++------------
 1 file changed, 27 insertions(+), 14 deletions(-)

diff --git a/forms/acroform/validation.go b/forms/acroform/validation.go
index c5bee5b..c9897be 100644
--- a/forms/acroform/validation.go
+++ b/forms/acroform/validation.go
@@ -119,23 +119,36 @@ func validateChoiceField(field *Field, value interface{}) error {
 		return nil // No options to validate against
 	}
 
-	valueStr := fmt.Sprintf("%v", value)
-
-	// Check if value is in options
-	found := false
-	for _, opt := range field.Opt {
-		optStr, _ := optionText(opt)
-		if optStr == valueStr {
-			found = true
-			break
+	// A choice field can have several values
+	values := []interface{}{value}
+	switch v := value.(type) {
+	case []string:
+		values = nil
+		for _, item := range v {
+			values = append(values, item)
 		}
+	case []interface{}:
+		values = v
 	}
 
-	if !found {
-		return &ValidationError{
-			FieldName: field.GetFullName(),
-			Message:   "value is not in the list of valid options",
-			Value:     value,
+	// Check if the values are in options
+	for _, item := range values {
+		valueStr := fmt.Sprintf("%v", item)
+		found := false
+		for _, opt := range field.Opt {
+			optStr, _ := optionText(opt)
+			if optStr == valueStr {
+				found = true
+				break
+			}
+		}
+
+		if !found {
+			return &ValidationError{
+				FieldName: field.GetFullName(),
+				Message:   "value is not in the list of valid options",
+				Value:     value,
+			}
 		}
 	}
 
-- 
2.43.0


From 1a9aae8c673f3124ac610e99ce690b93d4c466fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:12 +0000
Subject: [PATCH 62/99] fix: XFA streams are found through the catalog, and
 replacing one keeps the rest of the document whole

---
 content/extract/images.go       |   2 +-
 content/extract/resources.go    |  39 +-
 core/parse/xfa_streams.go       | 149 ++++++
 core/write/xfa_builder.go       | 442 ++++--------------
 forms/xfa/parse_then_decrypt.go | 211 ---------
 forms/xfa/xfa.go                | 455 +++++++------------
 forms/xfa/xfa_utils.go          | 771 +-------------------------------
 7 files changed, 422 insertions(+), 1647 deletions(-)
 create mode 100644 core/parse/xfa_streams.go
 delete mode 100644 forms/xfa/parse_then_decrypt.go

diff --git a/content/extract/images.go b/content/extract/images.go
index abbd22b..cee7c6e 100644
--- a/content/extract/images.go
+++ b/content/extract/images.go
@@ -74,7 +74,7 @@ func extractImageData(imageObjNum int, pdf *parse.PDF, verbose bool) (*types.Ima
 		if len(streamData) > 0 {
 			// Decompress if needed. The data of filters for images (JPEG, for example) is
 			// returned as it is.
-			streamData, err = decodeStream(string(dict), streamData, pdf)
+			streamData, err = pdf.DecodeStream(string(dict), streamData)
 			if err != nil && verbose {
 				fmt.Printf("Warning: failed to decode image: %v\n", err)
 			}
diff --git a/content/extract/resources.go b/content/extract/resources.go
index 7ffe993..aea914d 100644
--- a/content/extract/resources.go
+++ b/content/extract/resources.go
@@ -342,7 +342,7 @@ func extractStreamData(objNum int, pdf *parse.PDF, verbose bool) string {
 	if !ok {
 		return ""
 	}
-	decoded, err := decodeStream(string(dict), data, pdf)
+	decoded, err := pdf.DecodeStream(string(dict), data)
 	if err != nil {
 		if verbose {
 			fmt.Printf("Warning: failed to decode stream %d: %v\n", objNum, err)
@@ -351,43 +351,6 @@ func extractStreamData(objNum int, pdf *parse.PDF, verbose bool) string {
 	return string(decoded)
 }
 
-// decodeStream undoes the filters of a stream, with their predictors. The data of JPEG
-// images is returned as it is, and that of a filter that fails with an error.
-func decodeStream(dict string, data []byte, pdf *parse.PDF) ([]byte, error) {
-	parms := extractDict(dict, "/DecodeParms", pdf)
-	var parmsArray []string // one for each filter
-	if array := extractArray(dict, "/DecodeParms", pdf); strings.HasPrefix(array, "[") {
-		parmsArray = arrayElements(array)
-	}
-
-	filters := resolveValue(extractDictValue(dict, "/Filter"), pdf)
-	index := 0
-	for _, filter := range parse.Tokens([]byte(filters)) {
-		if !strings.HasPrefix(filter, "/") {
-			continue
-		}
-		index++
-		if filter == "/DCTDecode" {
-			continue
-		}
-		decoded, err := parse.DecodeFilter(data, filter)
-		if err != nil {
-			return data, err
-		}
-		data = decoded
-
-		if index <= len(parmsArray) {
-			parms = resolveValue(parmsArray[index-1], pdf)
-		}
-		if filter == "/FlateDecode" && strings.HasPrefix(parms, "<<") {
-			if data, err = parse.DecodePredictor(decoded, parms); err != nil {
-				return decoded, err
-			}
-		}
-	}
-	return data, nil
-}
-
 // isStandard14Font checks if a font is one of the standard 14 PDF fonts
 func isStandard14Font(baseFont string) bool {
 	baseFont = strings.TrimPrefix(baseFont, "/")
diff --git a/core/parse/xfa_streams.go b/core/parse/xfa_streams.go
new file mode 100644
index 0000000..06c0e1d
--- /dev/null
+++ b/core/parse/xfa_streams.go
@@ -0,0 +1,149 @@
+package parse
+
+import (
+	"fmt"
+	"strings"
+)
+
+// XFAStreamRef names a stream of the XFA form of a PDF
+type XFAStreamRef struct {
+	Name      string
+	ObjectNum int
+}
+
+// XFAStreamRefs returns the streams that the XFA array of the form of the PDF names, in
+// their order
+func (p *PDF) XFAStreamRefs() ([]XFAStreamRef, error) {
+	if p.trailer == nil {
+		return nil, fmt.Errorf("no trailer found")
+	}
+	acroForm := p.dictEntry(p.resolveValue(p.trailer.RootRef), "/AcroForm")
+	if !strings.HasPrefix(acroForm, "<<") {
+		return nil, fmt.Errorf("AcroForm not found")
+	}
+	xfa := p.dictEntry(acroForm, "/XFA")
+	if xfa == "" || xfa == "null" {
+		return nil, fmt.Errorf("XFA entry not found")
+	}
+	if !strings.HasPrefix(xfa, "[") {
+		return nil, fmt.Errorf("XFA entry is not an array")
+	}
+
+	// The array has the form (name) N G R (name) N G R ...
+	var refs []XFAStreamRef
+	tokens := Tokens([]byte(xfa))
+	for i := 0; i+3 < len(tokens); i++ {
+		ref := tokenRef(tokens[i+1 : i+4])
+		if ref == "" || tokens[i][0] != '(' && tokens[i][0] != '<' {
+			continue
+		}
+		refs = append(refs, XFAStreamRef{
+			Name:      TextString(tokens[i]),
+			ObjectNum: int(tokenInt(tokens[i+1 : i+2])),
+		})
+	}
+	if len(refs) == 0 {
+		return nil, fmt.Errorf("no stream references found in XFA array")
+	}
+	return refs, nil
+}
+
+// DecodeStream undoes the filters of a stream with the given dictionary, with their
+// predictors. The data of JPEG images is returned as it is, and that of a filter that
+// fails with an error.
+func (p *PDF) DecodeStream(dict string, data []byte) ([]byte, error) {
+	parms := p.dictEntry(dict, "/DecodeParms")
+	var parmsArray []string // one for each filter
+	if strings.HasPrefix(parms, "[") {
+		parmsArray = arrayItems(parms)
+		parms = ""
+	}
+
+	index := 0
+	for _, filter := range Tokens([]byte(p.dictEntry(dict, "/Filter"))) {
+		if !strings.HasPrefix(filter, "/") {
+			continue
+		}
+		index++
+		if filter == "/DCTDecode" || filter == "/Crypt" {
+			continue
+		}
+		decoded, err := DecodeFilter(data, filter)
+		if err != nil {
+			return data, err
+		}
+		data = decoded
+
+		if index <= len(parmsArray) {
+			parms = p.resolveValue(parmsArray[index-1])
+		}
+		if filter == "/FlateDecode" && strings.HasPrefix(parms, "<<") {
+			if data, err = DecodePredictor(decoded, parms); err != nil {
+				return decoded, err
+			}
+		}
+	}
+	return data, nil
+}
+
+// dictEntry returns the value that key has in a dictionary, directly or through a
+// reference, or "" if there is none
+func (p *PDF) dictEntry(dict, key string) string {
+	start, end, ok := DictValue([]byte(dict), key)
+	if !ok {
+		return ""
+	}
+	return p.resolveValue(dict[start:end])
+}
+
+// resolveValue returns the value that a reference leads to, or the value itself if it is
+// not a reference
+func (p *PDF) resolveValue(value string) string {
+	for i := 0; i < 32; i++ {
+		if strings.HasPrefix(value, "<<") || strings.HasPrefix(value, "[") {
+			return value
+		}
+		tokens := Tokens([]byte(value))
+		if tokenRef(tokens) == "" {
+			return value
+		}
+		obj, err := p.GetObject(int(tokenInt(tokens[:1])))
+		if err != nil {
+			return ""
+		}
+		value = strings.TrimSpace(string(ObjectContent(obj)))
+	}
+	return ""
+}
+
+// arrayItems returns the dictionaries, references and nulls of an array
+func arrayItems(array string) []string {
+	var items []string
+	content := []byte(array)
+	start, depth := 0, 0 // of the current dictionary
+	var numbers []string // before an R
+	for pos := 0; ; {
+		token, next := NextToken(content, pos)
+		if token == "" {
+			return items
+		}
+		pos = next
+		switch {
+		case token == "<<":
+			if depth == 0 {
+				start = pos - len(token)
+			}
+			depth++
+		case token == ">>":
+			depth--
+			if depth == 0 {
+				items = append(items, string(content[start:pos]))
+			}
+		case token == "R" && depth == 0 && len(numbers) >= 2:
+			items = append(items, strings.Join(numbers[len(numbers)-2:], " ")+" R")
+		case token == "null" && depth == 0:
+			items = append(items, token)
+		}
+		numbers = append(numbers, token)
+	}
+}
diff --git a/core/write/xfa_builder.go b/core/write/xfa_builder.go
index c61467d..ec3fa66 100644
--- a/core/write/xfa_builder.go
+++ b/core/write/xfa_builder.go
@@ -5,10 +5,9 @@ import (
 	"compress/zlib"
 	"fmt"
 	"log"
-	"regexp"
 	"strconv"
-	"strings"
 
+	"github.com/benedoc-inc/pdfer/core/encrypt"
 	"github.com/benedoc-inc/pdfer/core/parse"
 	"github.com/benedoc-inc/pdfer/types"
 )
@@ -89,390 +88,133 @@ func (b *XFABuilder) BuildFromOriginal(originalPDF []byte, updatedStreams map[st
 	}
 
 	// Parse the original PDF structure
-	objects, err := parseAllObjects(originalPDF, encryptInfo, b.verbose)
+	pdf, err := parse.OpenWithOptions(originalPDF, parse.ParseOptions{
+		Encryption: encryptInfo,
+		Verbose:    b.verbose,
+	})
 	if err != nil {
 		return nil, fmt.Errorf("failed to parse original PDF: %v", err)
 	}
-
-	if b.verbose {
-		log.Printf("Parsed %d objects from original PDF", len(objects))
-	}
-
-	// Find trailer info
-	rootObjNum, infoObjNum, encryptObjNum, fileID := parseTrailerInfo(originalPDF)
-
-	if b.verbose {
-		log.Printf("Trailer: Root=%d, Info=%d, Encrypt=%d", rootObjNum, infoObjNum, encryptObjNum)
+	trailer := pdf.Trailer()
+	if trailer == nil {
+		return nil, fmt.Errorf("no trailer found")
 	}
 
 	// Find XFA stream references in AcroForm
-	xfaStreamMap, err := findXFAStreamMap(originalPDF, encryptInfo, b.verbose)
-	if err != nil {
-		if b.verbose {
-			log.Printf("Warning: could not find XFA stream map: %v", err)
-		}
+	refs, err := pdf.XFAStreamRefs()
+	if err != nil && b.verbose {
+		log.Printf("Warning: could not find XFA streams: %v", err)
 	}
-
-	// Update stream objects with new data
-	for streamName, newData := range updatedStreams {
-		if objNum, ok := xfaStreamMap[streamName]; ok {
-			if obj, objOk := objects[objNum]; objOk {
-				// Compress the new data
-				var compressed bytes.Buffer
-				zw := zlib.NewWriter(&compressed)
-				zw.Write(newData)
-				zw.Close()
-
-				// Update the object's stream
-				obj.Stream = compressed.Bytes()
-				if obj.Dict == nil {
-					obj.Dict = make(Dictionary)
-				}
-				obj.Dict["Filter"] = "/FlateDecode"
-				obj.Dict["Length"] = len(obj.Stream)
-
-				if b.verbose {
-					log.Printf("Updated stream '%s' (object %d): %d bytes compressed", streamName, objNum, len(obj.Stream))
-				}
-			}
+	updates := make(map[int][]byte)
+	for _, ref := range refs {
+		if newData, ok := updatedStreams[ref.Name]; ok {
+			updates[ref.ObjectNum] = newData
 		}
 	}
 
 	// Add all objects to writer
-	for objNum, obj := range objects {
-		if obj.Stream != nil {
-			b.writer.SetStreamObject(objNum, obj.Dict, obj.Stream, false) // Already compressed
-		} else if obj.Content != nil {
-			b.writer.SetObject(objNum, obj.Content)
+	for _, objNum := range pdf.Objects() {
+		obj, err := pdf.GetObject(objNum)
+		if err != nil {
+			if b.verbose {
+				log.Printf("Warning: failed to get object %d: %v", objNum, err)
+			}
+			continue
 		}
-	}
-
-	// Set trailer references
-	if rootObjNum > 0 {
-		b.writer.SetRoot(rootObjNum)
-	}
-	if infoObjNum > 0 {
-		b.writer.SetInfo(infoObjNum)
-	}
-	if encryptObjNum > 0 && encryptInfo != nil {
-		b.writer.SetEncryptRef(encryptObjNum)
-		b.writer.SetEncryption(encryptInfo, fileID)
-	}
-
-	return b.writer.Bytes()
-}
-
-// parseAllObjects parses all objects from a PDF including those in object streams
-func parseAllObjects(pdfBytes []byte, encryptInfo *types.PDFEncryption, verbose bool) (map[int]*PDFObject, error) {
-	objects := make(map[int]*PDFObject)
-
-	// First, parse direct objects (those with "N G obj" pattern)
-	objPattern := regexp.MustCompile(`(\d+)\s+(\d+)\s+obj`)
-	matches := objPattern.FindAllSubmatchIndex(pdfBytes, -1)
-
-	for _, match := range matches {
-		objNumStr := string(pdfBytes[match[2]:match[3]])
-		genNumStr := string(pdfBytes[match[4]:match[5]])
-
-		objNum, _ := strconv.Atoi(objNumStr)
-		genNum, _ := strconv.Atoi(genNumStr)
-
-		// Find endobj
-		objStart := match[1] // After "obj"
-		endObjPos := bytes.Index(pdfBytes[objStart:], []byte("endobj"))
-		if endObjPos == -1 {
+		content := parse.MapReferences(parse.ObjectContent(obj), func(num, gen int) string {
+			return fmt.Sprintf("%d 0 R", num)
+		})
+		switch dictEntry(content, "/Type") {
+		case "/XRef", "/ObjStm":
+			// the structure of the original file, which is not that of the new one
 			continue
 		}
-
-		objContent := pdfBytes[objStart : objStart+endObjPos]
-
-		// Check for stream
-		streamPos := bytes.Index(objContent, []byte("stream"))
-		var streamData []byte
-		var dict Dictionary
-
-		if streamPos != -1 {
-			// Parse dictionary
-			dictContent := objContent[:streamPos]
-			dict = parseDictionary(dictContent)
-
-			// Find stream data
-			streamStart := streamPos + 6
-			// Skip EOL
-			for streamStart < len(objContent) && (objContent[streamStart] == '\r' || objContent[streamStart] == '\n') {
-				streamStart++
-			}
-
-			// Find endstream
-			endstreamPos := bytes.Index(objContent[streamStart:], []byte("endstream"))
-			if endstreamPos == -1 {
-				endstreamPos = len(objContent) - streamStart
+		if newData, ok := updates[objNum]; ok {
+			dict, _, isStream := parse.SplitStream(content)
+			if !isStream {
+				return nil, fmt.Errorf("XFA object %d is not a stream", objNum)
 			}
-
-			// Use Length from dictionary if available
-			if length, ok := dict["Length"].(int); ok && streamStart+length <= len(objContent) {
-				streamData = objContent[streamStart : streamStart+length]
-			} else {
-				streamData = objContent[streamStart : streamStart+endstreamPos]
+			content = xfaStreamObject(dict, newData)
+			if b.verbose {
+				log.Printf("Updated XFA stream in object %d: %d bytes", objNum, len(newData))
 			}
 		}
-
-		// Trim whitespace from content
-		content := bytes.TrimSpace(objContent)
-		if streamPos != -1 {
-			content = bytes.TrimSpace(objContent[:streamPos])
-		}
-
-		objects[objNum] = &PDFObject{
-			Number:     objNum,
-			Generation: genNum,
-			Content:    content,
-			Stream:     streamData,
-			Dict:       dict,
-		}
+		b.writer.SetObject(objNum, content)
 	}
 
-	// Now extract objects from object streams using the parser
-	startXRef := findStartXRef(pdfBytes)
-	if startXRef > 0 {
-		xrefResult, err := parse.ParseXRefStreamFull(pdfBytes, startXRef, false)
-		if err == nil {
-			// Process objects stored in object streams
-			for objNum, entry := range xrefResult.ObjectStreams {
-				if _, exists := objects[objNum]; exists {
-					continue // Already have this object as a direct object
-				}
-
-				// Extract object from the object stream
-				objData, err := parse.GetObjectFromStream(pdfBytes, objNum, entry.StreamObjNum, entry.IndexInStream, encryptInfo, false)
-				if err != nil {
-					if verbose {
-						log.Printf("Warning: failed to extract object %d from stream %d: %v", objNum, entry.StreamObjNum, err)
-					}
-					continue
-				}
-
-				// Parse the extracted object content
-				objects[objNum] = &PDFObject{
-					Number:     objNum,
-					Generation: 0,
-					Content:    bytes.TrimSpace(objData),
-				}
-
-				if verbose {
-					log.Printf("Extracted object %d from object stream %d", objNum, entry.StreamObjNum)
-				}
-			}
-		} else if verbose {
-			log.Printf("Warning: could not parse xref stream: %v", err)
-		}
+	// Set trailer references
+	if objNum, ok := refObjectNum(trailer.RootRef); ok {
+		b.writer.SetRoot(objNum)
 	}
-
-	return objects, nil
-}
-
-// findStartXRef finds the startxref position in a PDF
-func findStartXRef(pdfBytes []byte) int64 {
-	// Search from end of file
-	searchLen := min(1024, len(pdfBytes))
-	tailStart := len(pdfBytes) - searchLen
-	tail := string(pdfBytes[tailStart:])
-
-	pattern := regexp.MustCompile(`startxref\s+(\d+)`)
-	match := pattern.FindStringSubmatch(tail)
-	if match != nil {
-		val, err := strconv.ParseInt(match[1], 10, 64)
-		if err == nil {
-			return val
-		}
+	if objNum, ok := refObjectNum(trailer.InfoRef); ok {
+		b.writer.SetInfo(objNum)
 	}
-	return -1
-}
-
-// parseDictionary parses a PDF dictionary into our Dictionary type
-func parseDictionary(data []byte) Dictionary {
-	dict := make(Dictionary)
-
-	// Simple parsing - extract key-value pairs
-	s := string(data)
-
-	// Remove << and >>
-	s = strings.TrimPrefix(strings.TrimSpace(s), "<<")
-	s = strings.TrimSuffix(strings.TrimSpace(s), ">>")
-
-	// Find /Key Value pairs
-	keyPattern := regexp.MustCompile(`/(\w+)\s*`)
-	matches := keyPattern.FindAllStringSubmatchIndex(s, -1)
-
-	for i, match := range matches {
-		key := s[match[2]:match[3]]
-
-		// Value is from end of key to start of next key (or end)
-		valueStart := match[1]
-		var valueEnd int
-		if i+1 < len(matches) {
-			valueEnd = matches[i+1][0]
-		} else {
-			valueEnd = len(s)
+	if pdf.IsEncrypted() {
+		objNum, ok := refObjectNum(trailer.EncryptRef)
+		if !ok {
+			return nil, fmt.Errorf("encryption dictionary in the trailer is not supported")
 		}
-
-		value := strings.TrimSpace(s[valueStart:valueEnd])
-
-		// Parse value type
-		if num, err := strconv.Atoi(value); err == nil {
-			dict[key] = num
-		} else {
-			dict[key] = value
-		}
-	}
-
-	return dict
-}
-
-// parseTrailerInfo extracts trailer references
-func parseTrailerInfo(pdfBytes []byte) (rootNum, infoNum, encryptNum int, fileID []byte) {
-	pdfStr := string(pdfBytes)
-
-	// Find Root
-	rootPattern := regexp.MustCompile(`/Root\s+(\d+)\s+\d+\s+R`)
-	if match := rootPattern.FindStringSubmatch(pdfStr); match != nil {
-		rootNum, _ = strconv.Atoi(match[1])
-	}
-
-	// Find Info
-	infoPattern := regexp.MustCompile(`/Info\s+(\d+)\s+\d+\s+R`)
-	if match := infoPattern.FindStringSubmatch(pdfStr); match != nil {
-		infoNum, _ = strconv.Atoi(match[1])
-	}
-
-	// Find Encrypt
-	encryptPattern := regexp.MustCompile(`/Encrypt\s+(\d+)\s+\d+\s+R`)
-	if match := encryptPattern.FindStringSubmatch(pdfStr); match != nil {
-		encryptNum, _ = strconv.Atoi(match[1])
-	}
-
-	// Find ID
-	idPattern := regexp.MustCompile(`/ID\s*\[\s*<([0-9A-Fa-f]+)>`)
-	if match := idPattern.FindStringSubmatch(pdfStr); match != nil {
-		fileID, _ = hexDecode(match[1])
-	}
-
-	return
-}
-
-// findXFAStreamMap finds the mapping of XFA stream names to object numbers
-func findXFAStreamMap(pdfBytes []byte, encryptInfo *types.PDFEncryption, verbose bool) (map[string]int, error) {
-	result := make(map[string]int)
-
-	// First find AcroForm reference
-	pdfStr := string(pdfBytes)
-	acroFormPattern := regexp.MustCompile(`/AcroForm\s+(\d+)\s+\d+\s+R`)
-	acroFormMatch := acroFormPattern.FindStringSubmatch(pdfStr)
-
-	if acroFormMatch == nil {
-		// Try inline AcroForm
-		return findXFAStreamMapInline(pdfBytes)
+		b.writer.SetEncryptRef(objNum)
+		// The key depends on the file ID, so it has to stay
+		b.writer.SetEncryption(pdf.Encryption(), encrypt.ExtractFileID(originalPDF, b.verbose))
 	}
 
-	acroFormObjNum, err := strconv.Atoi(acroFormMatch[1])
-	if err != nil {
-		return result, fmt.Errorf("invalid AcroForm object number")
-	}
-
-	// Get the AcroForm object using proper parser (handles object streams)
-	acroFormData, err := parse.GetObject(pdfBytes, acroFormObjNum, encryptInfo, false)
-	if err != nil {
-		return result, fmt.Errorf("failed to get AcroForm object: %v", err)
-	}
-
-	// Find XFA array in AcroForm content
-	return parseXFAArrayFromContent(acroFormData, verbose)
+	return b.writer.Bytes()
 }
 
-// findXFAStreamMapInline finds XFA array when AcroForm is inline
-func findXFAStreamMapInline(pdfBytes []byte) (map[string]int, error) {
-	result := make(map[string]int)
-	pdfStr := string(pdfBytes)
-
-	xfaPattern := regexp.MustCompile(`/XFA\s*\[([^\]]+)\]`)
-	match := xfaPattern.FindStringSubmatch(pdfStr)
-	if match == nil {
-		return result, fmt.Errorf("XFA array not found")
-	}
-
-	return parseXFAArrayContent(match[1])
+// xfaStreamObject returns the content of a stream object that has the given dictionary,
+// but for its filters, and the given data
+func xfaStreamObject(dict, data []byte) []byte {
+	var compressed bytes.Buffer
+	zw := zlib.NewWriter(&compressed)
+	zw.Write(data)
+	zw.Close()
+
+	for _, key := range []string{"/Filter", "/DecodeParms"} {
+		dict = removeDictEntry(dict, key)
+	}
+	dict = bytes.Replace(dict, []byte("<<"), []byte("<</Filter /FlateDecode "), 1)
+	content := append(parse.SetLength(dict, compressed.Len()), "\nstream\n"...)
+	content = append(content, compressed.Bytes()...)
+	return append(content, "\nendstream"...)
 }
 
-// parseXFAArrayFromContent parses XFA array from object content
-func parseXFAArrayFromContent(content []byte, verbose bool) (map[string]int, error) {
-	result := make(map[string]int)
-
-	// Find XFA array
-	xfaIdx := bytes.Index(content, []byte("/XFA"))
-	if xfaIdx == -1 {
-		return result, fmt.Errorf("XFA not found in AcroForm")
-	}
-
-	// Find array start
-	arrayStart := bytes.Index(content[xfaIdx:], []byte("["))
-	if arrayStart == -1 {
-		return result, fmt.Errorf("XFA array start not found")
-	}
-	arrayStart += xfaIdx
-
-	// Find array end
-	depth := 0
-	arrayEnd := arrayStart
-	for i := arrayStart; i < len(content); i++ {
-		if content[i] == '[' {
-			depth++
-		} else if content[i] == ']' {
-			depth--
-			if depth == 0 {
-				arrayEnd = i + 1
-				break
-			}
+// removeDictEntry returns a dictionary without the entry that key has in it
+func removeDictEntry(dict []byte, key string) []byte {
+	start, end, ok := parse.DictValue(dict, key)
+	if !ok {
+		return dict
+	}
+	// The key is the last token before its value
+	keyStart := start
+	for pos := 0; ; {
+		token, next := parse.NextToken(dict, pos)
+		if token == "" || next > start {
+			break
 		}
+		keyStart = next - len(token)
+		pos = next
 	}
-
-	arrayContent := string(content[arrayStart+1 : arrayEnd-1])
-	if verbose {
-		log.Printf("Found XFA array content: %s", arrayContent)
-	}
-
-	return parseXFAArrayContent(arrayContent)
+	return append(append([]byte{}, dict[:keyStart]...), dict[end:]...)
 }
 
-// parseXFAArrayContent parses XFA array content string
-func parseXFAArrayContent(arrayContent string) (map[string]int, error) {
-	result := make(map[string]int)
-
-	refPattern := regexp.MustCompile(`\(([^)]+)\)\s*(\d+)\s+\d+\s+R`)
-	refs := refPattern.FindAllStringSubmatch(arrayContent, -1)
-
-	for _, ref := range refs {
-		name := ref[1]
-		objNum, _ := strconv.Atoi(ref[2])
-		result[name] = objNum
+// dictEntry returns the value of key in a dictionary, or "" if there is none
+func dictEntry(dict []byte, key string) string {
+	start, end, ok := parse.DictValue(dict, key)
+	if !ok {
+		return ""
 	}
-
-	return result, nil
+	return string(dict[start:end])
 }
 
-// hexDecode decodes a hex string to bytes
-func hexDecode(s string) ([]byte, error) {
-	if len(s)%2 != 0 {
-		s = "0" + s
-	}
-	result := make([]byte, len(s)/2)
-	for i := 0; i < len(s); i += 2 {
-		b, err := strconv.ParseUint(s[i:i+2], 16, 8)
-		if err != nil {
-			return nil, err
-		}
-		result[i/2] = byte(b)
+// refObjectNum returns the object number of a reference
+func refObjectNum(ref string) (int, bool) {
+	tokens := parse.Tokens([]byte(ref))
+	if len(tokens) != 3 || tokens[2] != "R" {
+		return 0, false
 	}
-	return result, nil
+	objNum, err := strconv.Atoi(tokens[0])
+	return objNum, err == nil
 }
 
 // joinStrings joins strings without separator
diff --git a/forms/xfa/parse_then_decrypt.go b/forms/xfa/parse_then_decrypt.go
deleted file mode 100644
index 68c0f60..0000000
--- a/forms/xfa/parse_then_decrypt.go
+++ /dev/null
@@ -1,211 +0,0 @@
-package xfa
-
-import (
-	"bytes"
-	"fmt"
-	"log"
-	"regexp"
-
-	"github.com/benedoc-inc/pdfer/core/encrypt"
-	"github.com/benedoc-inc/pdfer/types"
-)
-
-// parseObjectStructure parses a PDF object structure first, then decrypts encrypted parts
-// This follows PyPDF's approach: parse structure, then decrypt values
-func parseObjectStructure(pdfBytes []byte, objNum, genNum int, objOffset int64, encryptInfo *types.PDFEncryption, verbose bool) ([]byte, error) {
-	// Step 1: Seek to object location (like PyPDF line 423)
-	if objOffset < 0 || int(objOffset) >= len(pdfBytes) {
-		return nil, fmt.Errorf("invalid object offset: %d", objOffset)
-	}
-
-	// Step 2: Read object header "212 0 obj" (like PyPDF line 425)
-	// PyPDF seeks to xref offset and reads header directly
-	// But if header is encrypted, we need to search for it
-	// Try multiple patterns and search areas
-	headerPatterns := []*regexp.Regexp{
-		regexp.MustCompile(fmt.Sprintf(`%d\s+%d\s+obj`, objNum, genNum)),
-		regexp.MustCompile(fmt.Sprintf(`%d\s+%d\s+obj`, objNum, genNum)),
-		regexp.MustCompile(fmt.Sprintf(`\s%d\s+%d\s+obj`, objNum, genNum)), // With leading space
-	}
-
-	var headerMatch []int
-	var searchStart, searchEnd int
-
-	// Try searching near xref offset first (most common case)
-	searchStart = max(0, int(objOffset)-200)
-	searchEnd = min(len(pdfBytes), int(objOffset)+2000)
-	searchArea := pdfBytes[searchStart:searchEnd]
-
-	for _, pattern := range headerPatterns {
-		headerMatch = pattern.FindIndex(searchArea)
-		if headerMatch != nil {
-			break
-		}
-	}
-
-	// If not found, try wider search
-	if headerMatch == nil {
-		if verbose {
-			log.Printf("Object header not found near offset %d, trying wider search", objOffset)
-		}
-		searchStart = max(0, int(objOffset)-1000)
-		searchEnd = min(len(pdfBytes), int(objOffset)+5000)
-		searchArea = pdfBytes[searchStart:searchEnd]
-
-		for _, pattern := range headerPatterns {
-			headerMatch = pattern.FindIndex(searchArea)
-			if headerMatch != nil {
-				break
-			}
-		}
-	}
-
-	if headerMatch == nil {
-		// Last resort: search entire file (slow but might work)
-		if verbose {
-			log.Printf("Object header not found in search window, searching entire file")
-		}
-		searchArea = pdfBytes
-		for _, pattern := range headerPatterns {
-			headerMatch = pattern.FindIndex(searchArea)
-			if headerMatch != nil {
-				searchStart = 0
-				break
-			}
-		}
-	}
-
-	if headerMatch == nil {
-		return nil, fmt.Errorf("object header %d %d obj not found", objNum, genNum)
-	}
-
-	objStart := searchStart + headerMatch[1] // Position after "obj"
-	if verbose {
-		log.Printf("Found object header at offset %d (absolute: %d)", headerMatch[0], searchStart+headerMatch[0])
-	}
-
-	// Step 3: Parse object structure (like PyPDF's read_object)
-	// Skip whitespace after "obj"
-	pos := objStart
-	for pos < len(pdfBytes) && (pdfBytes[pos] == ' ' || pdfBytes[pos] == '\r' || pdfBytes[pos] == '\n' || pdfBytes[pos] == '\t') {
-		pos++
-	}
-
-	// Check if it's a dictionary (starts with "<<")
-	if pos+2 > len(pdfBytes) || pdfBytes[pos] != '<' || pdfBytes[pos+1] != '<' {
-		return nil, fmt.Errorf("object does not start with dictionary marker <<")
-	}
-
-	// Step 4: Find dictionary end ">>"
-	dictStart := pos
-	depth := 0
-	dictEnd := -1
-	for i := dictStart; i < len(pdfBytes) && i < dictStart+50000; i++ {
-		if i+1 < len(pdfBytes) && pdfBytes[i] == '<' && pdfBytes[i+1] == '<' {
-			depth++
-			i++ // Skip second '<'
-		} else if i+1 < len(pdfBytes) && pdfBytes[i] == '>' && pdfBytes[i+1] == '>' {
-			depth--
-			if depth == 0 {
-				dictEnd = i + 2
-				break
-			}
-			i++ // Skip second '>'
-		}
-	}
-
-	if dictEnd == -1 {
-		return nil, fmt.Errorf("dictionary end >> not found")
-	}
-
-	// Step 5: Check if there's a stream
-	streamPos := dictEnd
-	// Skip whitespace after ">>"
-	for streamPos < len(pdfBytes) && (pdfBytes[streamPos] == ' ' || pdfBytes[streamPos] == '\r' || pdfBytes[streamPos] == '\n' || pdfBytes[streamPos] == '\t') {
-		streamPos++
-	}
-
-	isStream := false
-	streamDataStart := -1
-	streamDataEnd := -1
-
-	if streamPos+6 <= len(pdfBytes) && bytes.Equal(pdfBytes[streamPos:streamPos+6], []byte("stream")) {
-		isStream = true
-		streamPos += 6
-
-		// Skip EOL after "stream" (PyPDF lines 611-619)
-		if streamPos < len(pdfBytes) {
-			if pdfBytes[streamPos] == '\r' {
-				streamPos++
-				if streamPos < len(pdfBytes) && pdfBytes[streamPos] == '\n' {
-					streamPos++
-				}
-			} else if pdfBytes[streamPos] == '\n' {
-				streamPos++
-			}
-		}
-
-		streamDataStart = streamPos
-
-		// Find "endstream"
-		endstreamPos := bytes.Index(pdfBytes[streamDataStart:], []byte("endstream"))
-		if endstreamPos == -1 {
-			return nil, fmt.Errorf("endstream not found")
-		}
-		streamDataEnd = streamDataStart + endstreamPos
-	}
-
-	// Step 6: Decrypt dictionary content (between "<<" and ">>")
-	// The dictionary structure itself is NOT encrypted, but string values are
-	// For encrypted PDFs, the entire dictionary content between << and >> is encrypted
-	dictContent := pdfBytes[dictStart+2 : dictEnd-2] // Remove "<< " and " >>"
-
-	if encryptInfo != nil && len(dictContent) > 0 {
-		// Try direct decryption first
-		decryptedDict, err := encrypt.DecryptObject(dictContent, objNum, genNum, encryptInfo)
-		if err != nil {
-			if verbose {
-				log.Printf("Direct decryption failed, trying chunked decryption: %v", err)
-			}
-			// Try decrypting in chunks (for alignment) - uses existing function from xfa_utils.go
-			decryptedDict, err = decryptInChunks(dictContent, objNum, genNum, encryptInfo, verbose)
-			if err != nil {
-				return nil, fmt.Errorf("failed to decrypt dictionary: %v", err)
-			}
-		}
-		dictContent = decryptedDict
-	}
-
-	// Step 7: Reconstruct object
-	result := make([]byte, 0, len(dictContent)+1000)
-
-	// Object header
-	result = append(result, []byte(fmt.Sprintf("%d %d obj\n", objNum, genNum))...)
-
-	// Dictionary
-	result = append(result, []byte("<<")...)
-	result = append(result, dictContent...)
-	result = append(result, []byte(">>")...)
-
-	// Stream data (if present) - decrypt it
-	if isStream {
-		result = append(result, []byte("\nstream\n")...)
-
-		if encryptInfo != nil {
-			streamData := pdfBytes[streamDataStart:streamDataEnd]
-			decryptedStream, err := encrypt.DecryptObject(streamData, objNum, genNum, encryptInfo)
-			if err != nil {
-				return nil, fmt.Errorf("failed to decrypt stream data: %v", err)
-			}
-			result = append(result, decryptedStream...)
-		} else {
-			result = append(result, pdfBytes[streamDataStart:streamDataEnd]...)
-		}
-
-		result = append(result, []byte("\nendstream")...)
-	}
-
-	result = append(result, []byte("\nendobj")...)
-
-	return result, nil
-}
diff --git a/forms/xfa/xfa.go b/forms/xfa/xfa.go
index dc62dfc..e40d3f4 100644
--- a/forms/xfa/xfa.go
+++ b/forms/xfa/xfa.go
@@ -1,99 +1,18 @@
 package xfa
 
 import (
-	"bytes"
-	"compress/flate"
-	"compress/zlib"
+	"encoding/xml"
 	"fmt"
 	"io"
 	"log"
-	"regexp"
-	"strconv"
+	"sort"
 	"strings"
 
 	"github.com/benedoc-inc/pdfer/core/parse"
-	"github.com/benedoc-inc/pdfer/types"
 	"github.com/benedoc-inc/pdfer/core/write"
+	"github.com/benedoc-inc/pdfer/types"
 )
 
-// extractStreamDataFromObject extracts stream data from raw object bytes
-// The object should already be decrypted
-func extractStreamDataFromObject(objData []byte, objNum int, encryptInfo *types.PDFEncryption, verbose bool) ([]byte, error) {
-	// Find stream keyword
-	streamIdx := bytes.Index(objData, []byte("stream"))
-	if streamIdx == -1 {
-		// Not a stream object - might be a simple value
-		// Look for dictionary or value content
-		dictStart := bytes.Index(objData, []byte("<<"))
-		if dictStart != -1 {
-			return objData[dictStart:], nil
-		}
-		return objData, nil
-	}
-
-	// Find endstream
-	endstreamIdx := bytes.Index(objData[streamIdx:], []byte("endstream"))
-	if endstreamIdx == -1 {
-		return nil, fmt.Errorf("endstream not found in object %d", objNum)
-	}
-	endstreamIdx += streamIdx
-
-	// Get /Length from dictionary if available
-	dictEnd := streamIdx
-	dictStr := string(objData[:dictEnd])
-	lengthPattern := regexp.MustCompile(`/Length\s+(\d+)`)
-	lengthMatch := lengthPattern.FindStringSubmatch(dictStr)
-
-	// Skip "stream" and EOL
-	dataStart := streamIdx + 6
-	if dataStart < len(objData) && objData[dataStart] == '\r' {
-		dataStart++
-	}
-	if dataStart < len(objData) && objData[dataStart] == '\n' {
-		dataStart++
-	}
-
-	var streamData []byte
-	if lengthMatch != nil {
-		length, _ := strconv.Atoi(lengthMatch[1])
-		if dataStart+length <= len(objData) {
-			streamData = objData[dataStart : dataStart+length]
-		} else {
-			streamData = objData[dataStart:endstreamIdx]
-		}
-	} else {
-		streamData = objData[dataStart:endstreamIdx]
-	}
-
-	// Check if FlateDecode filter is present
-	if bytes.Contains(objData[:streamIdx], []byte("/FlateDecode")) ||
-		bytes.Contains(objData[:streamIdx], []byte("/Filter/FlateDecode")) ||
-		bytes.Contains(objData[:streamIdx], []byte("/Filter /FlateDecode")) {
-		// Decompress
-		zlibReader, err := zlib.NewReader(bytes.NewReader(streamData))
-		if err == nil {
-			decompressed, err := io.ReadAll(zlibReader)
-			zlibReader.Close()
-			if err == nil {
-				return decompressed, nil
-			}
-		}
-		// Try raw deflate
-		flateReader := flate.NewReader(bytes.NewReader(streamData))
-		decompressed, err := io.ReadAll(flateReader)
-		flateReader.Close()
-		if err == nil {
-			return decompressed, nil
-		}
-		// Return raw data if decompression fails
-		if verbose {
-			log.Printf("Decompression failed for object %d, returning raw stream data", objNum)
-		}
-	}
-
-	return streamData, nil
-}
-
 // XFAStreamInfo contains stream data and metadata
 type XFAStreamInfo struct {
 	Data         []byte `json:"data"`
@@ -120,150 +39,47 @@ func ExtractAllXFAStreams(pdfBytes []byte, encryptInfo *types.PDFEncryption, ver
 		log.Printf("Extracting all XFA streams from PDF (no UniPDF)")
 	}
 
-	streams := &XFAStreams{}
-	pdfStr := string(pdfBytes)
-
-	// Find AcroForm reference
-	acroFormPattern := regexp.MustCompile(`/AcroForm\s+(\d+)\s+(\d+)\s+R`)
-	acroFormMatch := acroFormPattern.FindStringSubmatchIndex(pdfStr)
-
-	var acroFormObjNum int
-	var err error
-
-	if acroFormMatch != nil {
-		// AcroForm is an indirect reference
-		acroFormObjNum, err = strconv.Atoi(pdfStr[acroFormMatch[2]:acroFormMatch[3]])
-		if err != nil {
-			return nil, fmt.Errorf("invalid AcroForm object number: %v", err)
-		}
-
-		if verbose {
-			log.Printf("Found AcroForm indirect reference: object %d", acroFormObjNum)
-		}
-	} else {
-		// Try inline AcroForm dictionary
-		acroFormInlinePattern := regexp.MustCompile(`/AcroForm\s*<<`)
-		acroFormInlineMatch := acroFormInlinePattern.FindStringIndex(pdfStr)
-		if acroFormInlineMatch == nil {
-			return nil, fmt.Errorf("AcroForm not found (neither inline nor indirect reference)")
-		}
-		// For inline, we'll search from that position
-		acroFormObjNum = 0
+	pdf, err := parse.OpenWithOptions(pdfBytes, parse.ParseOptions{
+		Encryption: encryptInfo,
+		Verbose:    verbose,
+	})
+	if err != nil {
+		return nil, fmt.Errorf("failed to parse PDF: %v", err)
 	}
-
-	// Find and decrypt AcroForm object to get XFA array using PyPDF approach
-	var xfaArrayContent string
-	if acroFormObjNum > 0 {
-		// Use new GetObject function that handles both direct objects and object streams
-		// This is the equivalent of PyPDF's get_object() method
-		decryptedContent, err := parse.GetObject(pdfBytes, acroFormObjNum, encryptInfo, verbose)
-		if err != nil {
-			if verbose {
-				log.Printf("GetObject failed for AcroForm %d: %v, trying fallback", acroFormObjNum, err)
-			}
-			// Fallback to old method
-			decryptedContent, err = findAndDecryptAcroForm(pdfBytes, acroFormObjNum, encryptInfo, verbose)
-			if err != nil {
-				return nil, err
-			}
-		}
-
-		xfaArrayContent, err = findXFAArrayContent(decryptedContent, verbose)
-		if err != nil {
-			return nil, err
-		}
-	} else {
-		// Inline AcroForm - find XFA directly
-		xfaPattern := regexp.MustCompile(`/XFA\s*\[`)
-		xfaMatch := xfaPattern.FindStringIndex(pdfStr)
-		if xfaMatch == nil {
-			return nil, fmt.Errorf("XFA entry not found")
-		}
-
-		arrayStart := xfaMatch[1] - 1
-		depth := 0
-		arrayEnd := arrayStart
-		for i := arrayStart; i < len(pdfStr) && i < arrayStart+10000; i++ {
-			if pdfStr[i] == '[' {
-				depth++
-			} else if pdfStr[i] == ']' {
-				depth--
-				if depth == 0 {
-					arrayEnd = i
-					break
-				}
-			}
-		}
-
-		if arrayEnd == arrayStart {
-			return nil, fmt.Errorf("could not find end of XFA array")
-		}
-
-		xfaArrayContent = pdfStr[arrayStart+1 : arrayEnd]
+	refs, err := pdf.XFAStreamRefs()
+	if err != nil {
+		return nil, err
 	}
 
 	if verbose {
-		log.Printf("Found XFA array content: %s", xfaArrayContent[:min(200, len(xfaArrayContent))])
-	}
-
-	// Parse XFA array: format is (name) N M R (name) N M R ...
-	// Pattern: (name) followed by object number, generation, and R
-	// Note: whitespace between ) and object number is optional
-	streamPattern := regexp.MustCompile(`\(([^)]+)\)\s*(\d+)\s+(\d+)\s+R`)
-	matches := streamPattern.FindAllStringSubmatch(xfaArrayContent, -1)
-
-	if len(matches) == 0 {
-		return nil, fmt.Errorf("no stream references found in XFA array")
+		log.Printf("Found %d stream references in XFA array", len(refs))
 	}
 
-	if verbose {
-		log.Printf("Found %d stream references in XFA array", len(matches))
-	}
+	streams := &XFAStreams{}
 
 	// Extract each stream
-	for _, match := range matches {
-		streamName := match[1]
-		objNum, err := strconv.Atoi(match[2])
-		if err != nil {
-			if verbose {
-				log.Printf("Invalid stream object number for %s: %s", streamName, match[2])
-			}
-			continue
-		}
+	for _, ref := range refs {
+		streamName, objNum := ref.Name, ref.ObjectNum
 
-		// Use GetObject which properly handles both direct objects and objects in streams
-		objData, err := parse.GetObject(pdfBytes, objNum, encryptInfo, verbose)
+		objData, err := pdf.GetObject(objNum)
 		if err != nil {
 			if verbose {
-				log.Printf("Failed to get object %d for stream %s: %v, trying fallback", objNum, streamName, err)
-			}
-			// Fallback to old method
-			objData, _, err = extractStreamFromPDF(pdfBytes, objNum, encryptInfo, verbose)
-			if err != nil {
-				if verbose {
-					log.Printf("Fallback also failed for %s (object %d): %v", streamName, objNum, err)
-				}
-				continue
+				log.Printf("Failed to get object %d for stream %s: %v", objNum, streamName, err)
 			}
+			continue
 		}
-
-		// Extract stream data from the object
-		streamData, err := extractStreamDataFromObject(objData, objNum, encryptInfo, verbose)
-		if err != nil {
+		dict, data, ok := parse.SplitStream(parse.ObjectContent(objData))
+		if !ok {
 			if verbose {
-				log.Printf("Failed to extract stream data from object %d: %v", objNum, err)
+				log.Printf("Object %d for stream %s is not a stream", objNum, streamName)
 			}
 			continue
 		}
-
-		// Decompress if needed
-		decompressed, wasCompressed, err := DecompressStream(streamData)
+		decompressed, err := pdf.DecodeStream(string(dict), data)
 		if err != nil {
-			if verbose {
-				log.Printf("Failed to decompress stream %s: %v", streamName, err)
-			}
-			decompressed = streamData // Use as-is if decompression fails
+			return nil, fmt.Errorf("failed to decode XFA stream %s (object %d): %v", streamName, objNum, err)
 		}
+		_, _, wasCompressed := parse.DictValue(dict, "/Filter")
 
 		streamInfo := &XFAStreamInfo{
 			Data:         decompressed,
@@ -422,6 +238,20 @@ func BuildPDFFromXFAStreams(streams *XFAStreams, verbose bool) ([]byte, error) {
 			Compress: true,
 		})
 	}
+	if streams.Signature != nil && len(streams.Signature.Data) > 0 {
+		xfaStreams = append(xfaStreams, write.XFAStreamData{
+			Name:     "signature",
+			Data:     streams.Signature.Data,
+			Compress: true,
+		})
+	}
+	if streams.SourceSet != nil && len(streams.SourceSet.Data) > 0 {
+		xfaStreams = append(xfaStreams, write.XFAStreamData{
+			Name:     "sourceSet",
+			Data:     streams.SourceSet.Data,
+			Compress: true,
+		})
+	}
 
 	builder := write.NewXFABuilder(verbose)
 	return builder.BuildFromXFA(xfaStreams)
@@ -440,37 +270,15 @@ func UpdateXFAInPDF(pdfBytes []byte, formData types.FormData, encryptInfo *types
 		log.Printf("Stream size: %d bytes", len(datasetsStream))
 	}
 
-	// Decompress if needed and parse XML
-	xfaXML, wasCompressed, err := DecompressStream(datasetsStream)
-	if err != nil {
-		return nil, fmt.Errorf("error decompressing stream: %v", err)
-	}
-
-	if verbose {
-		log.Printf("Decompressed XFA XML: %d bytes (was compressed: %v)", len(xfaXML), wasCompressed)
-	}
-
 	// Update field values in XFA XML
-	updatedXML, err := UpdateXFAValues(string(xfaXML), formData, verbose)
+	updatedXML, err := UpdateXFAValues(string(datasetsStream), formData, verbose)
 	if err != nil {
 		return nil, fmt.Errorf("error updating XFA values: %v", err)
 	}
 
-	// Re-compress if it was compressed
-	updatedStream := []byte(updatedXML)
-	if wasCompressed {
-		compressed, err := CompressStream(updatedStream)
-		if err != nil {
-			return nil, fmt.Errorf("error compressing stream: %v", err)
-		}
-		updatedStream = compressed
-		if verbose {
-			log.Printf("Re-compressed stream: %d bytes", len(updatedStream))
-		}
-	}
-
 	// Update PDF with new stream
-	updatedPDF, err := ReplaceStreamInPDF(pdfBytes, streamObjNum, updatedStream, verbose)
+	builder := write.NewXFABuilder(verbose)
+	updatedPDF, err := builder.BuildFromOriginal(pdfBytes, map[string][]byte{"datasets": []byte(updatedXML)}, encryptInfo)
 	if err != nil {
 		return nil, fmt.Errorf("error replacing stream: %v", err)
 	}
@@ -480,80 +288,139 @@ func UpdateXFAInPDF(pdfBytes []byte, formData types.FormData, encryptInfo *types
 
 // UpdateXFAValues updates field values in XFA XML
 func UpdateXFAValues(xfaXML string, formData types.FormData, verbose bool) (string, error) {
-	// Find data section
-	dataStart := strings.Index(xfaXML, "<data")
-	if dataStart == -1 {
-		// If no data section, update individual fields
-		return UpdateXFAFieldValues(xfaXML, formData, verbose)
-	}
-
-	// Find end of data section
-	dataEnd := strings.LastIndex(xfaXML, "</data>")
-	if dataEnd == -1 {
-		return UpdateXFAFieldValues(xfaXML, formData, verbose)
-	}
-
-	// Extract data section
-	dataSection := xfaXML[dataStart : dataEnd+7]
-
-	// Update field values in data section
-	updatedData, err := UpdateXFAFieldValues(dataSection, formData, verbose)
-	if err != nil {
-		return "", err
+	// The values are those of the fields in the data section; if there is none, those of
+	// all fields
+	result, hasData := updateFields(xfaXML, formData, true, verbose)
+	if !hasData {
+		result, _ = updateFields(xfaXML, formData, false, verbose)
 	}
-
-	// Replace data section in full XML
-	result := xfaXML[:dataStart] + updatedData + xfaXML[dataEnd+7:]
-
 	return result, nil
 }
 
 // UpdateXFAFieldValues updates individual field values in XFA XML
 func UpdateXFAFieldValues(xfaXML string, formData types.FormData, verbose bool) (string, error) {
-	resultXML := xfaXML
+	result, _ := updateFields(xfaXML, formData, false, verbose)
+	return result, nil
+}
 
-	for fieldName, newValue := range formData {
-		// Find field in XFA XML
-		fieldPattern := fmt.Sprintf(`<field name="%s"`, fieldName)
-		fieldIndex := strings.Index(resultXML, fieldPattern)
+// updateFields sets the value of the first field of each name in formData. The rest of
+// the XML stays as it is. With dataOnly, fields outside of data elements are left alone;
+// hasData tells whether there is such an element.
+func updateFields(xfaXML string, formData types.FormData, dataOnly, verbose bool) (result string, hasData bool) {
+	var out strings.Builder
+	copied := 0 // how much of the XML is in out
+	replace := func(start, end int64, text string) {
+		out.WriteString(xfaXML[copied:start])
+		out.WriteString(text)
+		copied = int(end)
+	}
+
+	type openField struct {
+		value      string // to set
+		depth      int
+		found      bool  // whether it has a value element
+		valueStart int64 // of the content of that element
+		valueDepth int
+	}
+	var field *openField // that is being updated
+	done := make(map[string]bool)
+	dataDepth, depth := 0, 0
+
+	decoder := xml.NewDecoder(strings.NewReader(xfaXML))
+	decoder.Strict = false
+	decoder.CharsetReader = func(charset string, input io.Reader) (io.Reader, error) {
+		return input, nil // the XML is copied byte by byte
+	}
+	for {
+		start := decoder.InputOffset()
+		token, err := decoder.RawToken()
+		if err != nil {
+			break // of the XML, or of what can be read of it
+		}
+		end := decoder.InputOffset()
+
+		switch element := token.(type) {
+		case xml.StartElement:
+			depth++
+			switch {
+			case element.Name.Local == "data":
+				if dataDepth == 0 {
+					dataDepth = depth
+				}
+				hasData = true
+			case element.Name.Local == "field" && field == nil && (!dataOnly || dataDepth > 0):
+				for _, attr := range element.Attr {
+					newValue, ok := formData[attr.Value]
+					if attr.Name.Local != "name" || !ok || done[attr.Value] {
+						continue
+					}
+					done[attr.Value] = true
+					var escaped strings.Builder
+					xml.EscapeText(&escaped, []byte(formatFieldValue(newValue)))
+					field = &openField{value: escaped.String(), depth: depth}
+					if strings.HasSuffix(xfaXML[start:end], "/>") {
+						replace(start, end, openTag(xfaXML[start:end])+"<value>"+field.value+"</value>"+closeTag(element))
+						field.found = true
+					}
+				}
+			case element.Name.Local == "value" && field != nil && !field.found && depth == field.depth+1:
+				field.found = true
+				field.valueDepth = depth
+				field.valueStart = end
+				if strings.HasSuffix(xfaXML[start:end], "/>") {
+					replace(start, end, openTag(xfaXML[start:end])+field.value+closeTag(element))
+					field.valueDepth = 0
+				}
+			}
 
-		if fieldIndex == -1 {
-			if verbose {
-				log.Printf("Warning: Field '%s' not found in XFA XML", fieldName)
+		case xml.EndElement:
+			if field != nil && depth == field.valueDepth {
+				replace(field.valueStart, start, field.value)
+				field.valueDepth = 0
 			}
-			continue
+			if field != nil && depth == field.depth {
+				if !field.found {
+					replace(start, start, "<value>"+field.value+"</value>")
+				}
+				field = nil
+			}
+			if depth == dataDepth {
+				dataDepth = 0
+			}
+			depth--
 		}
+	}
+	out.WriteString(xfaXML[copied:])
 
-		// Find the value element for this field
-		fieldEnd := strings.Index(resultXML[fieldIndex:], "</field>")
-		if fieldEnd == -1 {
-			continue
+	if verbose {
+		for _, name := range sortedNames(formData) {
+			if !done[name] {
+				log.Printf("Warning: Field '%s' not found in XFA XML", name)
+			}
 		}
+	}
+	return out.String(), hasData
+}
 
-		fieldSection := resultXML[fieldIndex : fieldIndex+fieldEnd]
-
-		// Check if value element exists
-		valueStart := strings.Index(fieldSection, "<value>")
-		valueEnd := strings.Index(fieldSection, "</value>")
-
-		valueStr := fmt.Sprintf("%v", newValue)
-
-		if valueStart != -1 && valueEnd != -1 {
-			// Replace existing value
-			beforeValue := resultXML[:fieldIndex+valueStart+7]
-			afterValue := resultXML[fieldIndex+valueEnd:]
-			resultXML = beforeValue + valueStr + afterValue
-		} else {
-			// Insert new value element before </field>
-			beforeFieldEnd := resultXML[:fieldIndex+fieldEnd]
-			afterFieldEnd := resultXML[fieldIndex+fieldEnd:]
-			resultXML = beforeFieldEnd + "<value>" + valueStr + "</value>" + afterFieldEnd
-		}
+// openTag returns the start tag of an element that is a single tag
+func openTag(tag string) string {
+	return strings.TrimSuffix(tag, "/>") + ">"
+}
 
-		if verbose {
-			log.Printf("Updated field '%s' = '%s'", fieldName, valueStr)
-		}
+// closeTag returns the end tag of an element
+func closeTag(element xml.StartElement) string {
+	if element.Name.Space != "" {
+		return "</" + element.Name.Space + ":" + element.Name.Local + ">"
 	}
+	return "</" + element.Name.Local + ">"
+}
 
-	return resultXML, nil
+// sortedNames returns the names that have values, in ascending order
+func sortedNames(values map[string]interface{}) []string {
+	names := make([]string, 0, len(values))
+	for name := range values {
+		names = append(names, name)
+	}
+	sort.Strings(names)
+	return names
 }
diff --git a/forms/xfa/xfa_utils.go b/forms/xfa/xfa_utils.go
index 3881dcc..97a8d71 100644
--- a/forms/xfa/xfa_utils.go
+++ b/forms/xfa/xfa_utils.go
@@ -7,424 +7,13 @@ import (
 	"fmt"
 	"io"
 	"log"
-	"regexp"
-	"strconv"
-	"strings"
 
 	"github.com/benedoc-inc/pdfer/core/encrypt"
+	"github.com/benedoc-inc/pdfer/core/manipulate"
 	"github.com/benedoc-inc/pdfer/core/parse"
 	"github.com/benedoc-inc/pdfer/types"
 )
 
-// findObjectBoundaries finds the start and end of a PDF object using incremental parsing
-// This uses non-encrypted markers ("obj", "endobj") to locate object boundaries
-func findObjectBoundaries(pdfBytes []byte, objIndex int, objNum int, objName string, verbose bool) (objStart, objEnd int, objContent []byte, err error) {
-	// Find object boundaries - search backwards from objIndex to find "obj" keyword
-	// The xref offset might point to encrypted content, but "obj" keyword is not encrypted
-	// Strategy: First try direct pattern search, then fall back to searching for "obj" keyword
-
-	objKeywordPos := -1
-	objStart = objIndex
-
-	// First, try to find the object number pattern directly (works if object header is visible)
-	// This is the most reliable method
-	objPattern := []byte(fmt.Sprintf("%d 0 obj", objNum))
-
-	// Search in a window around the given index first
-	if objIndex >= 0 && objIndex < len(pdfBytes) {
-		searchStart := max(0, objIndex-2000)
-		searchEnd := min(len(pdfBytes), objIndex+2000)
-		searchArea := pdfBytes[searchStart:searchEnd]
-
-		patternPos := bytes.Index(searchArea, objPattern)
-		if patternPos != -1 {
-			objKeywordPos = searchStart + patternPos + len(fmt.Sprintf("%d 0 ", objNum))
-			objStart = searchStart + patternPos
-			// Find line start
-			for objStart > 0 && pdfBytes[objStart-1] != '\n' && pdfBytes[objStart-1] != '\r' {
-				objStart--
-			}
-		}
-	}
-
-	// If pattern not found in window, the object might be compressed or the offset wrong
-	// Try searching entire PDF (slower but more reliable)
-	if objKeywordPos == -1 {
-		patternPos := bytes.Index(pdfBytes, objPattern)
-		if patternPos != -1 {
-			objKeywordPos = patternPos + len(fmt.Sprintf("%d 0 ", objNum))
-			objStart = patternPos
-			// Find line start
-			for objStart > 0 && pdfBytes[objStart-1] != '\n' && pdfBytes[objStart-1] != '\r' {
-				objStart--
-			}
-		} else {
-			// Object header not found - might be compressed or offset is wrong
-			// Try searching for just the number "212" followed by whitespace and "0" near the offset
-			// This handles cases where the object header format is slightly different
-			numStr := fmt.Sprintf("%d", objNum)
-			searchStart := max(0, objIndex-1000)
-			searchEnd := min(len(pdfBytes), objIndex+1000)
-			searchArea := pdfBytes[searchStart:searchEnd]
-
-			// Look for number pattern
-			numBytes := []byte(numStr)
-			numPos := bytes.Index(searchArea, numBytes)
-			if numPos != -1 {
-				// Found the number, check if followed by space/tab and "0 obj"
-				checkPos := searchStart + numPos + len(numBytes)
-				if checkPos+10 < len(pdfBytes) {
-					afterNum := pdfBytes[checkPos : checkPos+10]
-					// Check for whitespace followed by "0 obj"
-					if afterNum[0] == ' ' || afterNum[0] == '\t' || afterNum[0] == '\n' || afterNum[0] == '\r' {
-						if bytes.HasPrefix(afterNum[1:], []byte("0 obj")) {
-							objKeywordPos = checkPos + 1 + 2 // Position after "0 "
-							objStart = searchStart + numPos
-							// Find line start
-							for objStart > 0 && pdfBytes[objStart-1] != '\n' && pdfBytes[objStart-1] != '\r' {
-								objStart--
-							}
-						}
-					}
-				}
-			}
-		}
-	}
-
-	// If still not found, try searching for "obj" keyword near the offset and verify object number
-	if objKeywordPos == -1 {
-		searchWindow := 5000 // Very large window for encrypted PDFs
-		searchStart := max(0, objIndex-searchWindow)
-		searchEnd := min(len(pdfBytes), objIndex+searchWindow)
-		searchArea := pdfBytes[searchStart:searchEnd]
-
-		// Search for "obj" keyword (not encrypted)
-		objKeywordPosInArea := bytes.Index(searchArea, []byte("obj"))
-		if objKeywordPosInArea != -1 {
-			objKeywordPos = searchStart + objKeywordPosInArea
-			// Search backwards to find the start of the object number line
-			for i := objKeywordPos - 1; i >= 0 && i > objKeywordPos-100; i-- {
-				if pdfBytes[i] >= '0' && pdfBytes[i] <= '9' {
-					lineStart := i
-					for lineStart > 0 && pdfBytes[lineStart-1] != '\n' && pdfBytes[lineStart-1] != '\r' {
-						lineStart--
-					}
-					// Verify this is the right object by checking the number
-					lineEnd := objKeywordPos + 3
-					for lineEnd < len(pdfBytes) && pdfBytes[lineEnd] != '\n' && pdfBytes[lineEnd] != '\r' {
-						lineEnd++
-					}
-					lineContent := string(pdfBytes[lineStart:lineEnd])
-					if bytes.Contains([]byte(lineContent), []byte(fmt.Sprintf("%d 0 obj", objNum))) {
-						objStart = lineStart
-						break
-					}
-				}
-			}
-		}
-	}
-
-	// If still not found, the object header might be missing or the object is compressed
-	// UniPDF approach: use the xref offset directly and decrypt content there
-	// The xref offset points to the start of encrypted content, so start there
-	// But we should also try searching backwards a bit in case there's a header
-	if objKeywordPos == -1 {
-		// For encrypted PDFs without visible headers, UniPDF decrypts at the xref offset
-		// Try starting slightly before the offset (in case there's a short header)
-		// Then decrypt a larger chunk to ensure we get the full object
-		searchBack := 200 // Search backwards for potential header
-		objStart = max(0, objIndex-searchBack)
-		estimatedSize := 10000 // Larger estimate for AcroForm with XFA
-		objEnd = min(len(pdfBytes), objIndex+estimatedSize)
-		objContent = pdfBytes[objStart:objEnd]
-
-		if verbose {
-			log.Printf("%s object %d: Using xref offset with search window (start=%d, xref=%d, end=%d) - header not found, will decrypt and look for structure",
-				objName, objNum, objStart, objIndex, objEnd)
-		}
-	} else {
-		// Found obj keyword - find endobj normally
-		// Find "endobj" - search forward from objStart
-		objEndBytes := bytes.Index(pdfBytes[objStart:], []byte("endobj"))
-		if objEndBytes == -1 {
-			return 0, 0, nil, fmt.Errorf("%s object %d end not found", objName, objNum)
-		}
-		objEnd = objStart + objEndBytes + 6 // Include "endobj"
-		objContent = pdfBytes[objStart:objEnd]
-	}
-
-	return objStart, objEnd, objContent, nil
-}
-
-// extractDictionaryKeys extracts PDF dictionary keys for debugging
-func extractDictionaryKeys(dictContent []byte) string {
-	var keys []string
-	// Simple extraction: look for /Key patterns
-	content := string(dictContent)
-	keyPattern := regexp.MustCompile(`/([A-Za-z][A-Za-z0-9]*)`)
-	matches := keyPattern.FindAllStringSubmatch(content, -1)
-	for _, match := range matches {
-		if len(match) > 1 {
-			keys = append(keys, match[1])
-		}
-	}
-	if len(keys) > 0 {
-		return strings.Join(keys, ", ")
-	}
-	return "none found"
-}
-
-// findAndDecryptAcroForm finds and decrypts the AcroForm object, returning the decrypted content
-func findAndDecryptAcroForm(pdfBytes []byte, acroFormObjNum int, encryptInfo *types.PDFEncryption, verbose bool) ([]byte, error) {
-	// Find the AcroForm object
-	objIndex, err := parse.FindObjectByNumber(pdfBytes, acroFormObjNum, encryptInfo, verbose)
-	if err != nil {
-		return nil, fmt.Errorf("AcroForm object %d not found: %v", acroFormObjNum, err)
-	}
-
-	// Find object boundaries using incremental parsing
-	objStart, objEnd, objContent, err := findObjectBoundaries(pdfBytes, objIndex, acroFormObjNum, "AcroForm", verbose)
-	if err != nil {
-		return nil, err
-	}
-
-	if verbose {
-		log.Printf("AcroForm object %d: objStart=%d, objEnd=%d, content length=%d", acroFormObjNum, objStart, objEnd, len(objContent))
-	}
-
-	// Decrypt if needed - only decrypt the encrypted portions between markers
-	var decryptedContent []byte
-	if encryptInfo != nil {
-		// Find object structure markers (these are NOT encrypted)
-		objKeywordPos := bytes.Index(objContent, []byte("obj"))
-
-		// Extract generation number from object header (if available)
-		genNum := 0
-		if objKeywordPos != -1 {
-			genNum = extractGenerationNumber(objContent, acroFormObjNum)
-			if verbose {
-				log.Printf("Extracted generation number for AcroForm object %d: %d", acroFormObjNum, genNum)
-			}
-		} else {
-			// Object header not found - try to extract from objContent by searching for pattern
-			genNum = extractGenerationNumber(objContent, acroFormObjNum)
-			if genNum == 0 {
-				if verbose {
-					log.Printf("AcroForm object header not found, using default generation number 0")
-				}
-				// Note: If decryption fails, we might need to try other generation numbers
-				// but that would be expensive. Most PDFs use generation 0.
-			} else if verbose {
-				log.Printf("Found generation number %d for AcroForm object %d (header not in expected location)", genNum, acroFormObjNum)
-			}
-		}
-
-		var dataStart int
-		if objKeywordPos == -1 {
-			// Object header not found - UniPDF approach: try decrypting from multiple starting points
-			// The xref offset might point to encrypted content, but alignment is unknown
-			// Try starting from the beginning of objContent and let decryptInChunks find alignment
-			// Also try starting from the xref offset position
-			relativeXrefOffset := objIndex - objStart
-			if relativeXrefOffset < 0 {
-				relativeXrefOffset = 0
-			}
-
-			// Try decrypting from start first (decryptInChunks will try alignments)
-			dataStart = 0
-			if verbose {
-				log.Printf("AcroForm object header not found, trying decryption from start of content (xref at relative offset %d)", relativeXrefOffset)
-			}
-		} else {
-			// Skip "obj" and whitespace to find where encrypted data starts
-			dataStart = objKeywordPos + 3
-			for dataStart < len(objContent) && (objContent[dataStart] == ' ' || objContent[dataStart] == '\r' || objContent[dataStart] == '\n' || objContent[dataStart] == '\t') {
-				dataStart++
-			}
-		}
-
-		// Check if this is a stream object
-		streamKeywordPos := bytes.Index(objContent, []byte("stream"))
-		isStreamObject := streamKeywordPos != -1
-
-		if isStreamObject {
-			// Stream object: decrypt dictionary portion (between "obj" and "stream")
-			// The dictionary is encrypted, but "stream", stream data, "endstream", and "endobj" are not
-			if verbose {
-				log.Printf("AcroForm object is a stream object, decrypting dictionary portion only")
-			}
-
-			// Dictionary is encrypted from dataStart to streamKeywordPos
-			encryptedDict := objContent[dataStart:streamKeywordPos]
-
-			// Decrypt dictionary in chunks if needed (for alignment)
-			// Use extracted generation number
-			decryptedDict, err := decryptInChunks(encryptedDict, acroFormObjNum, genNum, encryptInfo, verbose)
-			if err != nil {
-				if verbose {
-					log.Printf("Failed to decrypt dictionary: %v", err)
-				}
-				decryptedContent = objContent
-			} else {
-				// Reconstruct: object header + decrypted dictionary + "stream" + stream data + "endstream" + "endobj"
-				objectHeader := objContent[:dataStart]
-				streamAndRest := objContent[streamKeywordPos:]
-				decryptedContent = append(objectHeader, decryptedDict...)
-				decryptedContent = append(decryptedContent, streamAndRest...)
-				if verbose {
-					log.Printf("Decrypted dictionary: %d bytes -> %d bytes", len(encryptedDict), len(decryptedDict))
-				}
-			}
-		} else {
-			// Regular object: decrypt content between dataStart and "endobj"
-			endobjPos := bytes.Index(objContent, []byte("endobj"))
-			if endobjPos == -1 {
-				// If endobj not found and no header, try decrypting a reasonable chunk
-				// UniPDF approach: decrypt and look for structure markers
-				if objKeywordPos == -1 {
-					// No header, no endobj - decrypt a chunk starting from xref offset
-					// UniPDF approach: the xref offset points to encrypted content
-					// Calculate where the xref offset is in objContent
-					relativeXrefOffset := objIndex - objStart
-					if relativeXrefOffset < 0 {
-						relativeXrefOffset = 0
-					}
-
-					// Try decrypting from the xref offset position
-					// decryptInChunks will try different alignments, but we should start from xref position
-					decryptStart := relativeXrefOffset
-					decryptLen := min(10000, len(objContent)-decryptStart)
-					// Round down to multiple of 16 for AES
-					decryptLen = (decryptLen / 16) * 16
-					if decryptLen >= 16 {
-						encryptedContent := objContent[decryptStart : decryptStart+decryptLen]
-						if verbose {
-							log.Printf("Attempting to decrypt %d bytes starting from xref position (offset %d in content, absolute %d)",
-								decryptLen, decryptStart, objIndex)
-						}
-						decryptedData, err := decryptInChunks(encryptedContent, acroFormObjNum, genNum, encryptInfo, verbose)
-						if err == nil && len(decryptedData) > 0 {
-							// If decryptInChunks succeeded, use the decrypted content
-							// It will have found valid PDF structure (<< or PDF keywords)
-							decryptedContent = decryptedData
-							if verbose {
-								log.Printf("Successfully decrypted AcroForm (no header/endobj): %d bytes", len(decryptedContent))
-
-								// Output full structure for debugging
-								log.Printf("=== DECRYPTED ACROFORM STRUCTURE ===")
-								log.Printf("Content length: %d bytes", len(decryptedContent))
-
-								// Hex dump of first 2000 bytes
-								previewLen := min(2000, len(decryptedContent))
-								log.Printf("First %d bytes (hex dump):", previewLen)
-								for i := 0; i < previewLen; i += 16 {
-									end := min(i+16, previewLen)
-									hexPart := fmt.Sprintf("%04x: ", i)
-									for j := i; j < end; j++ {
-										hexPart += fmt.Sprintf("%02x ", decryptedContent[j])
-									}
-									log.Printf("%s", hexPart)
-								}
-
-								// ASCII dump
-								log.Printf("First %d bytes (ASCII, non-printable as .):", previewLen)
-								asciiLine := ""
-								for i := 0; i < previewLen; i++ {
-									if i > 0 && i%80 == 0 {
-										log.Printf("%s", asciiLine)
-										asciiLine = ""
-									}
-									b := decryptedContent[i]
-									if b >= 32 && b < 127 {
-										asciiLine += string(b)
-									} else {
-										asciiLine += "."
-									}
-								}
-								if asciiLine != "" {
-									log.Printf("%s", asciiLine)
-								}
-
-								// Check for PDF markers
-								if bytes.Contains(decryptedContent, []byte("<<")) {
-									dictStart := bytes.Index(decryptedContent, []byte("<<"))
-									log.Printf("Found '<<' at offset %d", dictStart)
-									// Show context around dictionary start
-									ctxStart := max(0, dictStart-50)
-									ctxEnd := min(len(decryptedContent), dictStart+200)
-									log.Printf("Context around '<<' (offset %d-%d): %q", ctxStart, ctxEnd, string(decryptedContent[ctxStart:ctxEnd]))
-								}
-								if bytes.Contains(decryptedContent, []byte("/XFA")) {
-									xfaPos := bytes.Index(decryptedContent, []byte("/XFA"))
-									log.Printf("Found '/XFA' at offset %d", xfaPos)
-								} else {
-									log.Printf("'/XFA' NOT found in decrypted content")
-									// Check for XFA with different case/spacing
-									if bytes.Contains(decryptedContent, []byte("XFA")) || bytes.Contains(decryptedContent, []byte("xfa")) {
-										log.Printf("Found 'XFA' (case-insensitive) in decrypted content")
-									}
-								}
-								log.Printf("=== END DECRYPTED ACROFORM STRUCTURE ===")
-							}
-						} else {
-							if verbose {
-								log.Printf("Failed to decrypt: %v", err)
-							}
-							decryptedContent = objContent
-						}
-					} else {
-						decryptedContent = objContent
-					}
-				} else {
-					// Has header but no endobj - decrypt up to end
-					endobjPos = len(objContent)
-					encryptedContent := objContent[dataStart:endobjPos]
-					decryptedData, err := decryptInChunks(encryptedContent, acroFormObjNum, genNum, encryptInfo, verbose)
-					if err != nil {
-						if verbose {
-							log.Printf("Failed to decrypt object content: %v", err)
-						}
-						decryptedContent = objContent
-					} else {
-						objectHeader := objContent[:dataStart]
-						decryptedContent = append(objectHeader, decryptedData...)
-					}
-				}
-			} else {
-				// Has endobj - decrypt normally
-				encryptedContent := objContent[dataStart:endobjPos]
-				decryptedData, err := decryptInChunks(encryptedContent, acroFormObjNum, genNum, encryptInfo, verbose)
-				if err != nil {
-					if verbose {
-						log.Printf("Failed to decrypt object content: %v", err)
-					}
-					decryptedContent = objContent
-				} else {
-					// Reconstruct: object header (if exists) + decrypted content + "endobj" (if exists)
-					if objKeywordPos != -1 {
-						objectHeader := objContent[:dataStart]
-						decryptedContent = append(objectHeader, decryptedData...)
-						decryptedContent = append(decryptedContent, []byte("endobj")...)
-					} else {
-						// No header - just use decrypted content
-						decryptedContent = decryptedData
-						if verbose {
-							log.Printf("Decrypted content (no header): %d bytes, looking for dictionary markers", len(decryptedContent))
-							if bytes.Contains(decryptedContent, []byte("<<")) {
-								log.Printf("Found dictionary markers in decrypted content")
-							}
-						}
-					}
-				}
-			}
-		}
-	} else {
-		decryptedContent = objContent
-	}
-
-	return decryptedContent, nil
-}
-
 // decryptInChunks decrypts data in chunks, trying different alignments to find the correct decryption
 // This handles cases where encrypted data might not start exactly at a 16-byte boundary
 func decryptInChunks(encryptedData []byte, objNum, genNum int, encryptInfo *types.PDFEncryption, verbose bool) ([]byte, error) {
@@ -529,278 +118,6 @@ func decryptInChunks(encryptedData []byte, objNum, genNum int, encryptInfo *type
 	return decrypted, nil
 }
 
-// findXFAArrayContent extracts the XFA array content string from decrypted AcroForm content
-func findXFAArrayContent(decryptedContent []byte, verbose bool) (string, error) {
-	// UniPDF approach: the decrypted content might have padding or extra data
-	// Find where the actual PDF dictionary starts (look for "<<")
-	dictStart := bytes.Index(decryptedContent, []byte("<<"))
-	var xfaPos int = -1
-
-	if dictStart != -1 {
-		// Found dictionary start - find matching >> with proper nesting
-		// Must balance << and >> pairs for nested dictionaries
-		dictEnd := -1
-		depth := 0
-		for i := dictStart; i < len(decryptedContent)-1; i++ {
-			if decryptedContent[i] == '<' && decryptedContent[i+1] == '<' {
-				depth++
-				i++ // Skip second '<'
-			} else if decryptedContent[i] == '>' && decryptedContent[i+1] == '>' {
-				depth--
-				if depth == 0 {
-					dictEnd = i
-					break
-				}
-				i++ // Skip second '>'
-			}
-		}
-		if dictEnd != -1 {
-			dictContent := decryptedContent[dictStart : dictEnd+2]
-			if verbose {
-				log.Printf("Found dictionary start at offset %d, end at %d (length: %d bytes)", dictStart, dictEnd, len(dictContent))
-				// Show the actual dictionary content to verify it's valid
-				previewLen := min(200, len(dictContent))
-				log.Printf("Dictionary content preview: %q", dictContent[:previewLen])
-			}
-
-			// Search for /XFA within the dictionary
-			xfaPos = bytes.Index(dictContent, []byte("/XFA"))
-			if xfaPos != -1 {
-				xfaPos += dictStart // Adjust to absolute position
-			} else {
-				// Try case variations
-				xfaPos = bytes.Index(dictContent, []byte("/xfa"))
-				if xfaPos != -1 {
-					xfaPos += dictStart
-				}
-			}
-
-			if xfaPos != -1 {
-				if verbose {
-					log.Printf("Found /XFA at offset %d within dictionary", xfaPos)
-				}
-			} else if verbose {
-				// Dictionary found but no /XFA - show what's in the dictionary
-				log.Printf("Dictionary found but /XFA not found. Dictionary keys: %q", extractDictionaryKeys(dictContent))
-			}
-		} else if verbose {
-			log.Printf("Found '<<' at offset %d but no matching '>>' found - might be false positive", dictStart)
-		}
-	}
-
-	// If not found from dictionary, try searching entire content
-	if xfaPos == -1 {
-		xfaPos = bytes.Index(decryptedContent, []byte("/XFA"))
-	}
-	if xfaPos == -1 {
-		// Try case variations
-		xfaPos = bytes.Index(decryptedContent, []byte("/xfa"))
-	}
-	if xfaPos == -1 {
-		// Try with spaces
-		xfaPos = bytes.Index(decryptedContent, []byte("/ XFA"))
-	}
-	if xfaPos == -1 {
-		// Try searching byte by byte
-		for i := 0; i < len(decryptedContent)-3; i++ {
-			if decryptedContent[i] == '/' &&
-				(decryptedContent[i+1] == 'X' || decryptedContent[i+1] == 'x') &&
-				(decryptedContent[i+2] == 'F' || decryptedContent[i+2] == 'f') &&
-				(decryptedContent[i+3] == 'A' || decryptedContent[i+3] == 'a') {
-				xfaPos = i
-				break
-			}
-		}
-	}
-
-	if xfaPos == -1 {
-		if verbose {
-			log.Printf("XFA not found in decrypted content (length: %d bytes)", len(decryptedContent))
-			// Show content around dictionary start if found
-			if dictStart != -1 {
-				previewStart := max(0, dictStart-50)
-				previewEnd := min(len(decryptedContent), dictStart+500)
-				log.Printf("Content around dictionary start (offset %d): %q", dictStart, decryptedContent[previewStart:previewEnd])
-			} else {
-				log.Printf("Decrypted content preview (first 500 bytes): %q", decryptedContent[:min(500, len(decryptedContent))])
-			}
-		}
-		return "", fmt.Errorf("XFA entry not found in AcroForm")
-	}
-
-	// Find array after /XFA
-	arrayStart := bytes.Index(decryptedContent[xfaPos:], []byte("["))
-	if arrayStart == -1 {
-		return "", fmt.Errorf("XFA array start not found after /XFA")
-	}
-	arrayStartIdx := xfaPos + arrayStart + 1 // Position after '['
-
-	// Find matching ']' for the array
-	// Start at depth 1 because we've already passed the opening '['
-	depth := 1
-	arrayEndIdx := arrayStartIdx
-	for i := arrayStartIdx; i < len(decryptedContent) && i < arrayStartIdx+10000; i++ {
-		if decryptedContent[i] == '[' {
-			depth++
-		} else if decryptedContent[i] == ']' {
-			depth--
-			if depth == 0 {
-				arrayEndIdx = i + 1
-				break
-			}
-		}
-	}
-
-	if arrayEndIdx == arrayStartIdx {
-		return "", fmt.Errorf("could not find end of XFA array")
-	}
-
-	return string(decryptedContent[arrayStartIdx:arrayEndIdx]), nil
-}
-
-// extractGenerationNumber extracts the generation number from an object header
-// Object format: "objNum genNum obj"
-// Returns the generation number, or 0 if not found (most objects are generation 0)
-func extractGenerationNumber(objContent []byte, objNum int) int {
-	// Find object header pattern: "objNum genNum obj"
-	// Try multiple patterns to handle different whitespace
-	patterns := []*regexp.Regexp{
-		regexp.MustCompile(fmt.Sprintf(`%d\s+(\d+)\s+obj`, objNum)), // Standard: "123 0 obj"
-		regexp.MustCompile(fmt.Sprintf(`%d\s+(\d+)\s+obj`, objNum)), // With tabs
-		regexp.MustCompile(fmt.Sprintf(`%d\s*(\d+)\s*obj`, objNum)), // Flexible whitespace
-	}
-
-	for _, pattern := range patterns {
-		match := pattern.FindSubmatch(objContent)
-		if match != nil && len(match) > 1 {
-			genNum, err := strconv.Atoi(string(match[1]))
-			if err == nil {
-				return genNum
-			}
-		}
-	}
-
-	// Also try searching in a larger window if objContent is large
-	// Sometimes the header might be further in if there's padding
-	if len(objContent) > 1000 {
-		// Search first 500 bytes more carefully
-		searchArea := objContent[:min(500, len(objContent))]
-		for _, pattern := range patterns {
-			match := pattern.FindSubmatch(searchArea)
-			if match != nil && len(match) > 1 {
-				genNum, err := strconv.Atoi(string(match[1]))
-				if err == nil {
-					return genNum
-				}
-			}
-		}
-	}
-
-	// Default to 0 if not found (most PDF objects are generation 0)
-	return 0
-}
-
-// This follows the same approach as findAndDecryptAcroForm: parse structure first, then decrypt only encrypted portions
-func extractStreamFromPDF(pdfBytes []byte, streamObjNum int, encryptInfo *types.PDFEncryption, verbose bool) ([]byte, int, error) {
-	// Find the stream object using incremental parser (finds non-encrypted markers)
-	streamObjIndex, err := parse.FindObjectByNumber(pdfBytes, streamObjNum, encryptInfo, verbose)
-	if err != nil {
-		return nil, 0, fmt.Errorf("stream object %d not found: %v", streamObjNum, err)
-	}
-
-	// Find object boundaries using incremental parsing
-	objStart, objEnd, objContent, err := findObjectBoundaries(pdfBytes, streamObjIndex, streamObjNum, "stream", verbose)
-	if err != nil {
-		return nil, 0, err
-	}
-
-	if verbose {
-		log.Printf("Stream object %d: objStart=%d, objEnd=%d, content length=%d", streamObjNum, objStart, objEnd, len(objContent))
-	}
-
-	// Find structure markers (these are NOT encrypted)
-	objKeywordPosInContent := bytes.Index(objContent, []byte("obj"))
-	if objKeywordPosInContent == -1 {
-		return nil, 0, fmt.Errorf("'obj' keyword not found in stream object %d", streamObjNum)
-	}
-
-	// Extract generation number from object header (CRITICAL for correct key derivation)
-	genNum := extractGenerationNumber(objContent, streamObjNum)
-	if verbose {
-		log.Printf("Extracted generation number for object %d: %d", streamObjNum, genNum)
-	}
-
-	// Skip "obj" and whitespace to find where encrypted data starts
-	dataStart := objKeywordPosInContent + 3
-	for dataStart < len(objContent) && (objContent[dataStart] == ' ' || objContent[dataStart] == '\r' || objContent[dataStart] == '\n' || objContent[dataStart] == '\t') {
-		dataStart++
-	}
-
-	// Find "stream" keyword (not encrypted)
-	streamKeywordPos := bytes.Index(objContent, []byte("stream"))
-	if streamKeywordPos == -1 {
-		return nil, 0, fmt.Errorf("stream keyword not found for object %d", streamObjNum)
-	}
-
-	// Get /Length from dictionary (between dataStart and streamKeywordPos)
-	dictContent := string(objContent[dataStart:streamKeywordPos])
-	lengthPattern := regexp.MustCompile(`/Length\s+(\d+)`)
-	lengthMatch := lengthPattern.FindStringSubmatch(dictContent)
-
-	var streamLength int
-	if lengthMatch != nil {
-		streamLength, _ = strconv.Atoi(lengthMatch[1])
-	}
-
-	// Extract stream data
-	// Skip "stream" keyword (6 bytes) and EOL
-	streamDataStart := streamKeywordPos + 6
-
-	// Skip exactly one EOL marker per PDF spec
-	if streamDataStart < len(objContent) && objContent[streamDataStart] == '\r' {
-		streamDataStart++
-	}
-	if streamDataStart < len(objContent) && objContent[streamDataStart] == '\n' {
-		streamDataStart++
-	}
-
-	// Use /Length if available, otherwise find endstream
-	var streamContent []byte
-	if streamLength > 0 && streamDataStart+streamLength <= len(objContent) {
-		streamContent = objContent[streamDataStart : streamDataStart+streamLength]
-	} else {
-		// Fallback: find endstream
-		endstreamPos := bytes.Index(objContent[streamDataStart:], []byte("endstream"))
-		if endstreamPos == -1 {
-			return nil, 0, fmt.Errorf("endstream not found for object %d", streamObjNum)
-		}
-		streamContent = objContent[streamDataStart : streamDataStart+endstreamPos]
-	}
-
-	streamDataEnd := streamDataStart + len(streamContent)
-
-	if verbose {
-		log.Printf("Stream object %d: dictionary encrypted from %d to %d, stream data from %d to %d",
-			streamObjNum, dataStart, streamKeywordPos, streamDataStart, streamDataEnd)
-	}
-
-	// Decrypt stream data if needed (dictionary decryption not needed for extraction, only for reading)
-	if encryptInfo != nil {
-		// Decrypt the stream data itself (not the dictionary)
-		// Use the extracted generation number instead of hardcoded 0
-		decryptedStream, err := encrypt.DecryptObject(streamContent, streamObjNum, genNum, encryptInfo)
-		if err != nil {
-			return nil, 0, fmt.Errorf("error decrypting stream data for object %d (gen %d): %v", streamObjNum, genNum, err)
-		}
-		streamContent = decryptedStream
-		if verbose {
-			log.Printf("Decrypted stream data: %d bytes -> %d bytes", len(objContent[streamDataStart:streamDataEnd]), len(streamContent))
-		}
-	}
-
-	return streamContent, streamObjNum, nil
-}
-
 // DecompressStream attempts to decompress a stream (handles FlateDecode)
 // FlateDecode can be either raw deflate or zlib-wrapped
 func DecompressStream(streamBytes []byte) ([]byte, bool, error) {
@@ -829,15 +146,12 @@ func DecompressStream(streamBytes []byte) ([]byte, bool, error) {
 	return streamBytes, false, nil
 }
 
-// CompressStream compresses data using FlateDecode
+// CompressStream compresses data for FlateDecode, which is zlib-wrapped
 func CompressStream(data []byte) ([]byte, error) {
 	var buf bytes.Buffer
-	writer, err := flate.NewWriter(&buf, flate.DefaultCompression)
-	if err != nil {
-		return nil, err
-	}
+	writer := zlib.NewWriter(&buf)
 
-	_, err = writer.Write(data)
+	_, err := writer.Write(data)
 	if err != nil {
 		writer.Close()
 		return nil, err
@@ -851,72 +165,23 @@ func CompressStream(data []byte) ([]byte, error) {
 	return buf.Bytes(), nil
 }
 
-// ReplaceStreamInPDF replaces a stream in the PDF and updates the length
+// ReplaceStreamInPDF replaces the data of a stream in the PDF and updates the length
 func ReplaceStreamInPDF(pdfBytes []byte, streamObjNum int, newStream []byte, verbose bool) ([]byte, error) {
-	pdfStr := string(pdfBytes)
-
-	// Find the stream object
-	streamObjPattern := regexp.MustCompile(fmt.Sprintf(`%d\s+%d\s+obj`, streamObjNum, 0))
-	streamObjMatch := streamObjPattern.FindStringIndex(pdfStr)
-	if streamObjMatch == nil {
-		return nil, fmt.Errorf("stream object %d not found", streamObjNum)
-	}
-
-	// Find stream dictionary (before "stream" keyword)
-	streamKeywordPos := bytes.Index(pdfBytes[streamObjMatch[0]:], []byte("stream"))
-	if streamKeywordPos == -1 {
-		return nil, fmt.Errorf("stream keyword not found")
-	}
-
-	dictStart := streamObjMatch[0]
-	dictEnd := streamObjMatch[0] + streamKeywordPos
-
-	// Find and update /Length entry
-	lengthPattern := regexp.MustCompile(`/Length\s+(\d+)`)
-	lengthMatch := lengthPattern.FindStringSubmatchIndex(string(pdfBytes[dictStart:dictEnd]))
-	if lengthMatch == nil {
-		return nil, fmt.Errorf("Length entry not found in stream dictionary")
-	}
-
-	lengthStart := dictStart + lengthMatch[2]
-	lengthEnd := dictStart + lengthMatch[3]
-
-	// Replace length
-	newLength := strconv.Itoa(len(newStream))
-
-	// Find stream start and end (need to recalculate after length update)
-	// Re-find stream position - use bytes.Index since we'll be modifying pdfBytes
-	streamKeywordPos = bytes.Index(pdfBytes[dictStart:], []byte("stream"))
-	if streamKeywordPos == -1 {
-		return nil, fmt.Errorf("stream keyword not found")
-	}
-
-	// Skip "stream" keyword (6 bytes) and any whitespace
-	streamStart := dictStart + streamKeywordPos + 6
-	for streamStart < len(pdfBytes) && (pdfBytes[streamStart] == '\r' || pdfBytes[streamStart] == '\n' || pdfBytes[streamStart] == ' ' || pdfBytes[streamStart] == '\t') {
-		streamStart++
+	m, err := manipulate.NewPDFManipulator(pdfBytes, nil, verbose)
+	if err != nil {
+		return nil, err
 	}
-
-	endstreamPos := bytes.Index(pdfBytes[streamStart:], []byte("endstream"))
-	if endstreamPos == -1 {
-		return nil, fmt.Errorf("endstream not found")
+	content, ok := m.Object(streamObjNum)
+	if !ok {
+		return nil, fmt.Errorf("stream object %d not found", streamObjNum)
 	}
-
-	streamEnd := streamStart + endstreamPos
-	afterStream := pdfBytes[streamEnd:]
-
-	// Reconstruct PDF: before length + new length + between length and stream + new stream + after stream
-	beforeLength := pdfBytes[:lengthStart]
-	betweenLengthAndStream := pdfBytes[lengthEnd:streamStart]
-
-	result := append(beforeLength, []byte(newLength)...)
-	result = append(result, betweenLengthAndStream...)
-	result = append(result, newStream...)
-	result = append(result, afterStream...)
-
-	if verbose {
-		log.Printf("Replaced stream %d: old length %s, new length %d", streamObjNum, string(pdfBytes[lengthStart:lengthEnd]), len(newStream))
+	dict, _, ok := parse.SplitStream(content)
+	if !ok {
+		return nil, fmt.Errorf("object %d is not a stream", streamObjNum)
 	}
 
-	return result, nil
+	content = append(parse.SetLength(dict, len(newStream)), "\nstream\n"...)
+	content = append(content, newStream...)
+	m.SetObject(streamObjNum, append(content, "\nendstream"...))
+	return m.Rebuild()
 }
-- 
2.43.0


From 1e0a73ac0bdb29deec77e0d3bb45a00e8aaff65a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:12 +0000
Subject: [PATCH 63/99] fix: XFA templates with nested subforms, options,
 scripts and patterns

---
 forms/xfa/xfa_form_translator.go | 75 ++++++++++++++++++--------------
 1 file changed, 43 insertions(+), 32 deletions(-)

diff --git a/forms/xfa/xfa_form_translator.go b/forms/xfa/xfa_form_translator.go
index 10499b5..c88fee5 100644
--- a/forms/xfa/xfa_form_translator.go
+++ b/forms/xfa/xfa_form_translator.go
@@ -169,20 +169,24 @@ func encodeQuestionAsField(enc *xml.Encoder, question types.Question) error {
 
 	// Add layout properties
 	if question.Properties != nil {
-		for key, val := range question.Properties {
-			if key == "x" || key == "y" || key == "w" || key == "h" {
+		for _, key := range []string{"x", "y", "w", "h"} {
+			if val, ok := question.Properties[key]; ok {
 				fieldStart.Attr = append(fieldStart.Attr, xml.Attr{
 					Name:  xml.Name{Local: key},
 					Value: fmt.Sprintf("%v", val),
 				})
 			}
 		}
-		if pageNum, ok := question.Properties["page_number"].(int); ok && pageNum > 0 {
-			fieldStart.Attr = append(fieldStart.Attr, xml.Attr{
-				Name:  xml.Name{Local: "page"},
-				Value: strconv.Itoa(pageNum),
-			})
-		}
+	}
+	pageNum, ok := question.Properties["page_number"].(int)
+	if !ok {
+		pageNum = question.PageNumber
+	}
+	if pageNum > 0 {
+		fieldStart.Attr = append(fieldStart.Attr, xml.Attr{
+			Name:  xml.Name{Local: "page"},
+			Value: strconv.Itoa(pageNum),
+		})
 	}
 
 	if err := enc.EncodeToken(fieldStart); err != nil {
@@ -478,16 +482,17 @@ func parseXFAStructure(xfaXML string, verbose bool) (*XFAStructure, error) {
 	decoder.Strict = false // Allow malformed XML
 
 	var currentField *XFAFieldData
-	var currentSubform *XFASubformData
+	var subforms []*XFASubformData  // that are open, from the outermost
+	var currentText strings.Builder // of an option, a script or a pattern
 	var currentValue strings.Builder
 	var currentLabel strings.Builder
 	var currentDescription strings.Builder
 	var inField bool
-	var inSubform bool
 	var inValue bool
 	var inLabel bool
 	var inDescription bool
 	var inItems bool // For choice options
+	var inText bool
 	var fieldIndex int
 
 	for {
@@ -518,15 +523,15 @@ func parseXFAStructure(xfaXML string, verbose bool) (*XFAStructure, error) {
 					}
 				}
 			case "subform":
-				inSubform = true
-				currentSubform = &XFASubformData{
+				subform := &XFASubformData{
 					Fields: make([]XFAFieldData, 0),
 				}
 				for _, attr := range se.Attr {
 					if attr.Name.Local == "name" {
-						currentSubform.Name = attr.Value
+						subform.Name = attr.Value
 					}
 				}
+				subforms = append(subforms, subform)
 			case "field":
 				inField = true
 				fieldIndex++
@@ -588,7 +593,8 @@ func parseXFAStructure(xfaXML string, verbose bool) (*XFAStructure, error) {
 			case "text":
 				// Option text in items
 				if inItems && inField {
-					currentValue.Reset()
+					inText = true
+					currentText.Reset()
 				}
 			case "event":
 				if inField {
@@ -606,7 +612,8 @@ func parseXFAStructure(xfaXML string, verbose bool) (*XFAStructure, error) {
 			case "script":
 				if inField && len(currentField.Events) > 0 {
 					// Script content will be in CharData
-					currentValue.Reset()
+					inText = true
+					currentText.Reset()
 				}
 			case "validate":
 				if inField {
@@ -624,7 +631,8 @@ func parseXFAStructure(xfaXML string, verbose bool) (*XFAStructure, error) {
 				}
 			case "pattern":
 				if inField && currentField.Validation != nil {
-					currentValue.Reset()
+					inText = true
+					currentText.Reset()
 				}
 			case "bind":
 				if inField {
@@ -660,11 +668,12 @@ func parseXFAStructure(xfaXML string, verbose bool) (*XFAStructure, error) {
 						currentField.Description = strings.TrimSpace(currentDescription.String())
 					}
 
-					if inSubform && currentSubform != nil {
-						currentSubform.Fields = append(currentSubform.Fields, *currentField)
-					} else {
-						structure.Fields = append(structure.Fields, *currentField)
+					if len(subforms) > 0 {
+						subform := subforms[len(subforms)-1]
+						subform.Fields = append(subform.Fields, *currentField)
 					}
+					// The top-level fields include those of subforms
+					structure.Fields = append(structure.Fields, *currentField)
 				}
 				inField = false
 				currentField = nil
@@ -672,13 +681,10 @@ func parseXFAStructure(xfaXML string, verbose bool) (*XFAStructure, error) {
 				currentLabel.Reset()
 				currentDescription.Reset()
 			case "subform":
-				if currentSubform != nil {
-					structure.Subforms = append(structure.Subforms, *currentSubform)
-					// Also add subform fields to top-level fields
-					structure.Fields = append(structure.Fields, currentSubform.Fields...)
+				if len(subforms) > 0 {
+					structure.Subforms = append(structure.Subforms, *subforms[len(subforms)-1])
+					subforms = subforms[:len(subforms)-1]
 				}
-				inSubform = false
-				currentSubform = nil
 			case "value":
 				if inField && currentField != nil {
 					val := strings.TrimSpace(currentValue.String())
@@ -706,26 +712,31 @@ func parseXFAStructure(xfaXML string, verbose bool) (*XFAStructure, error) {
 				if inItems && inField && currentField != nil {
 					// This is an option value
 					option := XFAOption{
-						Value: strings.TrimSpace(currentValue.String()),
-						Label: strings.TrimSpace(currentValue.String()),
+						Value: strings.TrimSpace(currentText.String()),
+						Label: strings.TrimSpace(currentText.String()),
 					}
 					currentField.Options = append(currentField.Options, option)
+					inText = false
 				}
 			case "script":
 				if inField && len(currentField.Events) > 0 {
 					// Add script to last event
 					lastEvent := &currentField.Events[len(currentField.Events)-1]
-					lastEvent.Script = strings.TrimSpace(currentValue.String())
+					lastEvent.Script = strings.TrimSpace(currentText.String())
+					inText = false
 				}
 			case "pattern":
 				if inField && currentField.Validation != nil {
-					currentField.Validation.Pattern = strings.TrimSpace(currentValue.String())
+					currentField.Validation.Pattern = strings.TrimSpace(currentText.String())
+					inText = false
 				}
 			}
 
 		case xml.CharData:
 			data := string(se)
-			if inValue && inField {
+			if inText && inField {
+				currentText.WriteString(data)
+			} else if inValue && inField {
 				currentValue.WriteString(data)
 			} else if inLabel && inField {
 				currentLabel.WriteString(data)
@@ -799,7 +810,7 @@ func mapXFATypeToResponseTypeEnum(xfaType string) types.ResponseType {
 		return types.ResponseTypeRadio
 	case "checkbox", "checkbutton":
 		return types.ResponseTypeCheckbox
-	case "select", "choice", "dropdown", "listbox":
+	case "select", "choice", "choicelist", "dropdown", "listbox":
 		return types.ResponseTypeSelect
 	case "numeric", "decimal", "integer", "float":
 		return types.ResponseTypeNumber
-- 
2.43.0


From cf55f395de15248a8067c09bc30afeaaede7c072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:12 +0000
Subject: [PATCH 64/99] fix: nested groups of XFA datasets, and fields in a
 fixed order

---
 forms/xfa/xfa_datasets_translator.go | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/forms/xfa/xfa_datasets_translator.go b/forms/xfa/xfa_datasets_translator.go
index 473a443..21b7ad9 100644
--- a/forms/xfa/xfa_datasets_translator.go
+++ b/forms/xfa/xfa_datasets_translator.go
@@ -31,7 +31,6 @@ func ParseXFADatasets(xfaDatasetsXML string, verbose bool) (*types.XFADatasets,
 	var inData bool
 	var inField bool
 	var inValue bool
-	var inGroup bool
 	var groupStack []*types.XFAFieldGroup
 
 	for {
@@ -69,7 +68,6 @@ func ParseXFADatasets(xfaDatasetsXML string, verbose bool) (*types.XFADatasets,
 			default:
 				// Treat unknown elements as groups if they're not standard XFA elements
 				if inData && !isStandardXFAElement(localName) {
-					inGroup = true
 					group := &types.XFAFieldGroup{
 						Name:   localName,
 						Fields: make(map[string]interface{}),
@@ -111,7 +109,7 @@ func ParseXFADatasets(xfaDatasetsXML string, verbose bool) (*types.XFADatasets,
 				inValue = false
 			default:
 				// End of group
-				if inGroup && currentGroup != nil && localName == currentGroup.Name {
+				if currentGroup != nil && localName == currentGroup.Name {
 					if len(groupStack) > 0 {
 						// Add to parent group
 						parent := groupStack[len(groupStack)-1]
@@ -123,7 +121,6 @@ func ParseXFADatasets(xfaDatasetsXML string, verbose bool) (*types.XFADatasets,
 						datasets.Groups = append(datasets.Groups, *currentGroup)
 						currentGroup = nil
 					}
-					inGroup = false
 				}
 			}
 
@@ -186,8 +183,8 @@ func DatasetsToXFA(datasets *types.XFADatasets, verbose bool) (string, error) {
 	}
 
 	// Encode top-level fields
-	for name, value := range datasets.Fields {
-		if err := encodeField(enc, name, value); err != nil {
+	for _, name := range sortedNames(datasets.Fields) {
+		if err := encodeField(enc, name, datasets.Fields[name]); err != nil {
 			return "", fmt.Errorf("failed to encode field %s: %v", name, err)
 		}
 	}
@@ -259,8 +256,8 @@ func encodeFieldGroup(enc *xml.Encoder, group types.XFAFieldGroup) error {
 	}
 
 	// Encode fields in group
-	for name, value := range group.Fields {
-		if err := encodeField(enc, name, value); err != nil {
+	for _, name := range sortedNames(group.Fields) {
+		if err := encodeField(enc, name, group.Fields[name]); err != nil {
 			return err
 		}
 	}
-- 
2.43.0


From 8a12076ebdf25c904824e0c9cb023ba8468e9647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:12 +0000
Subject: [PATCH 65/99] fix: XFA properties are written in a fixed order

---
 forms/xfa/xfa_config_translator.go     | 3 ++-
 forms/xfa/xfa_connection_translator.go | 6 ++++--
 forms/xfa/xfa_stylesheet_translator.go | 3 ++-
 3 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/forms/xfa/xfa_config_translator.go b/forms/xfa/xfa_config_translator.go
index 955022a..5a7bbef 100644
--- a/forms/xfa/xfa_config_translator.go
+++ b/forms/xfa/xfa_config_translator.go
@@ -324,7 +324,8 @@ func ConfigToXFA(config *types.XFAConfig, verbose bool) (string, error) {
 
 	// Encode additional properties
 	if config.Properties != nil {
-		for key, value := range config.Properties {
+		for _, key := range sortedNames(config.Properties) {
+			value := config.Properties[key]
 			elemStart := xml.StartElement{Name: xml.Name{Local: key}}
 			if err := enc.EncodeToken(elemStart); err != nil {
 				return "", err
diff --git a/forms/xfa/xfa_connection_translator.go b/forms/xfa/xfa_connection_translator.go
index 4d2bea0..767b762 100644
--- a/forms/xfa/xfa_connection_translator.go
+++ b/forms/xfa/xfa_connection_translator.go
@@ -276,7 +276,8 @@ func encodeConnection(enc *xml.Encoder, connection types.XFAConnection) error {
 
 	// Encode properties
 	if connection.Properties != nil {
-		for key, value := range connection.Properties {
+		for _, key := range sortedNames(connection.Properties) {
+			value := connection.Properties[key]
 			elemStart := xml.StartElement{Name: xml.Name{Local: key}}
 			if err := enc.EncodeToken(elemStart); err != nil {
 				return err
@@ -317,7 +318,8 @@ func encodeDataDescription(enc *xml.Encoder, desc *types.XFADataDescription) err
 
 	// Encode properties
 	if desc.Properties != nil {
-		for key, value := range desc.Properties {
+		for _, key := range sortedNames(desc.Properties) {
+			value := desc.Properties[key]
 			elemStart := xml.StartElement{Name: xml.Name{Local: key}}
 			if err := enc.EncodeToken(elemStart); err != nil {
 				return err
diff --git a/forms/xfa/xfa_stylesheet_translator.go b/forms/xfa/xfa_stylesheet_translator.go
index fcc2517..cfb2e82 100644
--- a/forms/xfa/xfa_stylesheet_translator.go
+++ b/forms/xfa/xfa_stylesheet_translator.go
@@ -382,7 +382,8 @@ func encodeStyle(enc *xml.Encoder, style types.XFAStyle) error {
 	}
 
 	// Encode other properties
-	for key, value := range style.Properties {
+	for _, key := range sortedNames(style.Properties) {
+		value := style.Properties[key]
 		if key != "font" && key != "border" && key != "margin" && key != "padding" && key != "position" && key != "size" {
 			elemStart := xml.StartElement{Name: xml.Name{Local: key}}
 			if err := enc.EncodeToken(elemStart); err != nil {
-- 
2.43.0


From e16b962c39f4805b298d7c84cb359161ccb3fef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:12 +0000
Subject: [PATCH 66/99] fix: XFA forms of encrypted documents are read and
 filled with the password

---
 forms/forms.go | 43 +++++++++++++++++++++++++++++--------------
 1 file changed, 29 insertions(+), 14 deletions(-)

diff --git a/forms/forms.go b/forms/forms.go
index bd30a45..a0c94da 100644
--- a/forms/forms.go
+++ b/forms/forms.go
@@ -3,6 +3,7 @@
 package forms
 
 import (
+	"github.com/benedoc-inc/pdfer/core/parse"
 	"github.com/benedoc-inc/pdfer/forms/acroform"
 	"github.com/benedoc-inc/pdfer/forms/xfa"
 	"github.com/benedoc-inc/pdfer/types"
@@ -79,18 +80,14 @@ func (w *XFAFormWrapper) Schema() *types.FormSchema {
 }
 
 func (w *XFAFormWrapper) Fill(pdfBytes []byte, data types.FormData, password []byte, verbose bool) ([]byte, error) {
-	// Get encryption info if needed
-	var encryptInfo *types.PDFEncryption
-	if len(password) > 0 || len(w.password) > 0 {
-		pwd := password
-		if len(pwd) == 0 {
-			pwd = w.password
-		}
-		// Parse encryption if PDF is encrypted
-		// For now, use the XFA update function
-		return xfa.UpdateXFAInPDF(pdfBytes, data, encryptInfo, verbose)
+	if len(password) == 0 {
+		password = w.password
+	}
+	encryptInfo, err := encryption(pdfBytes, password)
+	if err != nil {
+		return nil, err
 	}
-	return xfa.UpdateXFAInPDF(pdfBytes, data, nil, verbose)
+	return xfa.UpdateXFAInPDF(pdfBytes, data, encryptInfo, verbose)
 }
 
 func (w *XFAFormWrapper) Validate(data types.FormData) []error {
@@ -106,6 +103,24 @@ func (w *XFAFormWrapper) GetValues() map[string]interface{} {
 	return make(map[string]interface{})
 }
 
+// encryption returns the encryption of a PDF that password opens, or nil if it has none
+func encryption(pdfBytes []byte, password []byte) (*types.PDFEncryption, error) {
+	pdf, err := parse.OpenWithOptions(pdfBytes, parse.ParseOptions{Password: password})
+	if err != nil {
+		return nil, err
+	}
+	return pdf.Encryption(), nil
+}
+
+// extractXFAStreams extracts the XFA streams of a PDF that password opens
+func extractXFAStreams(pdfBytes []byte, password []byte, verbose bool) (*xfa.XFAStreams, error) {
+	encryptInfo, err := encryption(pdfBytes, password)
+	if err != nil {
+		return nil, err
+	}
+	return xfa.ExtractAllXFAStreams(pdfBytes, encryptInfo, verbose)
+}
+
 // Detect detects the form type in a PDF
 func Detect(pdfBytes []byte, password []byte, verbose bool) (FormType, error) {
 	// Try AcroForm first
@@ -115,7 +130,7 @@ func Detect(pdfBytes []byte, password []byte, verbose bool) (FormType, error) {
 	}
 
 	// Try XFA
-	streams, err := xfa.ExtractAllXFAStreams(pdfBytes, nil, verbose)
+	streams, err := extractXFAStreams(pdfBytes, password, verbose)
 	if err == nil && streams.Template != nil && len(streams.Template.Data) > 0 {
 		return FormTypeXFA, nil
 	}
@@ -137,7 +152,7 @@ func Extract(pdfBytes []byte, password []byte, verbose bool) (Form, error) {
 	}
 
 	// Try XFA
-	streams, err := xfa.ExtractAllXFAStreams(pdfBytes, nil, verbose)
+	streams, err := extractXFAStreams(pdfBytes, password, verbose)
 	if err == nil && streams.Template != nil && len(streams.Template.Data) > 0 {
 		// Parse XFA form
 		formSchema, err := xfa.ParseXFAForm(string(streams.Template.Data), verbose)
@@ -169,7 +184,7 @@ func ExtractAcroForm(pdfBytes []byte, password []byte, verbose bool) (*acroform.
 // ExtractXFA extracts XFA form data (type-specific)
 // Returns the FormSchema and Datasets separately
 func ExtractXFA(pdfBytes []byte, password []byte, verbose bool) (*types.FormSchema, *types.XFADatasets, error) {
-	streams, err := xfa.ExtractAllXFAStreams(pdfBytes, nil, verbose)
+	streams, err := extractXFAStreams(pdfBytes, password, verbose)
 	if err != nil {
 		return nil, nil, err
 	}
-- 
2.43.0


From 296c25b019f3a44069a6b7bfeee81555d985c643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:11 +0000
Subject: [PATCH 67/99] fix: XFA values are the fields of the data section, and
 what is inside a field is no group

---
 forms/xfa/xfa_datasets_translator.go | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/forms/xfa/xfa_datasets_translator.go b/forms/xfa/xfa_datasets_translator.go
index 21b7ad9..7797da3 100644
--- a/forms/xfa/xfa_datasets_translator.go
+++ b/forms/xfa/xfa_datasets_translator.go
@@ -29,6 +29,7 @@ func ParseXFADatasets(xfaDatasetsXML string, verbose bool) (*types.XFADatasets,
 	var currentFieldName string
 	var currentFieldValue strings.Builder
 	var inData bool
+	hasData := hasDataSection(xfaDatasetsXML)
 	var inField bool
 	var inValue bool
 	var groupStack []*types.XFAFieldGroup
@@ -53,6 +54,9 @@ func ParseXFADatasets(xfaDatasetsXML string, verbose bool) (*types.XFADatasets,
 			case "data":
 				inData = true
 			case "field":
+				if hasData && !inData {
+					break // a description of the data, say
+				}
 				inField = true
 				currentFieldValue.Reset()
 				for _, attr := range se.Attr {
@@ -67,7 +71,7 @@ func ParseXFADatasets(xfaDatasetsXML string, verbose bool) (*types.XFADatasets,
 				}
 			default:
 				// Treat unknown elements as groups if they're not standard XFA elements
-				if inData && !isStandardXFAElement(localName) {
+				if inData && !inField && !isStandardXFAElement(localName) {
 					group := &types.XFAFieldGroup{
 						Name:   localName,
 						Fields: make(map[string]interface{}),
@@ -109,7 +113,7 @@ func ParseXFADatasets(xfaDatasetsXML string, verbose bool) (*types.XFADatasets,
 				inValue = false
 			default:
 				// End of group
-				if currentGroup != nil && localName == currentGroup.Name {
+				if currentGroup != nil && !inField && localName == currentGroup.Name {
 					if len(groupStack) > 0 {
 						// Add to parent group
 						parent := groupStack[len(groupStack)-1]
@@ -138,6 +142,22 @@ func ParseXFADatasets(xfaDatasetsXML string, verbose bool) (*types.XFADatasets,
 	return datasets, nil
 }
 
+// hasDataSection tells whether XFA datasets have a data element. If so, the values are
+// those in it.
+func hasDataSection(xfaDatasetsXML string) bool {
+	decoder := xml.NewDecoder(strings.NewReader(xfaDatasetsXML))
+	decoder.Strict = false
+	for {
+		token, err := decoder.Token()
+		if err != nil {
+			return false
+		}
+		if element, ok := token.(xml.StartElement); ok && element.Name.Local == "data" {
+			return true
+		}
+	}
+}
+
 // parseFieldValue attempts to parse a field value as number or boolean
 func parseFieldValue(value string) interface{} {
 	if value == "" {
-- 
2.43.0


From 69e032637feea8a3b7665c686cd2d425103d9d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:50 +0000
Subject: [PATCH 68/99] fix: objects of an object stream with offsets beyond it
 are reported as an error

---
 core/parse/object_stream.go | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/core/parse/object_stream.go b/core/parse/object_stream.go
index 35ba689..a76472c 100644
--- a/core/parse/object_stream.go
+++ b/core/parse/object_stream.go
@@ -431,23 +431,21 @@ func GetObjectFromStream(pdfBytes []byte, objNum int, streamObjNum int, indexInS
 		}
 	}
 
-	// Calculate object data range
-	objDataStart := firstOffset + targetEntry.offset
-	var objDataEnd int
+	// Offsets are relative to the first object
+	objects := decompressed[firstOffset:]
+	if targetEntry.offset < 0 || targetEntry.offset >= len(objects) {
+		return nil, fmt.Errorf("object data offset out of range")
+	}
 
 	// Find next object's offset or end of stream
-	objDataEnd = len(decompressed)
+	objDataEnd := len(objects)
 	for _, e := range entries {
-		if e.offset > targetEntry.offset && firstOffset+e.offset < objDataEnd {
-			objDataEnd = firstOffset + e.offset
+		if e.offset > targetEntry.offset && e.offset < objDataEnd {
+			objDataEnd = e.offset
 		}
 	}
 
-	if targetEntry.offset < 0 || objDataStart >= objDataEnd {
-		return nil, fmt.Errorf("object data offset out of range")
-	}
-
-	objectData := decompressed[objDataStart:objDataEnd]
+	objectData := objects[targetEntry.offset:objDataEnd]
 
 	// Trim trailing whitespace
 	objectData = bytes.TrimRight(objectData, " \t\r\n")
-- 
2.43.0


From b69ead8ec9a6560bfa9aad82e85e96c6df54d250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:50 +0000
Subject: [PATCH 69/99] fix: a dictionary that begins with something other than
 a key is read without a panic

---
 content/extract/dict_helpers.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/content/extract/dict_helpers.go b/content/extract/dict_helpers.go
index fcf51a0..d343009 100644
--- a/content/extract/dict_helpers.go
+++ b/content/extract/dict_helpers.go
@@ -31,7 +31,7 @@ func dictEntries(dictStr string) []dictEntry {
 		}
 		pos = next
 		if depth == 1 && (token == ">>" || token[0] == '/' && (key == "" || start != -1)) {
-			if start != -1 {
+			if start != -1 && key != "" {
 				entries = append(entries, dictEntry{key[1:], string(content[start:end])})
 			}
 			if token == ">>" {
-- 
2.43.0


From 4601cbc2062af561c817d7872e8c2afefd6c8b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:50 +0000
Subject: [PATCH 70/99] fix: the bytes of a revision whose objects or
 cross-reference section are not in order

---
 core/parse/document.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/core/parse/document.go b/core/parse/document.go
index 636014b..6db8bce 100644
--- a/core/parse/document.go
+++ b/core/parse/document.go
@@ -252,7 +252,10 @@ func (r *PDFRevision) RevisionBytes(doc *PDFDocument) []byte {
 	}
 
 	// Determine start offset (first object in this revision, or xref if no objects)
-	startOffset := r.XRef.Offset
+	startOffset := r.StartXRef
+	if r.XRef != nil {
+		startOffset = r.XRef.Offset
+	}
 	for _, obj := range r.Objects {
 		if obj.Offset < startOffset {
 			startOffset = obj.Offset
@@ -270,7 +273,7 @@ func (r *PDFRevision) RevisionBytes(doc *PDFDocument) []byte {
 		}
 	}
 
-	if int(startOffset) >= len(doc.RawBytes) || int(endOffset) > len(doc.RawBytes) {
+	if startOffset < 0 || startOffset > endOffset || endOffset > int64(len(doc.RawBytes)) {
 		return nil
 	}
 
-- 
2.43.0


From f2e54df367aae1d8c1dfd8a80a3a8b180f1538e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:59 +0000
Subject: [PATCH 71/99] fix: repeated graphics and annotations, and form
 fields, are compared in a fixed order and each once

---
 core/compare/compare.go | 80 ++++++++++++++++++++++++++++-------------
 1 file changed, 55 insertions(+), 25 deletions(-)

diff --git a/core/compare/compare.go b/core/compare/compare.go
index cff114e..72363f1 100644
--- a/core/compare/compare.go
+++ b/core/compare/compare.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"fmt"
 	"reflect"
+	"sort"
 
 	"github.com/benedoc-inc/pdfer/content/extract"
 	"github.com/benedoc-inc/pdfer/forms"
@@ -552,24 +553,30 @@ func compareGraphics(g1, g2 []types.Graphic) *GraphicDiff {
 
 	// Simple comparison: compare by type and approximate position
 	// More sophisticated matching could use shape matching
-	g1Map := make(map[string]types.Graphic)
+	unmatched := make(map[string]int) // key -> number not found in the second page yet
 	for _, g := range g1 {
-		key := graphicKey(g)
-		g1Map[key] = g
+		unmatched[graphicKey(g)]++
 	}
 
+	matched := make(map[string]int)
 	for _, g := range g2 {
 		key := graphicKey(g)
-		if _, exists := g1Map[key]; !exists {
-			diff.Added = append(diff.Added, g)
+		if unmatched[key] > 0 {
+			unmatched[key]--
+			matched[key]++
 		} else {
-			delete(g1Map, key)
+			diff.Added = append(diff.Added, g)
 		}
 	}
 
-	// Remaining in g1Map are removed
-	for _, g := range g1Map {
-		diff.Removed = append(diff.Removed, g)
+	// What has no counterpart in the second page is removed
+	for _, g := range g1 {
+		key := graphicKey(g)
+		if matched[key] > 0 {
+			matched[key]--
+		} else {
+			diff.Removed = append(diff.Removed, g)
+		}
 	}
 
 	if len(diff.Added) == 0 && len(diff.Removed) == 0 {
@@ -798,24 +805,30 @@ func compareAnnotations(a1, a2 []types.Annotation) *AnnotationDiff {
 	}
 
 	// Compare by type and position
-	a1Map := make(map[string]types.Annotation)
+	unmatched := make(map[string]int) // key -> number not found in the second page yet
 	for _, a := range a1 {
-		key := annotationKey(a)
-		a1Map[key] = a
+		unmatched[annotationKey(a)]++
 	}
 
+	matched := make(map[string]int)
 	for _, a := range a2 {
 		key := annotationKey(a)
-		if _, exists := a1Map[key]; !exists {
-			diff.Added = append(diff.Added, a)
+		if unmatched[key] > 0 {
+			unmatched[key]--
+			matched[key]++
 		} else {
-			delete(a1Map, key)
+			diff.Added = append(diff.Added, a)
 		}
 	}
 
-	// Remaining in a1Map are removed
-	for _, a := range a1Map {
-		diff.Removed = append(diff.Removed, a)
+	// What has no counterpart in the second page is removed
+	for _, a := range a1 {
+		key := annotationKey(a)
+		if matched[key] > 0 {
+			matched[key]--
+		} else {
+			diff.Removed = append(diff.Removed, a)
+		}
 	}
 
 	if len(diff.Added) == 0 && len(diff.Removed) == 0 {
@@ -878,7 +891,8 @@ func compareForms(pdf1Bytes, pdf2Bytes []byte, password1, password2 []byte, verb
 	if err1 != nil && err2 == nil {
 		// PDF1 has no form, PDF2 has form - all fields in PDF2 are "added"
 		values2 := form2.GetValues()
-		for name, value := range values2 {
+		for _, name := range fieldNames(values2) {
+			value := values2[name]
 			diff.Added = append(diff.Added, FormFieldChange{
 				FieldName: name,
 				NewValue:  value,
@@ -890,7 +904,8 @@ func compareForms(pdf1Bytes, pdf2Bytes []byte, password1, password2 []byte, verb
 	if err1 == nil && err2 != nil {
 		// PDF1 has form, PDF2 has no form - all fields in PDF1 are "removed"
 		values1 := form1.GetValues()
-		for name, value := range values1 {
+		for _, name := range fieldNames(values1) {
+			value := values1[name]
 			diff.Removed = append(diff.Removed, FormFieldChange{
 				FieldName: name,
 				OldValue:  value,
@@ -908,13 +923,15 @@ func compareForms(pdf1Bytes, pdf2Bytes []byte, password1, password2 []byte, verb
 		// If form types differ, treat all fields as changed
 		values1 := form1.GetValues()
 		values2 := form2.GetValues()
-		for name, value := range values1 {
+		for _, name := range fieldNames(values1) {
+			value := values1[name]
 			diff.Removed = append(diff.Removed, FormFieldChange{
 				FieldName: name,
 				OldValue:  value,
 			})
 		}
-		for name, value := range values2 {
+		for _, name := range fieldNames(values2) {
+			value := values2[name]
 			diff.Added = append(diff.Added, FormFieldChange{
 				FieldName: name,
 				NewValue:  value,
@@ -929,7 +946,8 @@ func compareForms(pdf1Bytes, pdf2Bytes []byte, password1, password2 []byte, verb
 
 	// Find added, removed, and modified fields
 	// Fields in PDF2 but not in PDF1
-	for name, value := range values2 {
+	for _, name := range fieldNames(values2) {
+		value := values2[name]
 		if _, exists := values1[name]; !exists {
 			diff.Added = append(diff.Added, FormFieldChange{
 				FieldName: name,
@@ -939,7 +957,8 @@ func compareForms(pdf1Bytes, pdf2Bytes []byte, password1, password2 []byte, verb
 	}
 
 	// Fields in PDF1 but not in PDF2
-	for name, value := range values1 {
+	for _, name := range fieldNames(values1) {
+		value := values1[name]
 		if _, exists := values2[name]; !exists {
 			diff.Removed = append(diff.Removed, FormFieldChange{
 				FieldName: name,
@@ -949,7 +968,8 @@ func compareForms(pdf1Bytes, pdf2Bytes []byte, password1, password2 []byte, verb
 	}
 
 	// Fields in both - check if values changed
-	for name, value1 := range values1 {
+	for _, name := range fieldNames(values1) {
+		value1 := values1[name]
 		if value2, exists := values2[name]; exists {
 			if !valuesEqual(value1, value2) {
 				diff.Modified = append(diff.Modified, FormFieldChange{
@@ -969,6 +989,16 @@ func compareForms(pdf1Bytes, pdf2Bytes []byte, password1, password2 []byte, verb
 	return diff
 }
 
+// fieldNames returns the names of form fields in a fixed order
+func fieldNames(values map[string]interface{}) []string {
+	names := make([]string, 0, len(values))
+	for name := range values {
+		names = append(names, name)
+	}
+	sort.Strings(names)
+	return names
+}
+
 // valuesEqual compares two form field values for equality
 func valuesEqual(v1, v2 interface{}) bool {
 	if v1 == nil && v2 == nil {
-- 
2.43.0


From 2cbf65492b61da1461ea18013644cf57cdebd79a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:49 +0000
Subject: [PATCH 72/99] fix: the images of each page are compared, and those of
 encrypted documents too

---
 content/extract/images.go | 117 ++++++++++++++++++++++++++++----------
 core/compare/compare.go   | 108 +++++++++++++++--------------------
 2 files changed, 134 insertions(+), 91 deletions(-)

diff --git a/content/extract/images.go b/content/extract/images.go
index cee7c6e..d878a42 100644
--- a/content/extract/images.go
+++ b/content/extract/images.go
@@ -113,36 +113,9 @@ func ExtractAllImages(pdfBytes []byte, password []byte, verbose bool) ([]types.I
 
 	// Collect image object numbers by re-parsing Resources from pages
 	// We need to get the actual page object numbers to extract Resources
-	trailer := pdf.Trailer()
-	if trailer == nil || trailer.RootRef == "" {
-		return []types.Image{}, fmt.Errorf("no root reference found")
-	}
-
-	rootObjNum, err := parseObjectRef(trailer.RootRef)
-	if err != nil {
-		return []types.Image{}, fmt.Errorf("failed to parse root reference: %w", err)
-	}
-
-	catalogObj, err := pdf.GetObject(rootObjNum)
-	if err != nil {
-		return []types.Image{}, fmt.Errorf("failed to get catalog: %w", err)
-	}
-
-	catalogStr := string(catalogObj)
-	pagesRef := extractDictValue(catalogStr, "/Pages")
-	if pagesRef == "" {
-		return []types.Image{}, fmt.Errorf("no /Pages reference in catalog")
-	}
-
-	pagesObjNum, err := parseObjectRef(pagesRef)
-	if err != nil {
-		return []types.Image{}, fmt.Errorf("failed to parse Pages reference: %w", err)
-	}
-
-	// Find all page objects
-	pageDicts, err := collectPages(pdf, pagesObjNum, nil, verbose)
+	pageDicts, err := documentPages(pdf, verbose)
 	if err != nil {
-		return []types.Image{}, fmt.Errorf("failed to get pages: %w", err)
+		return []types.Image{}, err
 	}
 
 	// For each page, extract the images of its Resources
@@ -188,3 +161,89 @@ func ExtractAllImages(pdfBytes []byte, password []byte, verbose bool) ([]types.I
 
 	return allImages, nil
 }
+
+// ExtractPageImages extracts the images of each page, with binary data, in page order. The images
+// of a page are found by the names that its content uses for them ("/Im1"): the same name may
+// stand for different images on different pages.
+func ExtractPageImages(pdfBytes []byte, password []byte, verbose bool) ([]map[string]types.Image, error) {
+	pdf, err := parse.OpenWithOptions(pdfBytes, parse.ParseOptions{
+		Password: password,
+		Verbose:  verbose,
+	})
+	if err != nil {
+		return nil, fmt.Errorf("failed to parse PDF: %w", err)
+	}
+
+	pageDicts, err := documentPages(pdf, verbose)
+	if err != nil {
+		return nil, err
+	}
+
+	extracted := make(map[int]*types.Image) // Object number -> image
+	pages := make([]map[string]types.Image, 0, len(pageDicts))
+	for _, pageDict := range pageDicts {
+		resourcesStr := extractDict(pageDict.dict, "/Resources", pdf)
+		xobjects, objNums := extractXObjectsDictWithObjNums(resourcesStr, pdf, verbose)
+
+		images := make(map[string]types.Image)
+		for _, name := range sortedKeys(objNums) {
+			objNum := objNums[name]
+			if xobjects[name].Subtype != "/Image" {
+				continue
+			}
+			image, ok := extracted[objNum]
+			if !ok {
+				image, err = extractImageData(objNum, pdf, verbose)
+				if err != nil {
+					if verbose {
+						fmt.Printf("Warning: failed to extract image data for %s (obj %d): %v\n", name, objNum, err)
+					}
+					continue
+				}
+				extracted[objNum] = image
+			}
+			pageImage := *image
+			pageImage.ID = "/" + name
+			images[pageImage.ID] = pageImage
+		}
+		pages = append(pages, images)
+	}
+
+	return pages, nil
+}
+
+// documentPages finds the pages of a document, in page order
+func documentPages(pdf *parse.PDF, verbose bool) ([]pageDict, error) {
+	trailer := pdf.Trailer()
+	if trailer == nil || trailer.RootRef == "" {
+		return nil, fmt.Errorf("no root reference found")
+	}
+
+	rootObjNum, err := parseObjectRef(trailer.RootRef)
+	if err != nil {
+		return nil, fmt.Errorf("failed to parse root reference: %w", err)
+	}
+
+	catalogObj, err := pdf.GetObject(rootObjNum)
+	if err != nil {
+		return nil, fmt.Errorf("failed to get catalog: %w", err)
+	}
+
+	catalogStr := string(catalogObj)
+	pagesRef := extractDictValue(catalogStr, "/Pages")
+	if pagesRef == "" {
+		return nil, fmt.Errorf("no /Pages reference in catalog")
+	}
+
+	pagesObjNum, err := parseObjectRef(pagesRef)
+	if err != nil {
+		return nil, fmt.Errorf("failed to parse Pages reference: %w", err)
+	}
+
+	// Find all page objects
+	pageDicts, err := collectPages(pdf, pagesObjNum, nil, verbose)
+	if err != nil {
+		return nil, fmt.Errorf("failed to get pages: %w", err)
+	}
+	return pageDicts, nil
+}
diff --git a/core/compare/compare.go b/core/compare/compare.go
index 72363f1..8dc6e3a 100644
--- a/core/compare/compare.go
+++ b/core/compare/compare.go
@@ -243,7 +243,9 @@ func ComparePDFsWithOptions(pdf1Bytes, pdf2Bytes []byte, password1, password2 []
 	}
 
 	// Compare pages
-	pageDiffs := comparePages(doc1.Pages, doc2.Pages, opts, pdf1Bytes, pdf2Bytes)
+	images1 := pageImages(doc1.Pages, pdf1Bytes, password1, opts.Verbose)
+	images2 := pageImages(doc2.Pages, pdf2Bytes, password2, opts.Verbose)
+	pageDiffs := comparePages(doc1.Pages, doc2.Pages, opts, images1, images2)
 	if len(pageDiffs) > 0 {
 		result.PageDiffs = pageDiffs
 		result.Summary.PagesChanged = true
@@ -373,7 +375,7 @@ func compareStructure(doc1, doc2 *types.ContentDocument) *StructureDifference {
 }
 
 // comparePages compares pages between two documents
-func comparePages(pages1, pages2 []types.Page, opts CompareOptions, pdf1Bytes, pdf2Bytes []byte) []PageDifference {
+func comparePages(pages1, pages2 []types.Page, opts CompareOptions, images1, images2 []map[string]types.Image) []PageDifference {
 	var diffs []PageDifference
 
 	// Compare up to the minimum page count
@@ -383,7 +385,7 @@ func comparePages(pages1, pages2 []types.Page, opts CompareOptions, pdf1Bytes, p
 	}
 
 	for i := 0; i < minPages; i++ {
-		pageDiff := compareSinglePage(pages1[i], pages2[i], i+1, opts, pdf1Bytes, pdf2Bytes)
+		pageDiff := compareSinglePage(pages1[i], pages2[i], i+1, opts, images1[i], images2[i])
 		if pageDiff != nil && (len(pageDiff.Differences) > 0 || pageDiff.TextDiff != nil || pageDiff.GraphicDiff != nil || pageDiff.ImageDiff != nil || pageDiff.AnnotationDiff != nil) {
 			diffs = append(diffs, *pageDiff)
 		}
@@ -420,7 +422,7 @@ func comparePages(pages1, pages2 []types.Page, opts CompareOptions, pdf1Bytes, p
 }
 
 // compareSinglePage compares a single page between two documents
-func compareSinglePage(page1, page2 types.Page, pageNum int, opts CompareOptions, pdf1Bytes, pdf2Bytes []byte) *PageDifference {
+func compareSinglePage(page1, page2 types.Page, pageNum int, opts CompareOptions, images1, images2 map[string]types.Image) *PageDifference {
 	diff := &PageDifference{
 		PageNumber:  pageNum,
 		Differences: []Difference{},
@@ -475,7 +477,7 @@ func compareSinglePage(page1, page2 types.Page, pageNum int, opts CompareOptions
 	}
 
 	// Compare images (with binary data comparison)
-	imageDiff := compareImagesWithBinary(page1.Images, page2.Images, page1.Resources, page2.Resources, pdf1Bytes, pdf2Bytes)
+	imageDiff := compareImagesWithBinary(page1.Images, page2.Images, images1, images2)
 	if imageDiff != nil && (len(imageDiff.Added) > 0 || len(imageDiff.Removed) > 0 || len(imageDiff.Modified) > 0 || len(imageDiff.Moved) > 0) {
 		diff.ImageDiff = imageDiff
 		desc := fmt.Sprintf("Images changed: %d added, %d removed, %d modified", len(imageDiff.Added), len(imageDiff.Removed), len(imageDiff.Modified))
@@ -595,8 +597,39 @@ func graphicKey(g types.Graphic) string {
 	return fmt.Sprintf("%s", g.Type)
 }
 
+// pageImages returns the images of each page, with binary data where it can be extracted, by the
+// IDs that the page uses for them
+func pageImages(pages []types.Page, pdfBytes, password []byte, verbose bool) []map[string]types.Image {
+	used := false
+	for _, page := range pages {
+		used = used || len(page.Images) > 0
+	}
+
+	var extracted []map[string]types.Image
+	if used {
+		// Without binary data the images are compared by their metadata
+		extracted, _ = extract.ExtractPageImages(pdfBytes, password, verbose)
+	}
+
+	result := make([]map[string]types.Image, len(pages))
+	for i, page := range pages {
+		result[i] = make(map[string]types.Image)
+		if page.Resources != nil {
+			for name, img := range page.Resources.Images {
+				result[i]["/"+name] = img
+			}
+		}
+		if i < len(extracted) {
+			for imageID, img := range extracted[i] {
+				result[i][imageID] = img
+			}
+		}
+	}
+	return result
+}
+
 // compareImagesWithBinary compares images between two pages, including binary data
-func compareImagesWithBinary(img1, img2 []types.ImageRef, resources1, resources2 *types.PageResources, pdf1Bytes, pdf2Bytes []byte) *ImageDiff {
+func compareImagesWithBinary(img1, img2 []types.ImageRef, images1, images2 map[string]types.Image) *ImageDiff {
 	diff := &ImageDiff{
 		Added:    []types.ImageRef{},
 		Removed:  []types.ImageRef{},
@@ -604,38 +637,16 @@ func compareImagesWithBinary(img1, img2 []types.ImageRef, resources1, resources2
 		Moved:    []ImageModification{},
 	}
 
-	// Extract full image data for all images
+	// Full image data for all images
 	images1Map := make(map[string]*types.Image) // Map ImageID -> full Image data
 	images2Map := make(map[string]*types.Image)
-
-	// Extract images from PDF1
-	if resources1 != nil {
-		for name, img := range resources1.Images {
-			imageID := "/" + name
-			// Get full image data with binary
-			fullImg, err := getImageWithBinary(imageID, pdf1Bytes, &img)
-			if err == nil {
-				images1Map[imageID] = fullImg
-			} else {
-				// Fall back to metadata-only image
-				images1Map[imageID] = &img
-			}
-		}
+	for imageID := range images1 {
+		img := images1[imageID]
+		images1Map[imageID] = &img
 	}
-
-	// Extract images from PDF2
-	if resources2 != nil {
-		for name, img := range resources2.Images {
-			imageID := "/" + name
-			// Get full image data with binary
-			fullImg, err := getImageWithBinary(imageID, pdf2Bytes, &img)
-			if err == nil {
-				images2Map[imageID] = fullImg
-			} else {
-				// Fall back to metadata-only image
-				images2Map[imageID] = &img
-			}
-		}
+	for imageID := range images2 {
+		img := images2[imageID]
+		images2Map[imageID] = &img
 	}
 
 	// Compare by image ID and position (with tolerance for position)
@@ -740,33 +751,6 @@ func compareImagesWithBinary(img1, img2 []types.ImageRef, resources1, resources2
 	return diff
 }
 
-// getImageWithBinary extracts full image data with binary from PDF
-func getImageWithBinary(imageID string, pdfBytes []byte, metadataImg *types.Image) (*types.Image, error) {
-	// If metadata image already has data, use it
-	if metadataImg != nil && len(metadataImg.Data) > 0 {
-		return metadataImg, nil
-	}
-
-	// Otherwise, extract all images and find the one we need
-	allImages, err := extract.ExtractAllImages(pdfBytes, nil, false)
-	if err != nil {
-		return nil, err
-	}
-
-	// Find image by ID
-	for _, img := range allImages {
-		if img.ID == imageID {
-			return &img, nil
-		}
-	}
-
-	// Not found - return metadata-only image
-	if metadataImg != nil {
-		return metadataImg, nil
-	}
-	return nil, fmt.Errorf("image %s not found", imageID)
-}
-
 // imagesEqual compares two images for binary equality
 func imagesEqual(img1, img2 *types.Image) bool {
 	if img1 == nil || img2 == nil {
-- 
2.43.0


From 74e9a2406d5e356296fc9fb1c076be5be7b7674a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:49 +0000
Subject: [PATCH 73/99] fix: comparisons that ignore case or white space do not
 report texts that differ in nothing else

---
 core/compare/text_diff.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/core/compare/text_diff.go b/core/compare/text_diff.go
index 6444153..b8e8a56 100644
--- a/core/compare/text_diff.go
+++ b/core/compare/text_diff.go
@@ -35,7 +35,7 @@ func compareText(text1, text2 []types.TextElement, opts CompareOptions) *TextDif
 			if text2Matched[i2] {
 				continue
 			}
-			if t1.Text == t2.Text && positionsMatch(t1.X, t1.Y, t2.X, t2.Y, tolerance) {
+			if positionsMatch(t1.X, t1.Y, t2.X, t2.Y, tolerance) && sameText(t1, t2, opts) {
 				if t1.FontName == t2.FontName && abs(t1.FontSize-t2.FontSize) < 0.1 {
 					text1Matched[i1] = true
 					text2Matched[i2] = true
@@ -54,7 +54,7 @@ func compareText(text1, text2 []types.TextElement, opts CompareOptions) *TextDif
 			if text2Matched[i2] {
 				continue
 			}
-			if positionsMatch(t1.X, t1.Y, t2.X, t2.Y, tolerance) && t1.Text != t2.Text {
+			if positionsMatch(t1.X, t1.Y, t2.X, t2.Y, tolerance) && !sameText(t1, t2, opts) {
 				diff.Modified = append(diff.Modified, TextModification{Old: t1, New: t2})
 				text1Matched[i1] = true
 				text2Matched[i2] = true
@@ -229,6 +229,11 @@ func myersDiffText(text1, text2 []types.TextElement, opts CompareOptions) *TextD
 	return diff
 }
 
+// sameText checks if the texts of two elements are the same for the comparison options
+func sameText(t1, t2 types.TextElement, opts CompareOptions) bool {
+	return t1.Text == t2.Text || normalizeTextForComparison(t1.Text, opts) == normalizeTextForComparison(t2.Text, opts)
+}
+
 // normalizeTextForComparison normalizes text based on comparison options
 func normalizeTextForComparison(text string, opts CompareOptions) string {
 	normalized := text
-- 
2.43.0


From 238093a9dfcd9b923f3e0e6d576c9c911b42be64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:50 +0000
Subject: [PATCH 74/99] fix: a text tolerance that is not set is the default

---
 core/compare/compare.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/compare/compare.go b/core/compare/compare.go
index 8dc6e3a..21337af 100644
--- a/core/compare/compare.go
+++ b/core/compare/compare.go
@@ -210,6 +210,10 @@ func ComparePDFs(pdf1Bytes, pdf2Bytes []byte, password1, password2 []byte, verbo
 
 // ComparePDFsWithOptions compares two PDFs with custom options
 func ComparePDFsWithOptions(pdf1Bytes, pdf2Bytes []byte, password1, password2 []byte, opts CompareOptions) (*ComparisonResult, error) {
+	if opts.TextTolerance == 0 {
+		opts.TextTolerance = DefaultCompareOptions().TextTolerance
+	}
+
 	// Extract content from both PDFs
 	doc1, err := extract.ExtractContent(pdf1Bytes, password1, opts.Verbose)
 	if err != nil {
-- 
2.43.0


From 25e80426235387b8020648e639d90a151e7f2c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:57 +0000
Subject: [PATCH 75/99] fix: bookmarks that lead to the same page are the same
 whatever number the page has

---
 core/compare/compare.go | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/core/compare/compare.go b/core/compare/compare.go
index 21337af..ff8d4cd 100644
--- a/core/compare/compare.go
+++ b/core/compare/compare.go
@@ -5,8 +5,10 @@ import (
 	"fmt"
 	"reflect"
 	"sort"
+	"strings"
 
 	"github.com/benedoc-inc/pdfer/content/extract"
+	"github.com/benedoc-inc/pdfer/core/parse"
 	"github.com/benedoc-inc/pdfer/forms"
 	"github.com/benedoc-inc/pdfer/types"
 )
@@ -847,7 +849,7 @@ func compareBookmarks(b1, b2 []types.Bookmark) *Difference {
 	}
 
 	// Simple comparison - could be more sophisticated
-	if !reflect.DeepEqual(b1, b2) {
+	if !reflect.DeepEqual(bookmarkTree(b1), bookmarkTree(b2)) {
 		return &Difference{
 			Type:        DifferenceTypeBookmark,
 			Category:    "modified",
@@ -858,6 +860,22 @@ func compareBookmarks(b1, b2 []types.Bookmark) *Difference {
 	return nil
 }
 
+// bookmarkTree returns bookmarks as they are compared: a destination names its page by the number
+// of an object, which another file may give to something else, so that what counts is the number
+// of the page and what else the destination says
+func bookmarkTree(bookmarks []types.Bookmark) []types.Bookmark {
+	var tree []types.Bookmark
+	for _, b := range bookmarks {
+		if b.PageNumber != 0 {
+			view := parse.MapReferences([]byte(b.Destination), func(num, gen int) string { return "" })
+			b.Destination = strings.Join(parse.Tokens(view), " ")
+		}
+		b.Children = bookmarkTree(b.Children)
+		tree = append(tree, b)
+	}
+	return tree
+}
+
 // compareForms compares form fields between two PDFs
 func compareForms(pdf1Bytes, pdf2Bytes []byte, password1, password2 []byte, verbose bool) *FormDiff {
 	diff := &FormDiff{
-- 
2.43.0


From fac55aadb9fa2fbe6053933993ca2b1570b7c478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:40 +0000
Subject: [PATCH 76/99] fix: text is shown with the codes of WinAnsiEncoding,
 the encoding of the fonts

---
 core/write/content.go | 35 ++++++++++++++++++++++++++++++++---
 1 file changed, 32 insertions(+), 3 deletions(-)

diff --git a/core/write/content.go b/core/write/content.go
index cb59b7a..a9e8971 100644
--- a/core/write/content.go
+++ b/core/write/content.go
@@ -4,6 +4,7 @@ package write
 import (
 	"bytes"
 	"fmt"
+	"unicode/utf8"
 )
 
 // ContentStream builds PDF page content streams
@@ -173,13 +174,13 @@ func (cs *ContentStream) SetTextMatrix(a, b, c, d, e, f float64) *ContentStream
 
 // ShowText displays a string (Tj operator)
 func (cs *ContentStream) ShowText(text string) *ContentStream {
-	cs.buf.WriteString(fmt.Sprintf("(%s) Tj\n", escapePDFString(text)))
+	cs.buf.WriteString(fmt.Sprintf("(%s) Tj\n", escapePDFString(encodeText(text))))
 	return cs
 }
 
 // ShowTextNextLine moves to next line and shows text (' operator)
 func (cs *ContentStream) ShowTextNextLine(text string) *ContentStream {
-	cs.buf.WriteString(fmt.Sprintf("(%s) '\n", escapePDFString(text)))
+	cs.buf.WriteString(fmt.Sprintf("(%s) '\n", escapePDFString(encodeText(text))))
 	return cs
 }
 
@@ -194,7 +195,7 @@ func (cs *ContentStream) ShowTextArray(elements []interface{}) *ContentStream {
 		}
 		switch v := elem.(type) {
 		case string:
-			cs.buf.WriteString(fmt.Sprintf("(%s)", escapePDFString(v)))
+			cs.buf.WriteString(fmt.Sprintf("(%s)", escapePDFString(encodeText(v))))
 		case int:
 			cs.buf.WriteString(fmt.Sprintf("%d", v))
 		case float64:
@@ -321,6 +322,34 @@ func (cs *ContentStream) Raw(data string) *ContentStream {
 	return cs
 }
 
+// winAnsi holds the characters of WinAnsiEncoding that have another code than in Unicode
+var winAnsi = map[rune]byte{
+	'€': 0x80, '‚': 0x82, 'ƒ': 0x83, '„': 0x84, '…': 0x85, '†': 0x86, '‡': 0x87, 'ˆ': 0x88,
+	'‰': 0x89, 'Š': 0x8A, '‹': 0x8B, 'Œ': 0x8C, 'Ž': 0x8E, '‘': 0x91, '’': 0x92, '“': 0x93,
+	'”': 0x94, '•': 0x95, '–': 0x96, '—': 0x97, '˜': 0x98, '™': 0x99, 'š': 0x9A, '›': 0x9B,
+	'œ': 0x9C, 'ž': 0x9E, 'Ÿ': 0x9F,
+}
+
+// encodeText returns the codes that show text in a font with WinAnsiEncoding. A text that has
+// other characters, or is not UTF-8, stands for the codes themselves.
+func encodeText(text string) string {
+	if !utf8.ValidString(text) {
+		return text
+	}
+	var codes []byte
+	for _, r := range text {
+		code, ok := winAnsi[r]
+		if !ok {
+			if r > 0xFF || r >= 0x80 && r < 0xA0 {
+				return text
+			}
+			code = byte(r)
+		}
+		codes = append(codes, code)
+	}
+	return string(codes)
+}
+
 // escapePDFString escapes special characters in a PDF string
 func escapePDFString(s string) string {
 	var result bytes.Buffer
-- 
2.43.0


From 39283bcfa40ba037ae839f486cec1d24c05d898e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:29 +0000
Subject: [PATCH 77/99] fix: the tables of a font are read within their bounds
 and by their rules

---
 resources/font/font.go | 92 +++++++++++++++++++++++++++---------------
 1 file changed, 59 insertions(+), 33 deletions(-)

diff --git a/resources/font/font.go b/resources/font/font.go
index 29d0dae..5d0d34a 100644
--- a/resources/font/font.go
+++ b/resources/font/font.go
@@ -8,6 +8,7 @@ import (
 	"io"
 	"sort"
 	"unicode"
+	"unicode/utf16"
 )
 
 // Font represents an embedded font with subsetting support
@@ -145,6 +146,9 @@ func (ttf *TTF) parseHead() error {
 	}
 
 	ttf.UnitsPerEm = binary.BigEndian.Uint16(head.Data[18:20])
+	if ttf.UnitsPerEm == 0 {
+		return fmt.Errorf("head table has no units per em")
+	}
 	return nil
 }
 
@@ -205,21 +209,17 @@ func (ttf *TTF) parseName() error {
 
 		// We're interested in Unicode names (platform 3 or 0)
 		if (platformID == 3 || platformID == 0) && int(stringOffset)+int(startOffset)+int(length) <= len(name.Data) {
-			nameData := name.Data[stringOffset+startOffset : stringOffset+startOffset+length]
+			start := int(stringOffset) + int(startOffset)
+			nameData := name.Data[start : start+int(length)]
 
+			// UTF-16BE
 			var nameStr string
-			if platformID == 3 {
-				// UTF-16BE
-				if len(nameData)%2 == 0 {
-					runes := make([]rune, 0, len(nameData)/2)
-					for j := 0; j < len(nameData); j += 2 {
-						runes = append(runes, rune(binary.BigEndian.Uint16(nameData[j:j+2])))
-					}
-					nameStr = string(runes)
+			if len(nameData)%2 == 0 {
+				units := make([]uint16, 0, len(nameData)/2)
+				for j := 0; j < len(nameData); j += 2 {
+					units = append(units, binary.BigEndian.Uint16(nameData[j:j+2]))
 				}
-			} else {
-				// ASCII
-				nameStr = string(nameData)
+				nameStr = string(utf16.Decode(units))
 			}
 
 			switch nameID {
@@ -269,9 +269,9 @@ func (ttf *TTF) parsePost() error {
 	ttf.IsFixedPitch = binary.BigEndian.Uint32(post.Data[12:16]) != 0
 
 	// Try to get CapHeight and XHeight from OS/2 table if available
-	if os2, ok := ttf.Tables["OS/2"]; ok && len(os2.Data) >= 88 {
-		ttf.CapHeight = int16(binary.BigEndian.Uint16(os2.Data[68:70]))
-		ttf.XHeight = int16(binary.BigEndian.Uint16(os2.Data[70:72]))
+	if os2, ok := ttf.Tables["OS/2"]; ok && len(os2.Data) >= 90 && binary.BigEndian.Uint16(os2.Data[0:2]) >= 2 {
+		ttf.XHeight = int16(binary.BigEndian.Uint16(os2.Data[86:88]))
+		ttf.CapHeight = int16(binary.BigEndian.Uint16(os2.Data[88:90]))
 	}
 
 	return nil
@@ -404,10 +404,10 @@ func parseCmap(data []byte) (map[rune]uint16, error) {
 	}
 
 	// Parse the subtable
-	subtableData := data[bestOffset:]
-	if len(subtableData) < 2 {
+	if int(bestOffset)+2 > len(data) {
 		return nil, fmt.Errorf("cmap subtable too short")
 	}
+	subtableData := data[bestOffset:]
 
 	format := binary.BigEndian.Uint16(subtableData[0:2])
 
@@ -419,8 +419,7 @@ func parseCmap(data []byte) (map[rune]uint16, error) {
 		// Format 12: Segmented coverage
 		return parseCmapFormat12(subtableData, glyphMap)
 	default:
-		// Try format 4 as fallback
-		return parseCmapFormat4(subtableData, glyphMap)
+		return nil, fmt.Errorf("unsupported cmap format: %d", format)
 	}
 }
 
@@ -444,7 +443,11 @@ func parseCmapFormat4(data []byte, glyphMap map[rune]uint16) (map[rune]uint16, e
 	startCodeOffset := endCodeOffset + 2 + int(segCount)*2
 	idDeltaOffset := startCodeOffset + int(segCount)*2
 	idRangeOffsetOffset := idDeltaOffset + int(segCount)*2
+	if idRangeOffsetOffset+int(segCount)*2 > len(data) {
+		return nil, fmt.Errorf("cmap format 4 segments beyond the table")
+	}
 
+	next := 0 // first code after the segments so far
 	for i := 0; i < int(segCount); i++ {
 		startCode := binary.BigEndian.Uint16(data[startCodeOffset+i*2 : startCodeOffset+i*2+2])
 		endCode := binary.BigEndian.Uint16(data[endCodeOffset+i*2 : endCodeOffset+i*2+2])
@@ -455,7 +458,12 @@ func parseCmapFormat4(data []byte, glyphMap map[rune]uint16) (map[rune]uint16, e
 			break // Last segment
 		}
 
-		for code := startCode; code <= endCode && code != 0xFFFF; code++ {
+		// a code belongs to the first segment that ends at it or after it
+		first := max(int(startCode), next)
+		next = max(next, int(endCode)+1)
+
+		for c := first; c <= int(endCode) && c != 0xFFFF; c++ {
+			code := uint16(c)
 			var glyphID uint16
 
 			if idRangeOffset == 0 {
@@ -493,6 +501,7 @@ func parseCmapFormat12(data []byte, glyphMap map[rune]uint16) (map[rune]uint16,
 	}
 
 	offset := 16
+	next := uint32(0) // first code after the groups so far
 	for i := 0; i < int(numGroups); i++ {
 		if offset+12 > len(data) {
 			break
@@ -502,9 +511,16 @@ func parseCmapFormat12(data []byte, glyphMap map[rune]uint16) (map[rune]uint16,
 		endCharCode := binary.BigEndian.Uint32(data[offset+4 : offset+8])
 		startGlyphID := binary.BigEndian.Uint32(data[offset+8 : offset+12])
 
-		for code := startCharCode; code <= endCharCode; code++ {
-			glyphID := uint16(startGlyphID + (code - startCharCode))
-			glyphMap[rune(code)] = glyphID
+		if startCharCode < next || startCharCode > endCharCode || endCharCode > unicode.MaxRune {
+			return nil, fmt.Errorf("cmap format 12 group %d is not a range of characters", i)
+		}
+		next = endCharCode + 1
+
+		// there are no glyphs from 0xFFFF on
+		for code := startCharCode; code <= endCharCode && startGlyphID+(code-startCharCode) < 0xFFFF; code++ {
+			if glyphID := uint16(startGlyphID + (code - startCharCode)); glyphID != 0 {
+				glyphMap[rune(code)] = glyphID
+			}
 		}
 
 		offset += 12
@@ -534,24 +550,34 @@ func (f *Font) GetWidths() ([]int, error) {
 		return nil, err
 	}
 
-	// Parse hmtx table for widths
-	hmtx, ok := ttf.Tables["hmtx"]
-	if !ok {
-		return nil, fmt.Errorf("missing hmtx table")
-	}
-
 	widths := make([]int, len(glyphs))
 	for i, gid := range glyphs {
-		if int(gid)*4+2 <= len(hmtx.Data) {
-			widths[i] = int(binary.BigEndian.Uint16(hmtx.Data[gid*4 : gid*4+2]))
-		} else {
-			widths[i] = int(ttf.UnitsPerEm) // Default width
+		if widths[i], err = ttf.advance(gid); err != nil {
+			return nil, err
 		}
 	}
 
 	return widths, nil
 }
 
+// advance returns the width of a glyph, in units of the font
+func (ttf *TTF) advance(gid uint16) (int, error) {
+	hmtx, ok := ttf.Tables["hmtx"]
+	if !ok {
+		return 0, fmt.Errorf("missing hmtx table")
+	}
+
+	// the last of the metrics holds for all glyphs after it
+	i := int(gid)
+	if count := int(binary.BigEndian.Uint16(ttf.Tables["hhea"].Data[34:36])); i >= count && count > 0 {
+		i = count - 1
+	}
+	if i*4+2 > len(hmtx.Data) {
+		return int(ttf.UnitsPerEm), nil // Default width
+	}
+	return int(binary.BigEndian.Uint16(hmtx.Data[i*4 : i*4+2])), nil
+}
+
 // Read reads font data from a reader
 func Read(r io.Reader) ([]byte, error) {
 	var buf bytes.Buffer
-- 
2.43.0


From eb57665cd69d621a36e36582301d428a8a0db3e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:29 +0000
Subject: [PATCH 78/99] fix: an embedded font says the widths and characters of
 the codes that text is shown with

---
 resources/font/pdf.go | 178 +++++++++++++++++++++++++-----------------
 1 file changed, 106 insertions(+), 72 deletions(-)

diff --git a/resources/font/pdf.go b/resources/font/pdf.go
index d42f528..aad2622 100644
--- a/resources/font/pdf.go
+++ b/resources/font/pdf.go
@@ -4,9 +4,10 @@ package font
 import (
 	"bytes"
 	"crypto/md5"
-	"encoding/hex"
 	"fmt"
-	"sort"
+	"math"
+	"strings"
+	"unicode/utf16"
 )
 
 // FontObjects represents the PDF objects needed for an embedded font
@@ -27,23 +28,33 @@ func (f *Font) ToPDFObjects(writer PDFWriter) (*FontObjects, error) {
 		return nil, fmt.Errorf("failed to parse font: %w", err)
 	}
 
-	// Generate subset prefix from font name hash
+	// Generate subset prefix, six letters, from font name hash
 	if f.FontID == "" {
 		hash := md5.Sum([]byte(ttf.FontName))
-		f.FontID = hex.EncodeToString(hash[:6])
+		for _, b := range hash[:6] {
+			f.FontID += string(rune('A' + b%26))
+		}
 	}
 	subsetPrefix := f.FontID + "+"
 
-	// Get subset glyphs
-	glyphs, err := f.GetSubsetGlyphs()
+	// Get the glyphs of the characters
+	cmap, ok := ttf.Tables["cmap"]
+	if !ok {
+		return nil, fmt.Errorf("failed to get subset glyphs: missing cmap table")
+	}
+	glyphMap, err := parseCmap(cmap.Data)
 	if err != nil {
-		return nil, fmt.Errorf("failed to get subset glyphs: %w", err)
+		return nil, fmt.Errorf("failed to get subset glyphs: failed to parse cmap: %w", err)
 	}
 
 	// Get widths
-	widths, err := f.GetWidths()
-	if err != nil {
-		return nil, fmt.Errorf("failed to get widths: %w", err)
+	widths := make([]int, 0, lastChar-firstChar+1)
+	for code := firstChar; code <= lastChar; code++ {
+		width, err := ttf.advance(glyphMap[winAnsiRune(code)]) // glyph 0 if there is none
+		if err != nil {
+			return nil, fmt.Errorf("failed to get widths: %w", err)
+		}
+		widths = append(widths, ttf.scale(width))
 	}
 
 	// Create font file stream (subset font)
@@ -55,16 +66,18 @@ func (f *Font) ToPDFObjects(writer PDFWriter) (*FontObjects, error) {
 	// Create font file stream object first
 	fontFileDict := map[string]interface{}{
 		"/Length1": len(fontFileData),
-		"/Length":  len(fontFileData),
+	}
+	if ttf.isOpenType() {
+		fontFileDict = map[string]interface{}{"/Subtype": "/OpenType"}
 	}
 	fontFileNum := writer.AddStreamObject(fontFileDict, fontFileData, true)
 
 	// Create FontDescriptor (references fontFileNum)
-	fontDescriptor := f.createFontDescriptor(ttf, fontFileNum)
+	fontDescriptor := f.createFontDescriptor(ttf, fontFileNum, subsetPrefix)
 	fontDescriptorNum := writer.AddObject(fontDescriptor)
 
 	// Create ToUnicode CMap (as stream object)
-	toUnicodeData := f.createToUnicodeCMapData(glyphs)
+	toUnicodeData := f.createToUnicodeCMapData(glyphMap)
 	toUnicodeDict := map[string]interface{}{
 		"/Type":     "/CMap",
 		"/CMapName": "/Adobe-Identity-UCS",
@@ -77,7 +90,7 @@ func (f *Font) ToPDFObjects(writer PDFWriter) (*FontObjects, error) {
 	toUnicodeNum := writer.AddStreamObject(toUnicodeDict, toUnicodeData, false) // Don't compress CMap
 
 	// Create Font dictionary (references fontDescriptorNum and toUnicodeNum)
-	fontDict := f.createFontDict(ttf, fontDescriptorNum, toUnicodeNum, glyphs, widths, subsetPrefix)
+	fontDict := f.createFontDict(ttf, fontDescriptorNum, toUnicodeNum, widths, subsetPrefix)
 	fontDictNum := writer.AddObject(fontDict)
 
 	// Generate resource name
@@ -101,7 +114,7 @@ type PDFWriter interface {
 }
 
 // createFontDict creates the Font dictionary
-func (f *Font) createFontDict(ttf *TTF, fontDescriptorNum, toUnicodeNum int, glyphs []uint16, widths []int, subsetPrefix string) []byte {
+func (f *Font) createFontDict(ttf *TTF, fontDescriptorNum, toUnicodeNum int, widths []int, subsetPrefix string) []byte {
 	var buf bytes.Buffer
 
 	// Base font name with subset prefix
@@ -109,10 +122,15 @@ func (f *Font) createFontDict(ttf *TTF, fontDescriptorNum, toUnicodeNum int, gly
 
 	buf.WriteString("<<\n")
 	buf.WriteString("/Type /Font\n")
-	buf.WriteString("/Subtype /TrueType\n")
+	if ttf.isOpenType() {
+		buf.WriteString("/Subtype /Type1\n")
+	} else {
+		buf.WriteString("/Subtype /TrueType\n")
+	}
 	buf.WriteString(fmt.Sprintf("/BaseFont /%s\n", escapeName(baseFontName)))
-	buf.WriteString(fmt.Sprintf("/FirstChar %d\n", 0))
-	buf.WriteString(fmt.Sprintf("/LastChar %d\n", len(glyphs)-1))
+	buf.WriteString("/Encoding /WinAnsiEncoding\n")
+	buf.WriteString(fmt.Sprintf("/FirstChar %d\n", firstChar))
+	buf.WriteString(fmt.Sprintf("/LastChar %d\n", lastChar))
 
 	// Width array
 	buf.WriteString("/Widths [")
@@ -136,51 +154,63 @@ func (f *Font) createFontDict(ttf *TTF, fontDescriptorNum, toUnicodeNum int, gly
 }
 
 // createFontDescriptor creates the FontDescriptor dictionary
-func (f *Font) createFontDescriptor(ttf *TTF, fontFileNum int) []byte {
+func (f *Font) createFontDescriptor(ttf *TTF, fontFileNum int, subsetPrefix string) []byte {
 	var buf bytes.Buffer
 
 	buf.WriteString("<<\n")
 	buf.WriteString("/Type /FontDescriptor\n")
-	buf.WriteString(fmt.Sprintf("/FontName /%s\n", escapeName(ttf.FontName)))
+	buf.WriteString(fmt.Sprintf("/FontName /%s\n", escapeName(subsetPrefix+ttf.FontName)))
 	buf.WriteString(fmt.Sprintf("/FontFamily (%s)\n", escapeString(ttf.FamilyName)))
 	buf.WriteString(fmt.Sprintf("/Flags %d\n", f.getFontFlags(ttf)))
 	buf.WriteString(fmt.Sprintf("/FontBBox [%d %d %d %d]\n",
-		-100, -100, int(ttf.UnitsPerEm)+100, int(ttf.UnitsPerEm)+100)) // Simplified bbox
+		-100, -100, 1100, 1100)) // Simplified bbox
 	buf.WriteString(fmt.Sprintf("/ItalicAngle %.4f\n", ttf.ItalicAngle))
-	buf.WriteString(fmt.Sprintf("/Ascent %d\n", ttf.Ascent))
-	buf.WriteString(fmt.Sprintf("/Descent %d\n", ttf.Descent))
-	buf.WriteString(fmt.Sprintf("/CapHeight %d\n", ttf.CapHeight))
+	buf.WriteString(fmt.Sprintf("/Ascent %d\n", ttf.scale(int(ttf.Ascent))))
+	buf.WriteString(fmt.Sprintf("/Descent %d\n", ttf.scale(int(ttf.Descent))))
+	buf.WriteString(fmt.Sprintf("/CapHeight %d\n", ttf.scale(int(ttf.CapHeight))))
 	buf.WriteString(fmt.Sprintf("/StemV %d\n", 80)) // Default stem width
-	buf.WriteString(fmt.Sprintf("/FontFile2 %d 0 R\n", fontFileNum))
+	if ttf.isOpenType() {
+		buf.WriteString(fmt.Sprintf("/FontFile3 %d 0 R\n", fontFileNum))
+	} else {
+		buf.WriteString(fmt.Sprintf("/FontFile2 %d 0 R\n", fontFileNum))
+	}
 	buf.WriteString(">>")
 
 	return buf.Bytes()
 }
 
-// createToUnicodeCMapData creates ToUnicode CMap stream data for text extraction
-func (f *Font) createToUnicodeCMapData(glyphs []uint16) []byte {
-	// Get glyph to Unicode mapping
-	ttf, err := ParseTTF(f.Data)
-	if err != nil {
-		return []byte("<<\n/Type /CMap\n>>")
-	}
+// Codes that show text: those of WinAnsiEncoding
+const (
+	firstChar = 32
+	lastChar  = 255
+)
 
-	cmap, ok := ttf.Tables["cmap"]
-	if !ok {
-		return []byte("<<\n/Type /CMap\n>>")
-	}
+// winAnsiHigh holds the characters of WinAnsiEncoding from 0x80 to 0x9F
+var winAnsiHigh = [...]rune{
+	'€', '•', '‚', 'ƒ', '„', '…', '†', '‡', 'ˆ', '‰', 'Š', '‹', 'Œ', '•', 'Ž', '•',
+	'•', '‘', '’', '“', '”', '•', '–', '—', '˜', '™', 'š', '›', 'œ', '•', 'ž', 'Ÿ',
+}
 
-	glyphMap, err := parseCmap(cmap.Data)
-	if err != nil {
-		return []byte("<<\n/Type /CMap\n>>")
+// winAnsiRune returns the character that a code shows
+func winAnsiRune(code int) rune {
+	if code >= 0x80 && code < 0xA0 {
+		return winAnsiHigh[code-0x80]
 	}
+	return rune(code)
+}
 
-	// Create reverse mapping: glyph ID -> Unicode
-	glyphToUnicode := make(map[uint16][]rune)
-	for unicode, gid := range glyphMap {
-		glyphToUnicode[gid] = append(glyphToUnicode[gid], unicode)
-	}
+// isOpenType tells whether the outlines of the font are not those of TrueType
+func (ttf *TTF) isOpenType() bool {
+	return bytes.HasPrefix(ttf.Data, []byte("OTTO"))
+}
+
+// scale converts units of the font to thousandths of an em
+func (ttf *TTF) scale(v int) int {
+	return int(math.Round(float64(v) * 1000 / float64(ttf.UnitsPerEm)))
+}
 
+// createToUnicodeCMapData creates ToUnicode CMap stream data for text extraction
+func (f *Font) createToUnicodeCMapData(glyphMap map[rune]uint16) []byte {
 	// Build CMap content
 	var buf bytes.Buffer
 	buf.WriteString("/CIDInit /ProcSet findresource begin\n")
@@ -198,22 +228,22 @@ func (f *Font) createToUnicodeCMapData(glyphs []uint16) []byte {
 	buf.WriteString("<00> <FF>\n")
 	buf.WriteString("endcodespacerange\n")
 
-	// Write bfchar entries (glyph -> Unicode)
-	sort.Slice(glyphs, func(i, j int) bool {
-		return glyphs[i] < glyphs[j]
-	})
-
-	buf.WriteString(fmt.Sprintf("%d beginbfchar\n", len(glyphs)))
-	for _, gid := range glyphs {
-		unicodes := glyphToUnicode[gid]
-		if len(unicodes) > 0 {
-			buf.WriteString(fmt.Sprintf("<%02X> <%04X>\n", gid, unicodes[0]))
-		} else {
-			// Map to space if no Unicode found
-			buf.WriteString(fmt.Sprintf("<%02X> <0020>\n", gid))
+	// Write bfchar entries (code -> Unicode), at most a hundred at a time
+	var codes []int
+	for code := firstChar; code <= lastChar; code++ {
+		if glyphMap[winAnsiRune(code)] != 0 {
+			codes = append(codes, code)
+		}
+	}
+	for len(codes) > 0 {
+		n := min(len(codes), 100)
+		buf.WriteString(fmt.Sprintf("%d beginbfchar\n", n))
+		for _, code := range codes[:n] {
+			buf.WriteString(fmt.Sprintf("<%02X> <%04X>\n", code, winAnsiRune(code)))
 		}
+		buf.WriteString("endbfchar\n")
+		codes = codes[n:]
 	}
-	buf.WriteString("endbfchar\n")
 
 	buf.WriteString("endcmap\n")
 	buf.WriteString("CMapName currentdict /CMap defineresource pop\n")
@@ -252,23 +282,31 @@ func (f *Font) getFontFlags(ttf *TTF) int {
 // escapeName escapes a PDF name
 func escapeName(s string) string {
 	var buf bytes.Buffer
-	for _, r := range s {
-		if r == ' ' || r == '#' || r == '/' || r == '(' || r == ')' || r == '<' || r == '>' || r == '[' || r == ']' || r == '{' || r == '}' || r == '%' {
-			buf.WriteString(fmt.Sprintf("#%02X", r))
-		} else if r > 127 {
-			buf.WriteString(fmt.Sprintf("#%02X", r))
+	for _, c := range []byte(s) {
+		if c <= ' ' || c > '~' || strings.IndexByte("#/()<>[]{}%", c) >= 0 {
+			buf.WriteString(fmt.Sprintf("#%02X", c))
 		} else {
-			buf.WriteRune(r)
+			buf.WriteByte(c)
 		}
 	}
 	return buf.String()
 }
 
-// escapeString escapes a PDF string
+// escapeString escapes a PDF string. Text with other characters than those of ASCII is UTF-16.
 func escapeString(s string) string {
+	text := []byte(s)
+	for _, c := range text {
+		if c > 127 {
+			text = []byte{0xFE, 0xFF}
+			for _, unit := range utf16.Encode([]rune(s)) {
+				text = append(text, byte(unit>>8), byte(unit))
+			}
+			break
+		}
+	}
 	var buf bytes.Buffer
-	for _, r := range s {
-		switch r {
+	for _, c := range text {
+		switch c {
 		case '\\':
 			buf.WriteString("\\\\")
 		case '(':
@@ -282,11 +320,7 @@ func escapeString(s string) string {
 		case '\t':
 			buf.WriteString("\\t")
 		default:
-			if r > 127 {
-				buf.WriteString(fmt.Sprintf("\\%03o", r))
-			} else {
-				buf.WriteRune(r)
-			}
+			buf.WriteByte(c)
 		}
 	}
 	return buf.String()
-- 
2.43.0


From 82c31594f5a60c87e12a428c84a292ae98889eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:20 +0000
Subject: [PATCH 79/99] fix: XFA configuration keeps all its settings when it
 is read and written

The attributes of validate, common, output, script, xdp, print and trace were not
read, script, xdp, print, trace and further submit attributes were not written,
properties directly below config were dropped, and numbers below one too.
---
 forms/xfa/xfa_config_translator.go | 246 +++++++++++++++++++++++++++--
 1 file changed, 232 insertions(+), 14 deletions(-)

diff --git a/forms/xfa/xfa_config_translator.go b/forms/xfa/xfa_config_translator.go
index 5a7bbef..922e11e 100644
--- a/forms/xfa/xfa_config_translator.go
+++ b/forms/xfa/xfa_config_translator.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"io"
 	"log"
+	"sort"
 	"strconv"
 	"strings"
 
@@ -24,6 +25,8 @@ func ParseXFAConfig(xfaConfigXML string, verbose bool) (*types.XFAConfig, error)
 	decoder := xml.NewDecoder(strings.NewReader(xfaConfigXML))
 	decoder.Strict = false
 
+	inConfig := false
+	var sections []string // the sections the parser is in, from the outside in
 	var currentSection string
 	var currentValue strings.Builder
 
@@ -42,23 +45,27 @@ func ParseXFAConfig(xfaConfigXML string, verbose bool) (*types.XFAConfig, error)
 		switch se := token.(type) {
 		case xml.StartElement:
 			localName := se.Name.Local
+			currentValue.Reset()
+			switch localName {
+			case "present", "validate", "submit", "destination", "acrobat", "common", "output":
+				sections = append(sections, localName)
+				currentSection = localName
+			}
 
 			switch localName {
 			case "config":
-				// Root element
+				inConfig = true
 			case "present":
-				currentSection = "present"
 				if config.Present == nil {
 					config.Present = &types.XFAConfigPresent{}
 				}
 				parsePresentAttributes(se, config.Present)
 			case "validate":
-				currentSection = "validate"
 				if config.Validate == nil {
 					config.Validate = &types.XFAConfigValidate{}
 				}
+				parseValidateAttributes(se, config.Validate)
 			case "submit":
-				currentSection = "submit"
 				if config.Submit == nil {
 					config.Submit = &types.XFAConfigSubmit{
 						Properties: make(map[string]string),
@@ -66,37 +73,42 @@ func ParseXFAConfig(xfaConfigXML string, verbose bool) (*types.XFAConfig, error)
 				}
 				parseSubmitAttributes(se, config.Submit)
 			case "destination":
-				currentSection = "destination"
 				if config.Destination == nil {
 					config.Destination = &types.XFAConfigDestination{}
 				}
 				parseDestinationAttributes(se, config.Destination)
 			case "acrobat":
-				currentSection = "acrobat"
 				if config.Acrobat == nil {
 					config.Acrobat = &types.XFAConfigAcrobat{}
 				}
 				parseAcrobatAttributes(se, config.Acrobat)
 			case "common":
-				currentSection = "common"
 				if config.Common == nil {
 					config.Common = &types.XFAConfigCommon{}
 				}
+				parseCommonAttributes(se, config.Common)
 			case "output":
-				currentSection = "output"
 				if config.Output == nil {
 					config.Output = &types.XFAConfigOutput{}
 				}
+				parseOutputAttributes(se, config.Output)
 			case "script":
 				if currentSection == "present" {
 					if config.Present.Script == nil {
 						config.Present.Script = &types.XFAConfigScript{}
 					}
+					parseConfigScriptAttributes(se, config.Present.Script)
 				} else {
 					if config.Script == nil {
 						config.Script = &types.XFAConfigScript{}
 					}
+					parseConfigScriptAttributes(se, config.Script)
+				}
+			case "trace":
+				if config.Trace == nil {
+					config.Trace = &types.XFAConfigTrace{}
 				}
+				parseTraceAttributes(se, config.Trace)
 			case "pdf":
 				if currentSection == "present" && config.Present != nil {
 					if config.Present.PDF == nil {
@@ -109,12 +121,14 @@ func ParseXFAConfig(xfaConfigXML string, verbose bool) (*types.XFAConfig, error)
 					if config.Present.XDP == nil {
 						config.Present.XDP = &types.XFAConfigXDP{}
 					}
+					parseXDPAttributes(se, config.Present.XDP)
 				}
 			case "print":
 				if currentSection == "present" && config.Present != nil {
 					if config.Present.Print == nil {
 						config.Present.Print = &types.XFAConfigPrint{}
 					}
+					parsePrintAttributes(se, config.Present.Print)
 				}
 			case "interactive":
 				if currentSection == "present" && config.Present != nil {
@@ -123,9 +137,6 @@ func ParseXFAConfig(xfaConfigXML string, verbose bool) (*types.XFAConfig, error)
 					}
 					parseInteractiveAttributes(se, config.Present.Interactive)
 				}
-			default:
-				// Store as property
-				currentValue.Reset()
 			}
 
 		case xml.EndElement:
@@ -133,10 +144,19 @@ func ParseXFAConfig(xfaConfigXML string, verbose bool) (*types.XFAConfig, error)
 
 			switch localName {
 			case "present", "validate", "submit", "destination", "acrobat", "common", "output":
+				if len(sections) > 0 {
+					sections = sections[:len(sections)-1]
+				}
 				currentSection = ""
+				if len(sections) > 0 {
+					currentSection = sections[len(sections)-1]
+				}
+				currentValue.Reset()
+			case "config":
+				inConfig = false
 			default:
 				value := strings.TrimSpace(currentValue.String())
-				if value != "" && currentSection != "" {
+				if value != "" && (inConfig || currentSection != "") {
 					// Store property
 					if config.Properties == nil {
 						config.Properties = make(map[string]interface{})
@@ -257,6 +277,83 @@ func parseInteractiveAttributes(se xml.StartElement, interactive *types.XFAConfi
 	}
 }
 
+func parseValidateAttributes(se xml.StartElement, validate *types.XFAConfigValidate) {
+	for _, attr := range se.Attr {
+		switch attr.Name.Local {
+		case "scriptTest":
+			validate.ScriptTest = attr.Value
+		case "nullTest":
+			validate.NullTest = attr.Value
+		case "formatTest":
+			validate.FormatTest = attr.Value
+		}
+	}
+}
+
+func parseCommonAttributes(se xml.StartElement, common *types.XFAConfigCommon) {
+	for _, attr := range se.Attr {
+		switch attr.Name.Local {
+		case "dataPrefix":
+			common.DataPrefix = attr.Value
+		case "timeStamp":
+			common.TimeStamp = attr.Value
+		}
+	}
+}
+
+func parseOutputAttributes(se xml.StartElement, output *types.XFAConfigOutput) {
+	for _, attr := range se.Attr {
+		switch attr.Name.Local {
+		case "format":
+			output.Format = attr.Value
+		case "destination":
+			output.Destination = attr.Value
+		}
+	}
+}
+
+func parseConfigScriptAttributes(se xml.StartElement, script *types.XFAConfigScript) {
+	for _, attr := range se.Attr {
+		switch attr.Name.Local {
+		case "contentType":
+			script.ContentType = attr.Value
+		case "runAt":
+			script.RunAt = attr.Value
+		}
+	}
+}
+
+func parseTraceAttributes(se xml.StartElement, trace *types.XFAConfigTrace) {
+	for _, attr := range se.Attr {
+		switch attr.Name.Local {
+		case "enabled":
+			trace.Enabled = parseBool(attr.Value)
+		case "level":
+			trace.Level = attr.Value
+		}
+	}
+}
+
+func parseXDPAttributes(se xml.StartElement, xdp *types.XFAConfigXDP) {
+	for _, attr := range se.Attr {
+		switch attr.Name.Local {
+		case "version":
+			xdp.Version = attr.Value
+		}
+	}
+}
+
+func parsePrintAttributes(se xml.StartElement, print *types.XFAConfigPrint) {
+	for _, attr := range se.Attr {
+		switch attr.Name.Local {
+		case "printerName":
+			print.PrinterName = attr.Value
+		case "printerCap":
+			print.PrinterCap = attr.Value
+		}
+	}
+}
+
 // ConfigToXFA converts XFAConfig to XFA XML
 func ConfigToXFA(config *types.XFAConfig, verbose bool) (string, error) {
 	if verbose {
@@ -322,6 +419,20 @@ func ConfigToXFA(config *types.XFAConfig, verbose bool) (string, error) {
 		}
 	}
 
+	// Encode script section
+	if config.Script != nil {
+		if err := encodeConfigScript(enc, config.Script); err != nil {
+			return "", fmt.Errorf("failed to encode script: %v", err)
+		}
+	}
+
+	// Encode trace section
+	if config.Trace != nil {
+		if err := encodeConfigTrace(enc, config.Trace); err != nil {
+			return "", fmt.Errorf("failed to encode trace: %v", err)
+		}
+	}
+
 	// Encode additional properties
 	if config.Properties != nil {
 		for _, key := range sortedNames(config.Properties) {
@@ -377,6 +488,24 @@ func encodeConfigPresent(enc *xml.Encoder, present *types.XFAConfigPresent) erro
 		}
 	}
 
+	if present.XDP != nil {
+		if err := encodeConfigXDP(enc, present.XDP); err != nil {
+			return err
+		}
+	}
+
+	if present.Print != nil {
+		if err := encodeConfigPrint(enc, present.Print); err != nil {
+			return err
+		}
+	}
+
+	if present.Script != nil {
+		if err := encodeConfigScript(enc, present.Script); err != nil {
+			return err
+		}
+	}
+
 	if present.Interactive != nil {
 		if err := encodeConfigInteractive(enc, present.Interactive); err != nil {
 			return err
@@ -429,7 +558,7 @@ func encodeConfigPDF(enc *xml.Encoder, pdf *types.XFAConfigPDF) error {
 func encodeConfigInteractive(enc *xml.Encoder, interactive *types.XFAConfigInteractive) error {
 	interactiveStart := xml.StartElement{Name: xml.Name{Local: "interactive"}}
 	attrs := []xml.Attr{}
-	if interactive.CurrentPage > 0 {
+	if interactive.CurrentPage != 0 {
 		attrs = append(attrs, xml.Attr{Name: xml.Name{Local: "currentPage"}, Value: strconv.Itoa(interactive.CurrentPage)})
 	}
 	if interactive.Zoom != "" {
@@ -450,6 +579,87 @@ func encodeConfigInteractive(enc *xml.Encoder, interactive *types.XFAConfigInter
 	return nil
 }
 
+func encodeConfigXDP(enc *xml.Encoder, xdp *types.XFAConfigXDP) error {
+	xdpStart := xml.StartElement{Name: xml.Name{Local: "xdp"}}
+	attrs := []xml.Attr{}
+	if xdp.Version != "" {
+		attrs = append(attrs, xml.Attr{Name: xml.Name{Local: "version"}, Value: xdp.Version})
+	}
+	xdpStart.Attr = attrs
+
+	if err := enc.EncodeToken(xdpStart); err != nil {
+		return err
+	}
+	if err := enc.EncodeToken(xdpStart.End()); err != nil {
+		return err
+	}
+
+	return nil
+}
+
+func encodeConfigPrint(enc *xml.Encoder, print *types.XFAConfigPrint) error {
+	printStart := xml.StartElement{Name: xml.Name{Local: "print"}}
+	attrs := []xml.Attr{}
+	if print.PrinterName != "" {
+		attrs = append(attrs, xml.Attr{Name: xml.Name{Local: "printerName"}, Value: print.PrinterName})
+	}
+	if print.PrinterCap != "" {
+		attrs = append(attrs, xml.Attr{Name: xml.Name{Local: "printerCap"}, Value: print.PrinterCap})
+	}
+	printStart.Attr = attrs
+
+	if err := enc.EncodeToken(printStart); err != nil {
+		return err
+	}
+	if err := enc.EncodeToken(printStart.End()); err != nil {
+		return err
+	}
+
+	return nil
+}
+
+func encodeConfigScript(enc *xml.Encoder, script *types.XFAConfigScript) error {
+	scriptStart := xml.StartElement{Name: xml.Name{Local: "script"}}
+	attrs := []xml.Attr{}
+	if script.ContentType != "" {
+		attrs = append(attrs, xml.Attr{Name: xml.Name{Local: "contentType"}, Value: script.ContentType})
+	}
+	if script.RunAt != "" {
+		attrs = append(attrs, xml.Attr{Name: xml.Name{Local: "runAt"}, Value: script.RunAt})
+	}
+	scriptStart.Attr = attrs
+
+	if err := enc.EncodeToken(scriptStart); err != nil {
+		return err
+	}
+	if err := enc.EncodeToken(scriptStart.End()); err != nil {
+		return err
+	}
+
+	return nil
+}
+
+func encodeConfigTrace(enc *xml.Encoder, trace *types.XFAConfigTrace) error {
+	traceStart := xml.StartElement{Name: xml.Name{Local: "trace"}}
+	attrs := []xml.Attr{}
+	if trace.Enabled {
+		attrs = append(attrs, xml.Attr{Name: xml.Name{Local: "enabled"}, Value: "1"})
+	}
+	if trace.Level != "" {
+		attrs = append(attrs, xml.Attr{Name: xml.Name{Local: "level"}, Value: trace.Level})
+	}
+	traceStart.Attr = attrs
+
+	if err := enc.EncodeToken(traceStart); err != nil {
+		return err
+	}
+	if err := enc.EncodeToken(traceStart.End()); err != nil {
+		return err
+	}
+
+	return nil
+}
+
 func encodeConfigValidate(enc *xml.Encoder, validate *types.XFAConfigValidate) error {
 	validateStart := xml.StartElement{Name: xml.Name{Local: "validate"}}
 	attrs := []xml.Attr{}
@@ -495,6 +705,14 @@ func encodeConfigSubmit(enc *xml.Encoder, submit *types.XFAConfigSubmit) error {
 	if submit.TextEncoding != "" {
 		attrs = append(attrs, xml.Attr{Name: xml.Name{Local: "textEncoding"}, Value: submit.TextEncoding})
 	}
+	var names []string
+	for name := range submit.Properties {
+		names = append(names, name)
+	}
+	sort.Strings(names)
+	for _, name := range names {
+		attrs = append(attrs, xml.Attr{Name: xml.Name{Local: name}, Value: submit.Properties[name]})
+	}
 	submitStart.Attr = attrs
 
 	if err := enc.EncodeToken(submitStart); err != nil {
@@ -534,7 +752,7 @@ func encodeConfigAcrobat(enc *xml.Encoder, acrobat *types.XFAConfigAcrobat) erro
 	if acrobat.AutoSave {
 		attrs = append(attrs, xml.Attr{Name: xml.Name{Local: "autoSave"}, Value: "1"})
 	}
-	if acrobat.AutoSaveTime > 0 {
+	if acrobat.AutoSaveTime != 0 {
 		attrs = append(attrs, xml.Attr{Name: xml.Name{Local: "autoSaveTime"}, Value: strconv.Itoa(acrobat.AutoSaveTime)})
 	}
 	if acrobat.FormType != "" {
-- 
2.43.0


From 1bc2e0a1c99952718c96f340b4d574f413693908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:20 +0000
Subject: [PATCH 80/99] fix: locales keep holidays that are called so, and
 negative precisions

---
 forms/xfa/xfa_locale_translator.go | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/forms/xfa/xfa_locale_translator.go b/forms/xfa/xfa_locale_translator.go
index d90a3f7..f5e5a34 100644
--- a/forms/xfa/xfa_locale_translator.go
+++ b/forms/xfa/xfa_locale_translator.go
@@ -145,11 +145,7 @@ func ParseXFALocaleSet(xfaLocaleSetXML string, verbose bool) (*types.XFALocaleSe
 			}
 
 		case xml.CharData:
-			if currentSection == "calendar" && strings.Contains(string(se), "holiday") {
-				// Holiday content
-			} else {
-				currentValue.WriteString(string(se))
-			}
+			currentValue.WriteString(string(se))
 		}
 	}
 
@@ -392,7 +388,7 @@ func encodeCurrency(enc *xml.Encoder, currency *types.XFACurrency) error {
 	if currency.Name != "" {
 		attrs = append(attrs, xml.Attr{Name: xml.Name{Local: "name"}, Value: currency.Name})
 	}
-	if currency.Precision > 0 {
+	if currency.Precision != 0 {
 		attrs = append(attrs, xml.Attr{Name: xml.Name{Local: "precision"}, Value: strconv.Itoa(currency.Precision)})
 	}
 	currencyStart.Attr = attrs
@@ -464,7 +460,7 @@ func encodeNumberPattern(enc *xml.Encoder, pattern *types.XFANumberPattern) erro
 	if pattern.Decimal != "" {
 		attrs = append(attrs, xml.Attr{Name: xml.Name{Local: "decimal"}, Value: pattern.Decimal})
 	}
-	if pattern.Precision > 0 {
+	if pattern.Precision != 0 {
 		attrs = append(attrs, xml.Attr{Name: xml.Name{Local: "precision"}, Value: strconv.Itoa(pattern.Precision)})
 	}
 	patternStart.Attr = attrs
-- 
2.43.0


From 5693b34d9071c8ba79d87bc5d1b9f67e034d6a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:20 +0000
Subject: [PATCH 81/99] fix: properties of a data description do not end up in
 its connection

---
 forms/xfa/xfa_connection_translator.go | 70 +++-----------------------
 1 file changed, 7 insertions(+), 63 deletions(-)

diff --git a/forms/xfa/xfa_connection_translator.go b/forms/xfa/xfa_connection_translator.go
index 767b762..1cc4a0b 100644
--- a/forms/xfa/xfa_connection_translator.go
+++ b/forms/xfa/xfa_connection_translator.go
@@ -129,71 +129,15 @@ func ParseXFAConnectionSet(xfaConnectionSetXML string, verbose bool) (*types.XFA
 				currentConnection = nil
 			case "dataDescription":
 				inDataDescription = false
-			case "uri", "url":
-				if currentConnection != nil {
-					value := strings.TrimSpace(currentValue.String())
-					if value != "" {
-						currentConnection.Properties["uri"] = value
-					}
-				}
-			case "wsdl":
-				if currentConnection != nil {
-					value := strings.TrimSpace(currentValue.String())
-					if value != "" {
-						currentConnection.Properties["wsdl"] = value
-					}
-				}
-			case "operation":
-				if currentConnection != nil {
-					value := strings.TrimSpace(currentValue.String())
-					if value != "" {
-						currentConnection.Properties["operation"] = value
-					}
-				}
-			case "soapAction":
-				if currentConnection != nil {
-					value := strings.TrimSpace(currentValue.String())
-					if value != "" {
-						currentConnection.Properties["soapAction"] = value
-					}
-				}
-			case "user":
-				if currentConnection != nil {
-					value := strings.TrimSpace(currentValue.String())
-					if value != "" {
-						currentConnection.Properties["user"] = value
-					}
-				}
-			case "password":
-				if currentConnection != nil {
-					value := strings.TrimSpace(currentValue.String())
-					if value != "" {
-						currentConnection.Properties["password"] = value
-					}
-				}
-			case "dsn":
-				if currentConnection != nil {
-					value := strings.TrimSpace(currentValue.String())
-					if value != "" {
-						currentConnection.Properties["dsn"] = value
-					}
-				}
-			case "query":
-				if currentConnection != nil {
-					value := strings.TrimSpace(currentValue.String())
-					if value != "" {
-						currentConnection.Properties["query"] = value
-					}
-				}
 			default:
-				if inDataDescription && currentConnection != nil && currentConnection.DataDescription != nil {
-					value := strings.TrimSpace(currentValue.String())
-					if value != "" {
+				value := strings.TrimSpace(currentValue.String())
+				if currentConnection != nil && value != "" {
+					switch {
+					case inDataDescription && currentConnection.DataDescription != nil:
 						currentConnection.DataDescription.Properties[localName] = value
-					}
-				} else if currentConnection != nil {
-					value := strings.TrimSpace(currentValue.String())
-					if value != "" {
+					case localName == "url":
+						currentConnection.Properties["uri"] = value
+					default:
 						currentConnection.Properties[localName] = value
 					}
 				}
-- 
2.43.0


From fae97f063120b1b56ea6729646f9a80aa691955d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:20 +0000
Subject: [PATCH 82/99] fix: negative lengths survive writing an XFA style
 sheet

---
 forms/xfa/xfa_stylesheet_translator.go | 30 +++++++++++++-------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/forms/xfa/xfa_stylesheet_translator.go b/forms/xfa/xfa_stylesheet_translator.go
index cfb2e82..955f599 100644
--- a/forms/xfa/xfa_stylesheet_translator.go
+++ b/forms/xfa/xfa_stylesheet_translator.go
@@ -411,7 +411,7 @@ func encodeStyleFont(enc *xml.Encoder, font *types.XFAStyleFont) error {
 	if font.Family != "" {
 		attrs = append(attrs, xml.Attr{Name: xml.Name{Local: "family"}, Value: font.Family})
 	}
-	if font.Size > 0 {
+	if font.Size != 0 {
 		attrs = append(attrs, xml.Attr{Name: xml.Name{Local: "size"}, Value: strconv.FormatFloat(font.Size, 'f', -1, 64)})
 	}
 	if font.Weight != "" {
@@ -441,7 +441,7 @@ func encodeStyleFont(enc *xml.Encoder, font *types.XFAStyleFont) error {
 func encodeStyleBorder(enc *xml.Encoder, border *types.XFAStyleBorder) error {
 	borderStart := xml.StartElement{Name: xml.Name{Local: "border"}}
 	attrs := []xml.Attr{}
-	if border.Width > 0 {
+	if border.Width != 0 {
 		attrs = append(attrs, xml.Attr{Name: xml.Name{Local: "width"}, Value: strconv.FormatFloat(border.Width, 'f', -1, 64)})
 	}
 	if border.Style != "" {
@@ -450,7 +450,7 @@ func encodeStyleBorder(enc *xml.Encoder, border *types.XFAStyleBorder) error {
 	if border.Color != "" {
 		attrs = append(attrs, xml.Attr{Name: xml.Name{Local: "color"}, Value: border.Color})
 	}
-	if border.Radius > 0 {
+	if border.Radius != 0 {
 		attrs = append(attrs, xml.Attr{Name: xml.Name{Local: "radius"}, Value: strconv.FormatFloat(border.Radius, 'f', -1, 64)})
 	}
 	borderStart.Attr = attrs
@@ -468,16 +468,16 @@ func encodeStyleBorder(enc *xml.Encoder, border *types.XFAStyleBorder) error {
 func encodeMargin(enc *xml.Encoder, margin *types.XFAMargin) error {
 	marginStart := xml.StartElement{Name: xml.Name{Local: "margin"}}
 	attrs := []xml.Attr{}
-	if margin.Top > 0 {
+	if margin.Top != 0 {
 		attrs = append(attrs, xml.Attr{Name: xml.Name{Local: "top"}, Value: strconv.FormatFloat(margin.Top, 'f', -1, 64)})
 	}
-	if margin.Right > 0 {
+	if margin.Right != 0 {
 		attrs = append(attrs, xml.Attr{Name: xml.Name{Local: "right"}, Value: strconv.FormatFloat(margin.Right, 'f', -1, 64)})
 	}
-	if margin.Bottom > 0 {
+	if margin.Bottom != 0 {
 		attrs = append(attrs, xml.Attr{Name: xml.Name{Local: "bottom"}, Value: strconv.FormatFloat(margin.Bottom, 'f', -1, 64)})
 	}
-	if margin.Left > 0 {
+	if margin.Left != 0 {
 		attrs = append(attrs, xml.Attr{Name: xml.Name{Local: "left"}, Value: strconv.FormatFloat(margin.Left, 'f', -1, 64)})
 	}
 	marginStart.Attr = attrs
@@ -495,16 +495,16 @@ func encodeMargin(enc *xml.Encoder, margin *types.XFAMargin) error {
 func encodePadding(enc *xml.Encoder, padding *types.XFAPadding) error {
 	paddingStart := xml.StartElement{Name: xml.Name{Local: "padding"}}
 	attrs := []xml.Attr{}
-	if padding.Top > 0 {
+	if padding.Top != 0 {
 		attrs = append(attrs, xml.Attr{Name: xml.Name{Local: "top"}, Value: strconv.FormatFloat(padding.Top, 'f', -1, 64)})
 	}
-	if padding.Right > 0 {
+	if padding.Right != 0 {
 		attrs = append(attrs, xml.Attr{Name: xml.Name{Local: "right"}, Value: strconv.FormatFloat(padding.Right, 'f', -1, 64)})
 	}
-	if padding.Bottom > 0 {
+	if padding.Bottom != 0 {
 		attrs = append(attrs, xml.Attr{Name: xml.Name{Local: "bottom"}, Value: strconv.FormatFloat(padding.Bottom, 'f', -1, 64)})
 	}
-	if padding.Left > 0 {
+	if padding.Left != 0 {
 		attrs = append(attrs, xml.Attr{Name: xml.Name{Local: "left"}, Value: strconv.FormatFloat(padding.Left, 'f', -1, 64)})
 	}
 	paddingStart.Attr = attrs
@@ -522,10 +522,10 @@ func encodePadding(enc *xml.Encoder, padding *types.XFAPadding) error {
 func encodePosition(enc *xml.Encoder, position *types.XFAPosition) error {
 	positionStart := xml.StartElement{Name: xml.Name{Local: "position"}}
 	attrs := []xml.Attr{}
-	if position.X > 0 {
+	if position.X != 0 {
 		attrs = append(attrs, xml.Attr{Name: xml.Name{Local: "x"}, Value: strconv.FormatFloat(position.X, 'f', -1, 64)})
 	}
-	if position.Y > 0 {
+	if position.Y != 0 {
 		attrs = append(attrs, xml.Attr{Name: xml.Name{Local: "y"}, Value: strconv.FormatFloat(position.Y, 'f', -1, 64)})
 	}
 	positionStart.Attr = attrs
@@ -543,10 +543,10 @@ func encodePosition(enc *xml.Encoder, position *types.XFAPosition) error {
 func encodeSize(enc *xml.Encoder, size *types.XFASize) error {
 	sizeStart := xml.StartElement{Name: xml.Name{Local: "size"}}
 	attrs := []xml.Attr{}
-	if size.Width > 0 {
+	if size.Width != 0 {
 		attrs = append(attrs, xml.Attr{Name: xml.Name{Local: "width"}, Value: strconv.FormatFloat(size.Width, 'f', -1, 64)})
 	}
-	if size.Height > 0 {
+	if size.Height != 0 {
 		attrs = append(attrs, xml.Attr{Name: xml.Name{Local: "height"}, Value: strconv.FormatFloat(size.Height, 'f', -1, 64)})
 	}
 	sizeStart.Attr = attrs
-- 
2.43.0


From 5ebc24cefa47e944e98b1639fd62d8fb4ec8aa58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:43 +0000
Subject: [PATCH 83/99] fix: -extract-schema reads the template of the form,
 which defines its questions

---
 cmd/pdfer/main.go | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/cmd/pdfer/main.go b/cmd/pdfer/main.go
index 3af6443..6d1a093 100644
--- a/cmd/pdfer/main.go
+++ b/cmd/pdfer/main.go
@@ -249,20 +249,17 @@ func handleExtractSchema(inputPDF, outputJSON string, verbose bool) {
 		}
 	}
 
-	// Extract XFA data from PDF
-	xfaData, _, err := xfa.FindXFADatasetsStream(pdfBytes, encryptInfo, verbose)
+	// Extract the XFA template, which defines the form
+	streams, err := xfa.ExtractAllXFAStreams(pdfBytes, encryptInfo, verbose)
 	if err != nil {
-		log.Fatalf("Error finding XFA datasets stream: %v", err)
+		log.Fatalf("Error extracting XFA streams: %v", err)
 	}
-
-	// Decompress XFA XML
-	xfaXML, _, err := xfa.DecompressStream(xfaData)
-	if err != nil {
-		log.Fatalf("Error decompressing XFA stream: %v", err)
+	if streams.Template == nil || len(streams.Template.Data) == 0 {
+		log.Fatal("Error: PDF has no XFA template")
 	}
 
 	// Parse XFA to FormSchema
-	schema, err := xfa.ParseXFAForm(string(xfaXML), verbose)
+	schema, err := xfa.ParseXFAForm(string(streams.Template.Data), verbose)
 	if err != nil {
 		log.Fatalf("Error parsing XFA form: %v", err)
 	}
-- 
2.43.0


From d26bf3ffc48c7acfa6f21454b71af9f3ad833095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:43 +0000
Subject: [PATCH 84/99] fix: the command tells encrypted documents by their
 trailer

---
 cmd/pdfer/main.go | 106 ++++++++++++----------------------------------
 1 file changed, 28 insertions(+), 78 deletions(-)

diff --git a/cmd/pdfer/main.go b/cmd/pdfer/main.go
index 6d1a093..6b7a63d 100644
--- a/cmd/pdfer/main.go
+++ b/cmd/pdfer/main.go
@@ -1,14 +1,13 @@
 package main
 
 import (
-	"bytes"
 	"encoding/json"
 	"flag"
 	"fmt"
 	"log"
 	"os"
 
-	encrypt "github.com/benedoc-inc/pdfer/core/encrypt"
+	"github.com/benedoc-inc/pdfer/core/parse"
 	"github.com/benedoc-inc/pdfer/forms/xfa"
 	"github.com/benedoc-inc/pdfer/types"
 )
@@ -122,44 +121,10 @@ func main() {
 		log.Fatalf("Error reading PDF: %v", err)
 	}
 
-	// Check if PDF is encrypted and decrypt if needed
-	var encryptInfo *types.PDFEncryption
-	if bytes.Contains(pdfBytes, []byte("/Encrypt")) {
-		if *verbose {
-			log.Printf("PDF is encrypted, attempting to decrypt...")
-		}
-
-		// Try to decrypt with empty password (most eSTAR PDFs allow this)
-		decryptedBytes, encInfo, err := encrypt.DecryptPDF(pdfBytes, []byte(""), *verbose)
-		if err != nil {
-			if *verbose {
-				log.Printf("Empty password failed, trying common passwords...")
-			}
-			// Try common passwords
-			commonPasswords := [][]byte{[]byte(""), []byte("admin"), []byte("password"), []byte("1234")}
-			decrypted := false
-			for _, pwd := range commonPasswords {
-				decryptedBytes, encInfo, err := encrypt.DecryptPDF(pdfBytes, pwd, *verbose)
-				if err == nil {
-					pdfBytes = decryptedBytes
-					encryptInfo = encInfo
-					decrypted = true
-					if *verbose {
-						log.Printf("Successfully decrypted PDF")
-					}
-					break
-				}
-			}
-			if !decrypted {
-				log.Fatalf("Could not decrypt PDF: %v", err)
-			}
-		} else {
-			pdfBytes = decryptedBytes
-			encryptInfo = encInfo
-			if *verbose {
-				log.Printf("Successfully decrypted PDF with empty password")
-			}
-		}
+	// Open the PDF, which also finds out how it is encrypted
+	encryptInfo, err := openPDF(pdfBytes, *verbose)
+	if err != nil {
+		log.Fatalf("Error opening PDF: %v", err)
 	}
 
 	// Update XFA in PDF
@@ -201,6 +166,25 @@ func main() {
 	fmt.Printf("Fields filled: %d\n", len(formData))
 }
 
+// openPDF returns the encryption of the PDF, or nil if it has none. It tries the empty
+// password, which most eSTAR PDFs allow, and then common ones.
+func openPDF(pdfBytes []byte, verbose bool) (*types.PDFEncryption, error) {
+	var firstErr error
+	for _, pwd := range []string{"", "admin", "password", "1234"} {
+		pdf, err := parse.OpenWithOptions(pdfBytes, parse.ParseOptions{Password: []byte(pwd), Verbose: verbose})
+		if err == nil {
+			if verbose && pdf.Encryption() != nil {
+				log.Printf("Successfully decrypted PDF")
+			}
+			return pdf.Encryption(), nil
+		}
+		if firstErr == nil {
+			firstErr = err
+		}
+	}
+	return nil, firstErr
+}
+
 // handleExtractSchema extracts questionnaire schema from PDF and writes it as JSON
 func handleExtractSchema(inputPDF, outputJSON string, verbose bool) {
 	// Read PDF file
@@ -209,44 +193,10 @@ func handleExtractSchema(inputPDF, outputJSON string, verbose bool) {
 		log.Fatalf("Error reading PDF: %v", err)
 	}
 
-	// Check if PDF is encrypted and decrypt if needed
-	var encryptInfo *types.PDFEncryption
-	if bytes.Contains(pdfBytes, []byte("/Encrypt")) {
-		if verbose {
-			log.Printf("PDF is encrypted, attempting to decrypt...")
-		}
-
-		// Try to decrypt with empty password (most eSTAR PDFs allow this)
-		decryptedBytes, encInfo, err := encrypt.DecryptPDF(pdfBytes, []byte(""), verbose)
-		if err != nil {
-			if verbose {
-				log.Printf("Empty password failed, trying common passwords...")
-			}
-			// Try common passwords
-			commonPasswords := [][]byte{[]byte(""), []byte("admin"), []byte("password"), []byte("1234")}
-			decrypted := false
-			for _, pwd := range commonPasswords {
-				decryptedBytes, encInfo, err = encrypt.DecryptPDF(pdfBytes, pwd, verbose)
-				if err == nil {
-					pdfBytes = decryptedBytes
-					encryptInfo = encInfo
-					decrypted = true
-					if verbose {
-						log.Printf("Successfully decrypted PDF")
-					}
-					break
-				}
-			}
-			if !decrypted {
-				log.Fatalf("Could not decrypt PDF: %v", err)
-			}
-		} else {
-			pdfBytes = decryptedBytes
-			encryptInfo = encInfo
-			if verbose {
-				log.Printf("Successfully decrypted PDF with empty password")
-			}
-		}
+	// Open the PDF, which also finds out how it is encrypted
+	encryptInfo, err := openPDF(pdfBytes, verbose)
+	if err != nil {
+		log.Fatalf("Error opening PDF: %v", err)
 	}
 
 	// Extract the XFA template, which defines the form
-- 
2.43.0


From 19c02529142834ed6d368a375485bdcc71c21d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:45 +0000
Subject: [PATCH 85/99] fix: SetBookmarks puts /Outlines among the catalog's
 own entries, however the catalog is written

---
 core/write/writer.go | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/core/write/writer.go b/core/write/writer.go
index 5d66141..e85ba7a 100644
--- a/core/write/writer.go
+++ b/core/write/writer.go
@@ -11,7 +11,6 @@ import (
 	"crypto/rc4"
 	"fmt"
 	"io"
-	"regexp"
 	"sort"
 	"strconv"
 	"strings"
@@ -212,10 +211,10 @@ func (w *PDFWriter) updateCatalogWithOutlines() {
 
 	// Otherwise replace or add the entry in the content, keeping everything else
 	catalogStr := string(catalogObj.Content)
-	if loc := outlinesEntry.FindStringIndex(catalogStr); loc != nil {
-		catalogStr = catalogStr[:loc[0]] + "/Outlines " + w.outlinesRef + catalogStr[loc[1]:]
-	} else if lastIdx := strings.LastIndex(catalogStr, ">>"); lastIdx > 0 {
-		catalogStr = catalogStr[:lastIdx] + fmt.Sprintf("/Outlines %s ", w.outlinesRef) + catalogStr[lastIdx:]
+	if start, end, ok := parse.DictValue(catalogObj.Content, "/Outlines"); ok {
+		catalogStr = catalogStr[:start] + " " + w.outlinesRef + catalogStr[end:]
+	} else if token, next := parse.NextToken(catalogObj.Content, 0); token == "<<" {
+		catalogStr = catalogStr[:next] + fmt.Sprintf("/Outlines %s ", w.outlinesRef) + catalogStr[next:]
 	} else {
 		return
 	}
@@ -226,9 +225,6 @@ func (w *PDFWriter) updateCatalogWithOutlines() {
 	}
 }
 
-// outlinesEntry matches the /Outlines entry of a catalog
-var outlinesEntry = regexp.MustCompile(`/Outlines\s+\d+\s+\d+\s+R`)
-
 // SetEncryptRef sets the encrypt dictionary object reference
 func (w *PDFWriter) SetEncryptRef(objNum int) {
 	w.encryptRef = fmt.Sprintf("%d 0 R", objNum)
-- 
2.43.0


From 625d74de7a3924b2ad4d564a6289d8bb15b52d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:54 +0000
Subject: [PATCH 86/99] fix: forms: entries of fields and of the catalog are
 set among their own, not where their text shows up

---
 forms/acroform/actions.go    | 66 ++++++------------------------------
 forms/acroform/appearance.go | 30 +---------------
 forms/acroform/writer.go     | 25 ++++++++------
 3 files changed, 27 insertions(+), 94 deletions(-)

diff --git a/forms/acroform/actions.go b/forms/acroform/actions.go
index 430e891..912d8a7 100644
--- a/forms/acroform/actions.go
+++ b/forms/acroform/actions.go
@@ -3,9 +3,8 @@ package acroform
 
 import (
 	"fmt"
-	"regexp"
-	"strings"
 
+	"github.com/benedoc-inc/pdfer/core/parse"
 	"github.com/benedoc-inc/pdfer/core/write"
 )
 
@@ -31,14 +30,6 @@ type Action struct {
 
 // AddActionToField adds an action to a field
 func AddActionToField(fieldObjNum int, action *Action, w *write.PDFWriter) error {
-	// Get existing field object
-	fieldData, err := w.GetObject(fieldObjNum)
-	if err != nil {
-		return fmt.Errorf("failed to get field object: %w", err)
-	}
-
-	fieldStr := string(fieldData)
-
 	// Create action dictionary
 	var actionDict string
 	switch action.Type {
@@ -63,31 +54,8 @@ func AddActionToField(fieldObjNum int, action *Action, w *write.PDFWriter) error
 		return fmt.Errorf("unsupported action type: %s", action.Type)
 	}
 
-	// Add /AA (additional actions) or /A (action) to field
-	// /A is for the main action, /AA is for event-specific actions
-	actionEntry := fmt.Sprintf("/A %s", actionDict)
-
-	// Check if /A or /AA already exists
-	if strings.Contains(fieldStr, "/A ") || strings.Contains(fieldStr, "/AA ") {
-		// Replace existing action (simplified - would need better parsing)
-		// For now, just add /A
-		dictEnd := strings.LastIndex(fieldStr, ">>")
-		if dictEnd == -1 {
-			return fmt.Errorf("field dictionary not found")
-		}
-		fieldStr = fieldStr[:dictEnd] + actionEntry + " " + fieldStr[dictEnd:]
-	} else {
-		// Add action before closing >>
-		dictEnd := strings.LastIndex(fieldStr, ">>")
-		if dictEnd == -1 {
-			return fmt.Errorf("field dictionary not found")
-		}
-		fieldStr = fieldStr[:dictEnd] + actionEntry + " " + fieldStr[dictEnd:]
-	}
-
-	// Update object
-	w.SetObject(fieldObjNum, []byte(fieldStr))
-	return nil
+	// /A is the main action; it takes the place of one the field has already
+	return setObjectEntry(fieldObjNum, "/A", actionDict, w)
 }
 
 // AddMouseAction adds a mouse-triggered action (e.g., onClick)
@@ -98,8 +66,6 @@ func AddMouseAction(fieldObjNum int, event string, action *Action, w *write.PDFW
 		return fmt.Errorf("failed to get field object: %w", err)
 	}
 
-	fieldStr := string(fieldData)
-
 	// Create action dictionary
 	var actionDict string
 	switch action.Type {
@@ -125,24 +91,14 @@ func AddMouseAction(fieldObjNum int, event string, action *Action, w *write.PDFW
 		return fmt.Errorf("unsupported event: %s", event)
 	}
 
-	// Add to /AA dictionary
-	aaEntry := fmt.Sprintf("/AA << /%s %s >>", actionKey, actionDict)
-
-	// Check if /AA exists
-	if strings.Contains(fieldStr, "/AA ") {
-		// Update existing /AA (simplified)
-		aaPattern := regexp.MustCompile(`/AA\s*<<[^>]*>>`)
-		fieldStr = aaPattern.ReplaceAllString(fieldStr, aaEntry)
-	} else {
-		// Add /AA before closing >>
-		dictEnd := strings.LastIndex(fieldStr, ">>")
-		if dictEnd == -1 {
-			return fmt.Errorf("field dictionary not found")
+	// Add to the /AA dictionary, beside the actions for other events
+	aaDict := []byte("<<>>")
+	if start, end, ok := parse.DictValue(fieldData, "/AA"); ok {
+		aaDict = fieldData[start:end]
+		if token, _ := parse.NextToken(aaDict, 0); token != "<<" {
+			return fmt.Errorf("the additional actions are not a dictionary")
 		}
-		fieldStr = fieldStr[:dictEnd] + aaEntry + " " + fieldStr[dictEnd:]
 	}
-
-	// Update object
-	w.SetObject(fieldObjNum, []byte(fieldStr))
-	return nil
+	aaDict = setDictValue(aaDict, "/"+actionKey, actionDict)
+	return setObjectEntry(fieldObjNum, "/AA", string(aaDict), w)
 }
diff --git a/forms/acroform/appearance.go b/forms/acroform/appearance.go
index 66cf7f4..754f695 100644
--- a/forms/acroform/appearance.go
+++ b/forms/acroform/appearance.go
@@ -3,7 +3,6 @@ package acroform
 
 import (
 	"fmt"
-	"regexp"
 	"strings"
 
 	"github.com/benedoc-inc/pdfer/core/write"
@@ -183,32 +182,5 @@ func escapeAppearanceText(s string) string {
 
 // AddAppearanceToField adds an appearance stream to a field object
 func AddAppearanceToField(fieldObjNum, appearanceNum int, w *write.PDFWriter) error {
-	// Get existing field object
-	fieldData, err := w.GetObject(fieldObjNum)
-	if err != nil {
-		return fmt.Errorf("failed to get field object: %w", err)
-	}
-
-	fieldStr := string(fieldData)
-
-	// Add or update /AP dictionary
-	apEntry := fmt.Sprintf("/AP << /N %d 0 R >>", appearanceNum)
-
-	// Check if /AP already exists
-	if strings.Contains(fieldStr, "/AP") {
-		// Replace existing /AP
-		apPattern := regexp.MustCompile(`/AP\s*<<[^>]*>>`)
-		fieldStr = apPattern.ReplaceAllString(fieldStr, apEntry)
-	} else {
-		// Add /AP before closing >>
-		dictEnd := strings.LastIndex(fieldStr, ">>")
-		if dictEnd == -1 {
-			return fmt.Errorf("field dictionary not found")
-		}
-		fieldStr = fieldStr[:dictEnd] + apEntry + " " + fieldStr[dictEnd:]
-	}
-
-	// Update object
-	w.SetObject(fieldObjNum, []byte(fieldStr))
-	return nil
+	return setObjectEntry(fieldObjNum, "/AP", fmt.Sprintf("<< /N %d 0 R >>", appearanceNum), w)
 }
diff --git a/forms/acroform/writer.go b/forms/acroform/writer.go
index c3c053a..2d12566 100644
--- a/forms/acroform/writer.go
+++ b/forms/acroform/writer.go
@@ -6,6 +6,7 @@ import (
 	"strconv"
 	"strings"
 
+	"github.com/benedoc-inc/pdfer/core/parse"
 	"github.com/benedoc-inc/pdfer/core/write"
 )
 
@@ -264,17 +265,21 @@ func AddAcroFormToCatalog(w *write.PDFWriter, catalogNum, acroFormNum int) error
 	}
 
 	// Add AcroForm reference
-	catalogStr := string(catalogData)
-	if !strings.Contains(catalogStr, "/AcroForm") {
-		// Find the closing >>
-		dictEnd := strings.LastIndex(catalogStr, ">>")
-		if dictEnd == -1 {
-			return fmt.Errorf("invalid catalog dictionary")
-		}
-		newEntry := fmt.Sprintf(" /AcroForm %d 0 R", acroFormNum)
-		catalogStr = catalogStr[:dictEnd] + newEntry + catalogStr[dictEnd:]
-		w.SetObject(catalogNum, []byte(catalogStr))
+	if _, _, ok := parse.DictValue(catalogData, "/AcroForm"); ok {
+		return nil
 	}
+	return setObjectEntry(catalogNum, "/AcroForm", fmt.Sprintf("%d 0 R", acroFormNum), w)
+}
 
+// setObjectEntry sets the value of a key of a dictionary that has been written
+func setObjectEntry(objNum int, key, value string, w *write.PDFWriter) error {
+	dict, err := w.GetObject(objNum)
+	if err != nil {
+		return fmt.Errorf("failed to get object: %w", err)
+	}
+	if token, _ := parse.NextToken(dict, 0); token != "<<" {
+		return fmt.Errorf("object %d is not a dictionary", objNum)
+	}
+	w.SetObject(objNum, setDictValue(dict, key, value))
 	return nil
 }
-- 
2.43.0


From 5d4192d34da3204d0c42c8ac460515c3ca15faf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:12 +0000
Subject: [PATCH 87/99] fix: appearances of fields show their text in a font
 that exists, and beyond ASCII

---
 forms/acroform/appearance.go | 78 +++++++++++++++++-------------------
 1 file changed, 36 insertions(+), 42 deletions(-)

diff --git a/forms/acroform/appearance.go b/forms/acroform/appearance.go
index 754f695..62ee2ba 100644
--- a/forms/acroform/appearance.go
+++ b/forms/acroform/appearance.go
@@ -85,24 +85,18 @@ func (ab *AppearanceBuilder) CreateTextAppearance(text string, width, height, fo
 	textY := height * 0.2 // Leave some margin
 	content.WriteString(fmt.Sprintf("0 %.2f Td\n", textY))
 
-	// Escape text for PDF
-	escapedText := escapeAppearanceText(text)
-	content.WriteString(fmt.Sprintf("(%s) Tj\n", escapedText))
+	content.WriteString(showText(text))
 
 	content.WriteString("ET\n") // End text
 	content.WriteString("Q\n")  // Restore state
 
 	// Create appearance stream
 	appearanceDict := write.Dictionary{
-		"/Type":    "/XObject",
-		"/Subtype": "/Form",
-		"/BBox":    []interface{}{0, 0, width, height},
-		"/Matrix":  []interface{}{1, 0, 0, 1, 0, 0},
-		"/Resources": write.Dictionary{
-			"/Font": write.Dictionary{
-				fontName: fmt.Sprintf("%d 0 R", 0), // Font reference (would need actual font)
-			},
-		},
+		"/Type":      "/XObject",
+		"/Subtype":   "/Form",
+		"/BBox":      []interface{}{0, 0, width, height},
+		"/Matrix":    []interface{}{1, 0, 0, 1, 0, 0},
+		"/Resources": appearanceFont(fontName),
 	}
 
 	appearanceNum := ab.writer.AddStreamObject(appearanceDict, []byte(content.String()), true)
@@ -135,49 +129,49 @@ func (ab *AppearanceBuilder) CreateButtonAppearance(label string, width, height,
 	textX := (width - float64(len(label))*6) / 2 // Rough centering
 	textY := (height - 12) / 2
 	content.WriteString(fmt.Sprintf("%.2f %.2f Td\n", textX, textY))
-	content.WriteString(fmt.Sprintf("(%s) Tj\n", escapeAppearanceText(label)))
+	content.WriteString(showText(label))
 	content.WriteString("ET\n") // End text
 
 	content.WriteString("Q\n") // Restore state
 
 	// Create appearance stream
 	appearanceDict := write.Dictionary{
-		"/Type":    "/XObject",
-		"/Subtype": "/Form",
-		"/BBox":    []interface{}{0, 0, width, height},
-		"/Matrix":  []interface{}{1, 0, 0, 1, 0, 0},
+		"/Type":      "/XObject",
+		"/Subtype":   "/Form",
+		"/BBox":      []interface{}{0, 0, width, height},
+		"/Matrix":    []interface{}{1, 0, 0, 1, 0, 0},
+		"/Resources": appearanceFont("Helvetica"),
 	}
 
 	appearanceNum := ab.writer.AddStreamObject(appearanceDict, []byte(content.String()), true)
 	return appearanceNum, nil
 }
 
-// escapeAppearanceText escapes text for appearance streams
-func escapeAppearanceText(s string) string {
-	var result strings.Builder
-	for _, r := range s {
-		switch r {
-		case '\\':
-			result.WriteString("\\\\")
-		case '(':
-			result.WriteString("\\(")
-		case ')':
-			result.WriteString("\\)")
-		case '\n':
-			result.WriteString("\\n")
-		case '\r':
-			result.WriteString("\\r")
-		case '\t':
-			result.WriteString("\\t")
-		default:
-			if r > 127 {
-				result.WriteString(fmt.Sprintf("\\%03o", r))
-			} else {
-				result.WriteRune(r)
-			}
-		}
+// appearanceFont returns the resources of an appearance that shows text in a font of that
+// name. A name that is not one of the standard fonts stands for Helvetica.
+func appearanceFont(name string) write.Dictionary {
+	baseFont := "Helvetica"
+	switch name {
+	case "Courier", "Courier-Bold", "Courier-Oblique", "Courier-BoldOblique",
+		"Helvetica-Bold", "Helvetica-Oblique", "Helvetica-BoldOblique",
+		"Times-Roman", "Times-Bold", "Times-Italic", "Times-BoldItalic":
+		baseFont = name
 	}
-	return result.String()
+	return write.Dictionary{
+		"/Font": write.Dictionary{
+			"/" + name: write.Dictionary{
+				"/Type":     "/Font",
+				"/Subtype":  "/Type1",
+				"/BaseFont": "/" + baseFont,
+				"/Encoding": "/WinAnsiEncoding",
+			},
+		},
+	}
+}
+
+// showText returns the operator that shows text in a font with WinAnsiEncoding
+func showText(text string) string {
+	return write.NewContentStream().ShowText(text).String()
 }
 
 // AddAppearanceToField adds an appearance stream to a field object
-- 
2.43.0


From 6ef40e1d4d2d2acd15d607e2fed029e5ac069e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:01 +0000
Subject: [PATCH 88/99] fix: pages whose /Type is a reference are pages

---
 content/extract/dict_helpers.go | 2 +-
 core/manipulate/extraction.go   | 2 +-
 core/manipulate/rotation.go     | 4 +---
 3 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/content/extract/dict_helpers.go b/content/extract/dict_helpers.go
index d343009..31f1103 100644
--- a/content/extract/dict_helpers.go
+++ b/content/extract/dict_helpers.go
@@ -108,7 +108,7 @@ func collectPages(pdf *parse.PDF, objNum int, parents []pageDict, verbose bool)
 		fmt.Printf("Pages object %d: %s\n", objNum, dict)
 	}
 
-	if extractDictValue(dict, "/Type") == "/Page" {
+	if resolveValue(extractDictValue(dict, "/Type"), pdf) == "/Page" {
 		start := strings.Index(dict, "<<") + len("<<")
 		for _, key := range inheritableAttributes {
 			if extractDictValue(dict, key) != "" {
diff --git a/core/manipulate/extraction.go b/core/manipulate/extraction.go
index 21d28b3..e8711f0 100644
--- a/core/manipulate/extraction.go
+++ b/core/manipulate/extraction.go
@@ -77,7 +77,7 @@ func ExtractPages(pdfBytes []byte, pageNumbers []int, password []byte, verbose b
 		if !ok || copied[objNum] {
 			continue
 		}
-		switch extractDictValue(string(obj), "/Type") {
+		switch manipulator.dictValue(objNum, "/Type") {
 		case "/Page", "/Pages", "/Catalog":
 			continue
 		}
diff --git a/core/manipulate/rotation.go b/core/manipulate/rotation.go
index 9a51386..b96d221 100644
--- a/core/manipulate/rotation.go
+++ b/core/manipulate/rotation.go
@@ -154,10 +154,8 @@ func (m *PDFManipulator) rootPagesObject() (int, error) {
 
 // extractPagePositions recursively finds the pages at and below a node of the pages tree
 func (m *PDFManipulator) extractPagePositions(node pagePosition) []pagePosition {
-	nodeStr := string(m.objects[node.objNum])
-
 	// Check if this is a /Page (leaf) or /Pages (intermediate)
-	if extractDictValue(nodeStr, "/Type") == "/Page" {
+	if m.dictValue(node.objNum, "/Type") == "/Page" {
 		return []pagePosition{node}
 	}
 
-- 
2.43.0


From e9e942ffab1e70afd88d0608874e0ed1393e4534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:16 +0000
Subject: [PATCH 89/99] fix: JPEG images with one fill byte before a marker are
 read

---
 core/write/image.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/write/image.go b/core/write/image.go
index f8f758e..1af6b81 100644
--- a/core/write/image.go
+++ b/core/write/image.go
@@ -184,8 +184,9 @@ func parseJPEGHeader(data []byte) (width, height int, colorSpace string, err err
 		marker := data[pos+1]
 		pos += 2
 
-		// Skip padding
+		// Skip padding: the second byte may start the marker
 		if marker == 0xFF {
+			pos--
 			continue
 		}
 
-- 
2.43.0


From 388a4af3844cdd0179fd2f284156830f6d924c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:20 +0000
Subject: [PATCH 90/99] fix: codes of MacExpertEncoding from 80 on

---
 content/extract/encoding.go | 156 +++++++++++++++++++++++++++++-------
 1 file changed, 125 insertions(+), 31 deletions(-)

diff --git a/content/extract/encoding.go b/content/extract/encoding.go
index e129e29..f08c8e4 100644
--- a/content/extract/encoding.go
+++ b/content/extract/encoding.go
@@ -643,37 +643,131 @@ var macExpertEncoding = map[int]rune{
 	77:  '\u215E', // seveneighths
 	78:  '\u2153', // onethird
 	79:  '\u2154', // twothirds
-	80:  '\uFB00', // ff
-	81:  '\uFB01', // fi
-	82:  '\uFB02', // fl
-	83:  '\uFB03', // ffi
-	84:  '\uFB04', // ffl
-	85:  '\u2070', // zerosuperior
-	86:  '\u2074', // foursuperior
-	87:  '\u2075', // fivesuperior
-	88:  '\u2076', // sixsuperior
-	89:  '\u2077', // sevensuperior
-	90:  '\u2078', // eightsuperior
-	91:  '\u2079', // ninesuperior
-	92:  '\u2080', // zeroinferior
-	93:  '\u2081', // oneinferior
-	94:  '\u2082', // twoinferior
-	95:  '\u2083', // threeinferior
-	96:  '\u2084', // fourinferior
-	97:  '\u2085', // fiveinferior
-	98:  '\u2086', // sixinferior
-	99:  '\u2087', // seveninferior
-	100: '\u2088', // eightinferior
-	101: '\u2089', // nineinferior
-	102: '\u00B9', // onesuperior
-	103: '\u00B2', // twosuperior
-	104: '\u00B3', // threesuperior
-	105: '\u2071', // isuperior
-	106: '\u207F', // nsuperior
-	109: '\u2219', // centinferior
-	110: '\uF6E0', // dollarinferior
-	111: '\uF6E1', // periodinferior
-	112: '\uF6E2', // commainferior
+	86:  '\uFB00', // ff
+	87:  '\uFB01', // fi
+	88:  '\uFB02', // fl
+	89:  '\uFB03', // ffi
+	90:  '\uFB04', // ffl
+	91:  '\u208D', // parenleftinferior
+	93:  '\u208E', // parenrightinferior
+	94:  '\uF6F6', // Circumflexsmall
+	95:  '\uF6E5', // hypheninferior
+	96:  '\uF760', // Gravesmall
+	97:  '\uF761', // Asmall
+	98:  '\uF762', // Bsmall
+	99:  '\uF763', // Csmall
+	100: '\uF764', // Dsmall
+	101: '\uF765', // Esmall
+	102: '\uF766', // Fsmall
+	103: '\uF767', // Gsmall
+	104: '\uF768', // Hsmall
+	105: '\uF769', // Ismall
+	106: '\uF76A', // Jsmall
+	107: '\uF76B', // Ksmall
+	108: '\uF76C', // Lsmall
+	109: '\uF76D', // Msmall
+	110: '\uF76E', // Nsmall
+	111: '\uF76F', // Osmall
+	112: '\uF770', // Psmall
+	113: '\uF771', // Qsmall
+	114: '\uF772', // Rsmall
+	115: '\uF773', // Ssmall
+	116: '\uF774', // Tsmall
+	117: '\uF775', // Usmall
+	118: '\uF776', // Vsmall
+	119: '\uF777', // Wsmall
+	120: '\uF778', // Xsmall
+	121: '\uF779', // Ysmall
+	122: '\uF77A', // Zsmall
+	123: '\u20A1', // colonmonetary
+	124: '\uF6DC', // onefitted
+	125: '\uF6DD', // rupiah
+	126: '\uF6FE', // Tildesmall
+	129: '\uF6E9', // asuperior
+	130: '\uF6E0', // centsuperior
+	135: '\uF7E1', // Aacutesmall
+	136: '\uF7E0', // Agravesmall
+	137: '\uF7E2', // Acircumflexsmall
+	138: '\uF7E4', // Adieresissmall
+	139: '\uF7E3', // Atildesmall
+	140: '\uF7E5', // Aringsmall
+	141: '\uF7E7', // Ccedillasmall
+	142: '\uF7E9', // Eacutesmall
+	143: '\uF7E8', // Egravesmall
+	144: '\uF7EA', // Ecircumflexsmall
+	145: '\uF7EB', // Edieresissmall
+	146: '\uF7ED', // Iacutesmall
+	147: '\uF7EC', // Igravesmall
+	148: '\uF7EE', // Icircumflexsmall
+	149: '\uF7EF', // Idieresissmall
+	150: '\uF7F1', // Ntildesmall
+	151: '\uF7F3', // Oacutesmall
+	152: '\uF7F2', // Ogravesmall
+	153: '\uF7F4', // Ocircumflexsmall
+	154: '\uF7F6', // Odieresissmall
+	155: '\uF7F5', // Otildesmall
+	156: '\uF7FA', // Uacutesmall
+	157: '\uF7F9', // Ugravesmall
+	158: '\uF7FB', // Ucircumflexsmall
+	159: '\uF7FC', // Udieresissmall
+	161: '\u2078', // eightsuperior
+	162: '\u2084', // fourinferior
+	163: '\u2083', // threeinferior
+	164: '\u2086', // sixinferior
+	165: '\u2088', // eightinferior
+	166: '\u2087', // seveninferior
+	167: '\uF6FD', // Scaronsmall
+	169: '\uF6DF', // centinferior
+	170: '\u2082', // twoinferior
+	172: '\uF7A8', // Dieresissmall
+	174: '\uF6F5', // Caronsmall
+	175: '\uF6F0', // osuperior
+	176: '\u2085', // fiveinferior
+	178: '\uF6E1', // commainferior
+	179: '\uF6E7', // periodinferior
+	180: '\uF7FD', // Yacutesmall
+	182: '\uF6E3', // dollarinferior
+	185: '\uF7FE', // Thornsmall
+	187: '\u2089', // nineinferior
+	188: '\u2080', // zeroinferior
+	189: '\uF6FF', // Zcaronsmall
+	190: '\uF7E6', // AEsmall
+	191: '\uF7F8', // Oslashsmall
+	192: '\uF7BF', // questiondownsmall
+	193: '\u2081', // oneinferior
+	194: '\uF6F9', // Lslashsmall
+	201: '\uF7B8', // Cedillasmall
+	207: '\uF6FA', // OEsmall
+	208: '\u2012', // figuredash
+	209: '\uF6E6', // hyphensuperior
+	214: '\uF7A1', // exclamdownsmall
+	216: '\uF7FF', // Ydieresissmall
+	218: '\u00B9', // onesuperior
+	219: '\u00B2', // twosuperior
+	220: '\u00B3', // threesuperior
+	221: '\u2074', // foursuperior
+	222: '\u2075', // fivesuperior
+	223: '\u2076', // sixsuperior
+	224: '\u2077', // sevensuperior
+	225: '\u2079', // ninesuperior
+	226: '\u2070', // zerosuperior
+	228: '\uF6EC', // esuperior
+	229: '\uF6F1', // rsuperior
+	230: '\uF6F3', // tsuperior
+	233: '\uF6ED', // isuperior
+	234: '\uF6F2', // ssuperior
+	235: '\uF6EB', // dsuperior
+	241: '\uF6EE', // lsuperior
+	242: '\uF6FB', // Ogoneksmall
+	243: '\uF6F4', // Brevesmall
+	244: '\uF7AF', // Macronsmall
+	245: '\uF6EA', // bsuperior
+	246: '\u207F', // nsuperior
+	247: '\uF6EF', // msuperior
+	248: '\uF6E2', // commasuperior
+	249: '\uF6E8', // periodsuperior
+	250: '\uF6F7', // Dotaccentsmall
+	251: '\uF6FC', // Ringsmall
 }
 
 // Adobe Glyph List (partial - most common glyphs)
-- 
2.43.0


From 5df446da72513bd15e223d2f47f614636478f804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:47 +0000
Subject: [PATCH 91/99] fix: values of an XFA form include those in groups

---
 forms/forms.go | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/forms/forms.go b/forms/forms.go
index a0c94da..d744414 100644
--- a/forms/forms.go
+++ b/forms/forms.go
@@ -3,6 +3,8 @@
 package forms
 
 import (
+	"fmt"
+
 	"github.com/benedoc-inc/pdfer/core/parse"
 	"github.com/benedoc-inc/pdfer/forms/acroform"
 	"github.com/benedoc-inc/pdfer/forms/xfa"
@@ -97,10 +99,30 @@ func (w *XFAFormWrapper) Validate(data types.FormData) []error {
 }
 
 func (w *XFAFormWrapper) GetValues() map[string]interface{} {
+	values := make(map[string]interface{})
 	if w.datasets != nil {
-		return w.datasets.Fields
+		addXFAValues(values, "", w.datasets.Fields, w.datasets.Groups)
+	}
+	return values
+}
+
+// addXFAValues adds the values of fields and of those in groups, whose names are qualified:
+// "group.field", or "group[1].field" in the second group of that name
+func addXFAValues(values map[string]interface{}, prefix string, fields map[string]interface{}, groups []types.XFAFieldGroup) {
+	for name, value := range fields {
+		if _, exists := values[prefix+name]; !exists {
+			values[prefix+name] = value
+		}
+	}
+	seen := make(map[string]int)
+	for _, group := range groups {
+		name := group.Name
+		if n := seen[name]; n > 0 {
+			name = fmt.Sprintf("%s[%d]", name, n)
+		}
+		seen[group.Name]++
+		addXFAValues(values, prefix+name+".", group.Fields, group.Groups)
 	}
-	return make(map[string]interface{})
 }
 
 // encryption returns the encryption of a PDF that password opens, or nil if it has none
-- 
2.43.0


From 114262d72aed3d889b92afba6612f3f140f8ba8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:47 +0000
Subject: [PATCH 92/99] fix: destinations in indirect objects are read

---
 content/extract/bookmarks.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/content/extract/bookmarks.go b/content/extract/bookmarks.go
index ad96214..827fdfa 100644
--- a/content/extract/bookmarks.go
+++ b/content/extract/bookmarks.go
@@ -69,7 +69,7 @@ func extractBookmarksRecursive(pdf *parse.PDF, itemRef string, pageNumbers map[i
 			Title: parse.TextString(resolveValue(extractDictValue(itemStr, "/Title"), pdf)),
 		}
 		bookmark.Destination, bookmark.URI = extractTarget(itemStr, pdf)
-		if refs := parseObjectRefArray(resolveValue(bookmark.Destination, pdf)); len(refs) > 0 {
+		if refs := parseObjectRefArray(bookmark.Destination); len(refs) > 0 {
 			if objNum, err := parseObjectRef(refs[0]); err == nil {
 				bookmark.PageNumber = pageNumbers[objNum]
 			}
@@ -87,7 +87,7 @@ func extractBookmarksRecursive(pdf *parse.PDF, itemRef string, pageNumbers map[i
 }
 
 // extractTarget returns where an outline item or a link leads: its destination, as it is
-// written there, and its URI
+// written there or in the object it is a reference to, and its URI
 func extractTarget(dictStr string, pdf *parse.PDF) (dest, uri string) {
 	dest = extractDictValue(dictStr, "/Dest")
 	if action := extractDict(dictStr, "/A", pdf); action != "" {
@@ -96,5 +96,5 @@ func extractTarget(dictStr string, pdf *parse.PDF) (dest, uri string) {
 			dest = extractDictValue(action, "/D")
 		}
 	}
-	return dest, uri
+	return resolveValue(dest, pdf), uri
 }
-- 
2.43.0


From eaade942d1d9f3584d7d12c76c2d9556fcb79534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:47 +0000
Subject: [PATCH 93/99] fix: outlines that differ in spelling only compare as
 equal

---
 core/compare/compare.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/core/compare/compare.go b/core/compare/compare.go
index ff8d4cd..f0f3f4d 100644
--- a/core/compare/compare.go
+++ b/core/compare/compare.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"reflect"
 	"sort"
+	"strconv"
 	"strings"
 
 	"github.com/benedoc-inc/pdfer/content/extract"
@@ -862,14 +863,25 @@ func compareBookmarks(b1, b2 []types.Bookmark) *Difference {
 
 // bookmarkTree returns bookmarks as they are compared: a destination names its page by the number
 // of an object, which another file may give to something else, so that what counts is the number
-// of the page and what else the destination says
+// of the page and what else the destination says, however its numbers, names and strings are spelled
 func bookmarkTree(bookmarks []types.Bookmark) []types.Bookmark {
 	var tree []types.Bookmark
 	for _, b := range bookmarks {
+		destination := []byte(b.Destination)
 		if b.PageNumber != 0 {
-			view := parse.MapReferences([]byte(b.Destination), func(num, gen int) string { return "" })
-			b.Destination = strings.Join(parse.Tokens(view), " ")
+			destination = parse.MapReferences(destination, func(num, gen int) string { return "" })
 		}
+		tokens := parse.Tokens(destination)
+		for i, token := range tokens {
+			if number, err := strconv.ParseFloat(token, 64); err == nil {
+				tokens[i] = strconv.FormatFloat(number, 'f', -1, 64)
+			} else if strings.HasPrefix(token, "/") {
+				tokens[i] = parse.UnescapeName(token)
+			} else if strings.HasPrefix(token, "(") || strings.HasPrefix(token, "<") && token != "<<" {
+				tokens[i] = "(" + parse.StringBytes(token) + ")"
+			}
+		}
+		b.Destination = strings.Join(tokens, " ")
 		b.Children = bookmarkTree(b.Children)
 		tree = append(tree, b)
 	}
-- 
2.43.0


From 3b57259dcae94fe5de4c1b8b8c61547d9e749ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:36 +0000
Subject: [PATCH 94/99] fix: replaced objects refer to objects of the rebuilt
 document

The generations in the new content of an object were kept, while all objects
are written with generation 0.
---
 core/manipulate/manipulate.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/manipulate/manipulate.go b/core/manipulate/manipulate.go
index 0fc7ab6..6a2d528 100644
--- a/core/manipulate/manipulate.go
+++ b/core/manipulate/manipulate.go
@@ -78,9 +78,10 @@ func (m *PDFManipulator) Object(objNum int) (content []byte, ok bool) {
 	return content, ok
 }
 
-// SetObject sets the content of an object
+// SetObject sets the content of an object. Its references may have the generations of the
+// document.
 func (m *PDFManipulator) SetObject(objNum int, content []byte) {
-	m.objects[objNum] = content
+	m.objects[objNum] = objectContent(content)
 }
 
 // Rebuild rebuilds the PDF with modified objects and returns the new PDF bytes
-- 
2.43.0


From a9377e0651ccb3cb287f91a139e9ab1f8ac61050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:07 +0000
Subject: [PATCH 95/99] fix: form validation accepts no value and judges
 numbers as they are written

---
 forms/acroform/validation.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/forms/acroform/validation.go b/forms/acroform/validation.go
index c9897be..2d5dc4f 100644
--- a/forms/acroform/validation.go
+++ b/forms/acroform/validation.go
@@ -39,6 +39,11 @@ func ValidateField(field *Field, value interface{}) error {
 		}
 	}
 
+	// No value breaks no rule about values
+	if value == nil {
+		return nil
+	}
+
 	// Check read-only
 	if (field.Ff & 0x1) != 0 { // ReadOnly flag
 		// Read-only fields can't be changed, but we'll allow it for now
@@ -62,10 +67,7 @@ func ValidateField(field *Field, value interface{}) error {
 
 // validateTextField validates a text field
 func validateTextField(field *Field, value interface{}) error {
-	valueStr, ok := value.(string)
-	if !ok {
-		valueStr = fmt.Sprintf("%v", value)
-	}
+	valueStr := formatFieldValue(value, field.FT)
 
 	// Check max length
 	if field.MaxLen > 0 && utf8.RuneCountInString(valueStr) > field.MaxLen {
@@ -133,7 +135,7 @@ func validateChoiceField(field *Field, value interface{}) error {
 
 	// Check if the values are in options
 	for _, item := range values {
-		valueStr := fmt.Sprintf("%v", item)
+		valueStr := formatFieldValue(item, field.FT)
 		found := false
 		for _, opt := range field.Opt {
 			optStr, _ := optionText(opt)
@@ -219,7 +221,7 @@ func ValidateFormData(acroForm *AcroForm, formData types.FormData) []error {
 
 // ValidateFieldValue validates a field value using FormSchema validation rules
 func ValidateFieldValue(question *types.Question, value interface{}) error {
-	if question.Validation == nil {
+	if question.Validation == nil || value == nil {
 		return nil
 	}
 
-- 
2.43.0


From 8664ad4e5df08c970ebb82e6da8c9dedf18c418c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:05 +0000
Subject: [PATCH 96/99] fix: a fax or JPEG 2000 image in other filters has its
 own format

---
 content/extract/images.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/content/extract/images.go b/content/extract/images.go
index d878a42..a28766f 100644
--- a/content/extract/images.go
+++ b/content/extract/images.go
@@ -58,12 +58,12 @@ func extractImageData(imageObjNum int, pdf *parse.PDF, verbose bool) (*types.Ima
 		// Determine format from filter
 		if filter == "/DCTDecode" || strings.Contains(filter, "DCTDecode") {
 			image.Format = "jpeg"
-		} else if filter == "/FlateDecode" || strings.Contains(filter, "FlateDecode") {
-			image.Format = "png" // Could be PNG or other FlateDecode image
 		} else if filter == "/CCITTFaxDecode" || strings.Contains(filter, "CCITTFaxDecode") {
 			image.Format = "tiff"
 		} else if filter == "/JPXDecode" || strings.Contains(filter, "JPXDecode") {
 			image.Format = "jpeg2000"
+		} else if filter == "/FlateDecode" || strings.Contains(filter, "FlateDecode") {
+			image.Format = "png" // Could be PNG or other FlateDecode image
 		} else {
 			image.Format = "unknown"
 		}
-- 
2.43.0


From 7207c41f3f616700a1277dd7e9d07a7a43d1198b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:55:18 +0000
Subject: [PATCH 97/99] fix: words such as Nan and Infinity in XFA forms are
 text

---
 forms/xfa/xfa_datasets_translator.go   |  2 +-
 forms/xfa/xfa_form_translator.go       | 16 ++++++++++++-
 forms/xfa/xfa_stylesheet_translator.go | 32 +++++++++++++-------------
 3 files changed, 32 insertions(+), 18 deletions(-)

diff --git a/forms/xfa/xfa_datasets_translator.go b/forms/xfa/xfa_datasets_translator.go
index 7797da3..1a1a419 100644
--- a/forms/xfa/xfa_datasets_translator.go
+++ b/forms/xfa/xfa_datasets_translator.go
@@ -178,7 +178,7 @@ func parseFieldValue(value string) interface{} {
 	}
 
 	// Try float
-	if floatVal, err := strconv.ParseFloat(value, 64); err == nil {
+	if floatVal, err := parseNumber(value); err == nil {
 		return floatVal
 	}
 
diff --git a/forms/xfa/xfa_form_translator.go b/forms/xfa/xfa_form_translator.go
index c88fee5..240e060 100644
--- a/forms/xfa/xfa_form_translator.go
+++ b/forms/xfa/xfa_form_translator.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"io"
 	"log"
+	"math"
 	"strconv"
 	"strings"
 
@@ -895,7 +896,20 @@ func parseBool(s string) bool {
 }
 
 func parseFloat(s string) (float64, error) {
-	return strconv.ParseFloat(strings.TrimSpace(s), 64)
+	return parseNumber(strings.TrimSpace(s))
+}
+
+// parseNumber parses a number. Words for values that are not finite ("Nan",
+// "Infinity") are text: they occur as such, and JSON has no numbers for them.
+func parseNumber(s string) (float64, error) {
+	val, err := strconv.ParseFloat(s, 64)
+	if err == nil && (math.IsNaN(val) || math.IsInf(val, 0)) {
+		err = strconv.ErrSyntax
+	}
+	if err != nil {
+		return 0, err
+	}
+	return val, nil
 }
 
 func sanitizeFieldIDWithIndex(name string, index int) string {
diff --git a/forms/xfa/xfa_stylesheet_translator.go b/forms/xfa/xfa_stylesheet_translator.go
index 955f599..999fe39 100644
--- a/forms/xfa/xfa_stylesheet_translator.go
+++ b/forms/xfa/xfa_stylesheet_translator.go
@@ -155,7 +155,7 @@ func parseFontAttributes(se xml.StartElement, style *types.XFAStyle) {
 		case "family":
 			font.Family = attr.Value
 		case "size":
-			if val, err := strconv.ParseFloat(attr.Value, 64); err == nil {
+			if val, err := parseNumber(attr.Value); err == nil {
 				font.Size = val
 			}
 		case "weight":
@@ -176,7 +176,7 @@ func parseBorderAttributes(se xml.StartElement, style *types.XFAStyle) {
 	for _, attr := range se.Attr {
 		switch attr.Name.Local {
 		case "width":
-			if val, err := strconv.ParseFloat(attr.Value, 64); err == nil {
+			if val, err := parseNumber(attr.Value); err == nil {
 				border.Width = val
 			}
 		case "style":
@@ -184,7 +184,7 @@ func parseBorderAttributes(se xml.StartElement, style *types.XFAStyle) {
 		case "color":
 			border.Color = attr.Value
 		case "radius":
-			if val, err := strconv.ParseFloat(attr.Value, 64); err == nil {
+			if val, err := parseNumber(attr.Value); err == nil {
 				border.Radius = val
 			}
 		}
@@ -196,19 +196,19 @@ func parseMarginAttributes(se xml.StartElement, margin *types.XFAMargin) {
 	for _, attr := range se.Attr {
 		switch attr.Name.Local {
 		case "top":
-			if val, err := strconv.ParseFloat(attr.Value, 64); err == nil {
+			if val, err := parseNumber(attr.Value); err == nil {
 				margin.Top = val
 			}
 		case "right":
-			if val, err := strconv.ParseFloat(attr.Value, 64); err == nil {
+			if val, err := parseNumber(attr.Value); err == nil {
 				margin.Right = val
 			}
 		case "bottom":
-			if val, err := strconv.ParseFloat(attr.Value, 64); err == nil {
+			if val, err := parseNumber(attr.Value); err == nil {
 				margin.Bottom = val
 			}
 		case "left":
-			if val, err := strconv.ParseFloat(attr.Value, 64); err == nil {
+			if val, err := parseNumber(attr.Value); err == nil {
 				margin.Left = val
 			}
 		}
@@ -219,19 +219,19 @@ func parsePaddingAttributes(se xml.StartElement, padding *types.XFAPadding) {
 	for _, attr := range se.Attr {
 		switch attr.Name.Local {
 		case "top":
-			if val, err := strconv.ParseFloat(attr.Value, 64); err == nil {
+			if val, err := parseNumber(attr.Value); err == nil {
 				padding.Top = val
 			}
 		case "right":
-			if val, err := strconv.ParseFloat(attr.Value, 64); err == nil {
+			if val, err := parseNumber(attr.Value); err == nil {
 				padding.Right = val
 			}
 		case "bottom":
-			if val, err := strconv.ParseFloat(attr.Value, 64); err == nil {
+			if val, err := parseNumber(attr.Value); err == nil {
 				padding.Bottom = val
 			}
 		case "left":
-			if val, err := strconv.ParseFloat(attr.Value, 64); err == nil {
+			if val, err := parseNumber(attr.Value); err == nil {
 				padding.Left = val
 			}
 		}
@@ -242,11 +242,11 @@ func parsePositionAttributes(se xml.StartElement, position *types.XFAPosition) {
 	for _, attr := range se.Attr {
 		switch attr.Name.Local {
 		case "x":
-			if val, err := strconv.ParseFloat(attr.Value, 64); err == nil {
+			if val, err := parseNumber(attr.Value); err == nil {
 				position.X = val
 			}
 		case "y":
-			if val, err := strconv.ParseFloat(attr.Value, 64); err == nil {
+			if val, err := parseNumber(attr.Value); err == nil {
 				position.Y = val
 			}
 		}
@@ -257,11 +257,11 @@ func parseSizeAttributes(se xml.StartElement, size *types.XFASize) {
 	for _, attr := range se.Attr {
 		switch attr.Name.Local {
 		case "width":
-			if val, err := strconv.ParseFloat(attr.Value, 64); err == nil {
+			if val, err := parseNumber(attr.Value); err == nil {
 				size.Width = val
 			}
 		case "height":
-			if val, err := strconv.ParseFloat(attr.Value, 64); err == nil {
+			if val, err := parseNumber(attr.Value); err == nil {
 				size.Height = val
 			}
 		}
@@ -270,7 +270,7 @@ func parseSizeAttributes(se xml.StartElement, size *types.XFASize) {
 
 func parseStyleValue(value string) interface{} {
 	// Try to parse as number
-	if floatVal, err := strconv.ParseFloat(value, 64); err == nil {
+	if floatVal, err := parseNumber(value); err == nil {
 		return floatVal
 	}
 	// Try boolean
-- 
2.43.0


From d31962404d117685582042f43195add6bd9fcbc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:59:06 +0000
Subject: [PATCH 98/99] fix: streams whose crypt filter is Identity are not
 encrypted

---
 core/encrypt/strings.go  | 36 +++++++++++++++++++++++++++++++-----
 core/parse/get_object.go |  2 +-
 core/write/writer.go     |  4 ++--
 3 files changed, 34 insertions(+), 8 deletions(-)

diff --git a/core/encrypt/strings.go b/core/encrypt/strings.go
index 42d3c29..e19cd26 100644
--- a/core/encrypt/strings.go
+++ b/core/encrypt/strings.go
@@ -64,14 +64,40 @@ func DecryptStrings(content []byte, objNum, genNum int, encrypt *types.PDFEncryp
 	})
 }
 
-// IsClearMetadata reports whether dict is the dictionary of a metadata stream that
-// is left unencrypted (/EncryptMetadata false).
-func IsClearMetadata(dict []byte, encrypt *types.PDFEncryption) bool {
-	if encrypt == nil || encrypt.V < 4 || encrypt.EncryptMetadata {
+// IsClearStream reports whether dict is the dictionary of a stream that is left
+// unencrypted: metadata (/EncryptMetadata false), or a stream whose own crypt filter is
+// Identity.
+func IsClearStream(dict []byte, encrypt *types.PDFEncryption) bool {
+	if encrypt == nil || encrypt.V < 4 {
 		return false
 	}
 	entries, _, err := dictEntries(dict, 0)
-	return err == nil && string(entries["Type"]) == "/Metadata"
+	if err != nil {
+		return false
+	}
+	if !encrypt.EncryptMetadata && string(entries["Type"]) == "/Metadata" {
+		return true
+	}
+
+	// The crypt filter of a stream is the first of its filters
+	filter := firstItem(entries["Filter"])
+	if !bytes.HasPrefix(filter, []byte("/Crypt")) || len(filter) > 6 && !isSpace(filter[6]) && !bytes.ContainsAny(filter[6:7], "()<>[]{}/%") {
+		return false
+	}
+	parms := firstItem(entries["DecodeParms"])
+	if bytes.HasPrefix(parms, []byte("<<")) {
+		parmEntries, _, err := dictEntries(parms, 0)
+		return err == nil && (parmEntries["Name"] == nil || string(parmEntries["Name"]) == "/Identity")
+	}
+	return len(parms) == 0 || parms[0] == ']' || bytes.HasPrefix(parms, []byte("null"))
+}
+
+// firstItem returns what follows the start of an array, or the value itself if it is none.
+func firstItem(value []byte) []byte {
+	if bytes.HasPrefix(value, []byte("[")) {
+		return value[skipSpace(value, 1):]
+	}
+	return value
 }
 
 // literalString decodes the literal string at pos and returns its end, or -1.
diff --git a/core/parse/get_object.go b/core/parse/get_object.go
index 1b0c7fa..c22180c 100644
--- a/core/parse/get_object.go
+++ b/core/parse/get_object.go
@@ -164,7 +164,7 @@ func GetDirectObject(pdfBytes []byte, objNum int, offset int64, encryptInfo *typ
 				log.Printf("Decrypting stream: %d bytes, objNum=%d, genNum=%d", len(streamData), objNum, genNum)
 			}
 			decryptedStream, err := streamData, error(nil)
-			if !encrypt.IsClearMetadata(dictPart, encryptInfo) {
+			if !encrypt.IsClearStream(dictPart, encryptInfo) {
 				decryptedStream, err = encrypt.DecryptObject(streamData, objNum, genNum, encryptInfo)
 			}
 			if err == nil {
diff --git a/core/write/writer.go b/core/write/writer.go
index e85ba7a..5bf8530 100644
--- a/core/write/writer.go
+++ b/core/write/writer.go
@@ -294,7 +294,7 @@ func (w *PDFWriter) Write(out io.Writer) error {
 
 			// Encrypt stream if needed
 			streamData := obj.Stream
-			if w.encryptInfo != nil && !encrypt.IsClearMetadata(w.formatDictionary(dict), w.encryptInfo) {
+			if w.encryptInfo != nil && !encrypt.IsClearStream(w.formatDictionary(dict), w.encryptInfo) {
 				encrypted, err := w.encryptStream(streamData, objNum, obj.Generation)
 				if err != nil {
 					// never fall back to writing the data in the clear
@@ -497,7 +497,7 @@ func (w *PDFWriter) encryptContent(content []byte, objNum, genNum int) ([]byte,
 		return w.encryptStrings(content, objNum, genNum)
 	}
 	encrypted := data
-	if !encrypt.IsClearMetadata(dict, w.encryptInfo) {
+	if !encrypt.IsClearStream(dict, w.encryptInfo) {
 		var err error
 		encrypted, err = w.encryptStream(data, objNum, genNum)
 		if err != nil {
-- 
2.43.0


From 1c7ceba13a87a9d45a07f1d0eacb39c43978bae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:05:10 +0000
Subject: [PATCH 99/99] fix: names that are escaped in some places only lead to
 their fonts and images

---
 content/extract/content_stream.go | 4 ++--
 content/extract/dict_helpers.go   | 4 ++--
 content/extract/metadata.go       | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/content/extract/content_stream.go b/content/extract/content_stream.go
index 1cc4cd2..3352f40 100644
--- a/content/extract/content_stream.go
+++ b/content/extract/content_stream.go
@@ -84,7 +84,7 @@ func parseContentStreamWithDecoders(contentStr string, pdf *parse.PDF, pageNum i
 		case "Tf":
 			if size, ok := numberOperands(operands, 1); ok && len(operands) > 1 {
 				textState.fontSize = size[0]
-				textState.fontName = operands[len(operands)-2]
+				textState.fontName = parse.UnescapeName(operands[len(operands)-2])
 				// Set font decoder if available
 				if fontDecoders != nil {
 					textState.decoder = fontDecoders[textState.fontName]
@@ -200,7 +200,7 @@ func parseContentStreamWithDecoders(contentStr string, pdf *parse.PDF, pageNum i
 			// For DrawImageAt pattern: [width 0 0 height x y]
 			matrix := graphicsState.matrix
 			imageRefs = append(imageRefs, types.ImageRef{
-				ImageID:   operands[len(operands)-1],
+				ImageID:   parse.UnescapeName(operands[len(operands)-1]),
 				X:         matrix[4],
 				Y:         matrix[5],
 				Width:     math.Abs(matrix[0]), // Handle negative scales (flipped images)
diff --git a/content/extract/dict_helpers.go b/content/extract/dict_helpers.go
index 31f1103..fb232af 100644
--- a/content/extract/dict_helpers.go
+++ b/content/extract/dict_helpers.go
@@ -9,7 +9,7 @@ import (
 
 // dictEntry is an entry of a dictionary, with the value as it is written there
 type dictEntry struct {
-	key   string // without the slash
+	key   string // without the slash and escapes
 	value string
 }
 
@@ -32,7 +32,7 @@ func dictEntries(dictStr string) []dictEntry {
 		pos = next
 		if depth == 1 && (token == ">>" || token[0] == '/' && (key == "" || start != -1)) {
 			if start != -1 && key != "" {
-				entries = append(entries, dictEntry{key[1:], string(content[start:end])})
+				entries = append(entries, dictEntry{parse.UnescapeName(key[1:]), string(content[start:end])})
 			}
 			if token == ">>" {
 				return entries
diff --git a/content/extract/metadata.go b/content/extract/metadata.go
index 435c79d..61d13f0 100644
--- a/content/extract/metadata.go
+++ b/content/extract/metadata.go
@@ -87,7 +87,7 @@ func parseInfoDict(infoStr string, pdf *parse.PDF, metadata *types.DocumentMetad
 		if field, ok := fields[entry.key]; ok {
 			*field = parse.TextString(value)
 		} else {
-			metadata.Custom[parse.UnescapeName(entry.key)] = parse.TextString(value)
+			metadata.Custom[entry.key] = parse.TextString(value)
 		}
 	}
 }
-- 
2.43.0

