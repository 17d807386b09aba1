From 35a997f07ef1a94f41ebc62631b0cb8d8804cc06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:25 +0000
Subject: [PATCH 01/42] fix: report errors of finishing the archive in WriteTo

The deferred zipWriter.Close() dropped its error, so a full disk at the end
of the save went unnoticed, and after a failed pack it still wrote the central
directory, turning a partial save into a package that opens.
---
 docx.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/docx.go b/docx.go
index c7753f4..29fc5ad 100644
--- a/docx.go
+++ b/docx.go
@@ -151,9 +151,14 @@ func LoadBodyItems(items []interface{}, media []Media) *Docx {
 // WriteTo allows to save a docx to a writer
 func (f *Docx) WriteTo(writer io.Writer) (_ int64, err error) {
 	zipWriter := zip.NewWriter(writer)
-	defer zipWriter.Close()
 
-	return 0, f.pack(zipWriter)
+	err = f.pack(zipWriter)
+	if err != nil {
+		// do not finish the archive: it must not look like a complete one
+		return 0, err
+	}
+	// the last parts and the central directory are written on closing
+	return 0, zipWriter.Close()
 }
 
 // Read is a fake function and cannot be used
-- 
2.43.0


From 421dfaba6d8aa29baf715028cc9b97be1e6151f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:26 +0000
Subject: [PATCH 02/42] fix: WriteTo returns the number of bytes written

io.WriterTo requires it, and io.Copy passes it on; it was always 0.
---
 docx.go | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/docx.go b/docx.go
index 29fc5ad..c6a0bf5 100644
--- a/docx.go
+++ b/docx.go
@@ -149,16 +149,31 @@ func LoadBodyItems(items []interface{}, media []Media) *Docx {
 }
 
 // WriteTo allows to save a docx to a writer
-func (f *Docx) WriteTo(writer io.Writer) (_ int64, err error) {
-	zipWriter := zip.NewWriter(writer)
+func (f *Docx) WriteTo(writer io.Writer) (n int64, err error) {
+	cw := &countWriter{w: writer}
+	zipWriter := zip.NewWriter(cw)
 
 	err = f.pack(zipWriter)
 	if err != nil {
 		// do not finish the archive: it must not look like a complete one
-		return 0, err
+		return cw.n, err
 	}
 	// the last parts and the central directory are written on closing
-	return 0, zipWriter.Close()
+	err = zipWriter.Close()
+	return cw.n, err
+}
+
+// countWriter counts the bytes that w accepted
+type countWriter struct {
+	w io.Writer
+	n int64
+}
+
+// Write ...
+func (c *countWriter) Write(p []byte) (n int, err error) {
+	n, err = c.w.Write(p)
+	c.n += int64(n)
+	return
 }
 
 // Read is a fake function and cannot be used
-- 
2.43.0


From 7c8921a7c0b61e3df1f19d8d856bd76e12b046cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:41 +0000
Subject: [PATCH 03/42] fix: close the template files opened by a save

Every save leaked one handle per template file, whether it succeeded or not.
---
 pack.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/pack.go b/pack.go
index b864691..0fab787 100644
--- a/pack.go
+++ b/pack.go
@@ -25,6 +25,7 @@ import (
 	"bytes"
 	"encoding/xml"
 	"io"
+	"io/fs"
 	"os"
 )
 
@@ -33,20 +34,31 @@ import (
 // others from the actual in-memory structure
 func (f *Docx) pack(zipWriter *zip.Writer) (err error) {
 	files := make(map[string]io.Reader, 64)
+	opened := make([]fs.File, 0, len(f.tmpfslst))
+
+	defer func() {
+		for _, tf := range opened {
+			_ = tf.Close()
+		}
+	}()
 
 	if f.template != "" {
 		for _, name := range f.tmpfslst {
-			files[name], err = f.tmplfs.Open("xml/" + f.template + "/" + name)
+			tf, err := f.tmplfs.Open("xml/" + f.template + "/" + name)
 			if err != nil {
-				return
+				return err
 			}
+			opened = append(opened, tf)
+			files[name] = tf
 		}
 	} else {
 		for _, name := range f.tmpfslst {
-			files[name], err = f.tmplfs.Open(name)
+			tf, err := f.tmplfs.Open(name)
 			if err != nil {
-				return
+				return err
 			}
+			opened = append(opened, tf)
+			files[name] = tf
 		}
 	}
 
-- 
2.43.0


From cef4a519673a3e485f7ba22e374b6a384b2b66b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:31 +0000
Subject: [PATCH 04/42] fix: do not reuse the part name of an existing image

After opening a saved file or LoadBodyItems the image counter restarts, so a
picture added then could take the name of an existing one: both showed the
same bytes and the package had the other picture's bytes only.
---
 image.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/image.go b/image.go
index 93183c2..a7ed02c 100644
--- a/image.go
+++ b/image.go
@@ -28,6 +28,10 @@ import (
 // addImage add image to docx and return its rId
 func (f *Docx) addImage(format string, data []byte) string {
 	m := Media{Name: "image" + strconv.Itoa(int(atomic.AddUintptr(&f.imageID, 1))) + "." + format, Data: data}
+	// names may be taken by media of the opened file or given by the user
+	for f.Media(m.Name) != nil {
+		m.Name = "image" + strconv.Itoa(int(atomic.AddUintptr(&f.imageID, 1))) + "." + format
+	}
 	f.addMedia(m)
 	return f.addImageRelation(m)
 }
-- 
2.43.0


From 6cdd3e353c4b4403d4271147e9717a6325f1a48d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:31 +0000
Subject: [PATCH 05/42] fix: do not hand out the drawing id of an existing
 drawing

The counter restarted at 100000 each time a file was opened, so drawings
added in the second generation got the ids of those added in the first.
---
 id.go            | 7 +++++++
 structdrawing.go | 2 ++
 2 files changed, 9 insertions(+)

diff --git a/id.go b/id.go
index 31b6157..2c8be9c 100644
--- a/id.go
+++ b/id.go
@@ -20,6 +20,13 @@
 
 package docx
 
+// useDocID makes sure that id is not handed out to a new drawing
+func (f *Docx) useDocID(id int) {
+	if f != nil && id > 0 && f.docID < uintptr(id) {
+		f.docID = uintptr(id)
+	}
+}
+
 // IncreaseID by name
 func (f *Docx) IncreaseID(name string) (n uintptr) {
 	f.slowIDsMu.Lock()
diff --git a/structdrawing.go b/structdrawing.go
index 78e348e..9fdf1d7 100644
--- a/structdrawing.go
+++ b/structdrawing.go
@@ -198,6 +198,7 @@ func (r *WPInline) UnmarshalXML(d *xml.Decoder, start xml.StartElement) (err err
 				if err != nil && !strings.HasPrefix(err.Error(), "expected") {
 					return err
 				}
+				r.file.useDocID(r.DocPr.ID)
 			case "cNvGraphicFramePr":
 				var value WPCNvGraphicFramePr
 				err = d.DecodeElement(&value, &tt)
@@ -1288,6 +1289,7 @@ func (r *WPAnchor) UnmarshalXML(d *xml.Decoder, start xml.StartElement) (err err
 				if err != nil && !strings.HasPrefix(err.Error(), "expected") {
 					return err
 				}
+				r.file.useDocID(r.DocPr.ID)
 			case "cNvGraphicFramePr":
 				r.CNvGraphicFramePr = new(WPCNvGraphicFramePr)
 				err = d.DecodeElement(r.CNvGraphicFramePr, &tt)
-- 
2.43.0


From 0bf66d2d5b56e90d89ab604511272b1a49a33c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:31 +0000
Subject: [PATCH 06/42] fix: let pictures added through the API know their
 document

String, AppendFile and SplitByParagraph dereferenced a nil document for them.
---
 apidrawing.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/apidrawing.go b/apidrawing.go
index e2e7c61..220c716 100644
--- a/apidrawing.go
+++ b/apidrawing.go
@@ -49,6 +49,8 @@ func (p *Paragraph) AddInlineDrawing(pic []byte) (*Run, error) {
 	}
 	d := &Drawing{
 		Inline: &WPInline{
+			file: p.file,
+
 			// AnchorID: fmt.Sprintf("%08X", rand.Uint32()),
 			// EditID:   fmt.Sprintf("%08X", rand.Uint32()),
 
@@ -152,6 +154,8 @@ func (p *Paragraph) AddAnchorDrawing(pic []byte) (*Run, error) {
 	}
 	d := &Drawing{
 		Anchor: &WPAnchor{
+			file: p.file,
+
 			LayoutInCell: 1,
 			AllowOverlap: 1,
 
-- 
2.43.0


From 8f7f91795c850e506770b1265b7835773f74ecc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:31 +0000
Subject: [PATCH 07/42] fix: let pictures inside of hyperlinks know their
 document

Appending or splitting an opened file with a linked picture panicked.
---
 structpara.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/structpara.go b/structpara.go
index 8b5d31e..bb9546b 100644
--- a/structpara.go
+++ b/structpara.go
@@ -256,6 +256,7 @@ func (p *Paragraph) UnmarshalXML(d *xml.Decoder, _ xml.StartElement) error {
 			switch tt.Name.Local {
 			case "hyperlink":
 				var value Hyperlink
+				value.Run.file = p.file
 				err = d.DecodeElement(&value, &tt)
 				if err != nil && !strings.HasPrefix(err.Error(), "expected") {
 					return err
-- 
2.43.0


From 4565a668b662b10447fa0c304fe50fe1ed6d507e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:32 +0000
Subject: [PATCH 08/42] fix: verify the checksums of the document and its
 relationships

The zip reader compares the checksum when a part is read to its end, which the
xml decoder does not do, so damaged text was accepted as it was.
---
 unpack.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/unpack.go b/unpack.go
index 8b7f8a9..91b367f 100644
--- a/unpack.go
+++ b/unpack.go
@@ -98,6 +98,10 @@ func (f *Docx) parseDocument(file *zip.File) error {
 	//TODO: find last docID
 	f.docID = 100000
 	err = xml.NewDecoder(zf).Decode(&f.Document)
+	if err != nil {
+		return err
+	}
+	_, err = io.Copy(io.Discard, zf) // the checksum is verified at the end of file
 	return err
 }
 
@@ -114,6 +118,10 @@ func (f *Docx) parseDocRelation(file *zip.File) error {
 	if err != nil {
 		return err
 	}
+	_, err = io.Copy(io.Discard, zf) // the checksum is verified at the end of file
+	if err != nil {
+		return err
+	}
 	for _, r := range f.docRelation.Relationship {
 		if !strings.HasPrefix(r.ID, "rId") {
 			return errors.New("invalid rel ID: " + r.ID)
-- 
2.43.0


From 9f1da4ed9ff8098bef11922693e863a7d97cb1a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:32 +0000
Subject: [PATCH 09/42] fix: ignore folder entries when opening a file

They were listed as template files, so every later save of it failed.
---
 unpack.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/unpack.go b/unpack.go
index 91b367f..64791ee 100644
--- a/unpack.go
+++ b/unpack.go
@@ -44,6 +44,9 @@ func unpack(zipReader *zip.Reader) (docx *Docx, err error) {
 	docx.tmplfs = zipReader
 	docx.tmpfslst = make([]string, 0, 64)
 	for _, f := range zipReader.File {
+		if strings.HasSuffix(f.Name, "/") {
+			continue // folder
+		}
 		if f.Name == "word/_rels/document.xml.rels" {
 			err = docx.parseDocRelation(f)
 			if err != nil {
-- 
2.43.0


From e8fb1027868e43ec68a0b420fd9b4fbb85516fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:45 +0000
Subject: [PATCH 10/42] fix: print drawings with missing parts instead of
 panicking

A drawing without graphic, a picture whose media is missing, or one whose
relationship target is not below media/ crashed String().
---
 media.go         |  7 +++++++
 structdrawing.go | 15 +++++++++++----
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/media.go b/media.go
index 01acb24..9bd0f92 100644
--- a/media.go
+++ b/media.go
@@ -20,6 +20,8 @@
 
 package docx
 
+import "strings"
+
 //nolint:revive,stylecheck
 const MEDIA_FOLDER = `word/media/`
 
@@ -34,6 +36,11 @@ func (m *Media) String() string {
 	return MEDIA_FOLDER + m.Name
 }
 
+// mediaOf get media struct pointer (or nil on notfound) by relationship target
+func (f *Docx) mediaOf(target string) *Media {
+	return f.Media(strings.TrimPrefix(strings.TrimPrefix(target, "/word/"), "media/"))
+}
+
 // Media get media struct pointer (or nil on notfound) by name
 func (f *Docx) Media(name string) *Media {
 	i, ok := f.mediaNameIdx[name]
diff --git a/structdrawing.go b/structdrawing.go
index 9fdf1d7..59d6d9b 100644
--- a/structdrawing.go
+++ b/structdrawing.go
@@ -229,6 +229,9 @@ func (r *WPInline) UnmarshalXML(d *xml.Decoder, start xml.StartElement) (err err
 // String ...
 func (r *WPInline) String() string {
 	sb := strings.Builder{}
+	if r.Graphic == nil || r.Graphic.GraphicData == nil {
+		return "![inln?](unknown)"
+	}
 	if r.Graphic.GraphicData.Pic != nil {
 		sb.WriteString("![inlnim ")
 		switch {
@@ -236,7 +239,7 @@ func (r *WPInline) String() string {
 			sb.WriteString(r.DocPr.Name)
 		case r.Graphic.GraphicData.Pic.NonVisualPicProperties != nil:
 			sb.WriteString(r.Graphic.GraphicData.Pic.NonVisualPicProperties.NonVisualDrawingProperties.Name)
-		default:
+		case r.Graphic.GraphicData.Pic.BlipFill != nil:
 			sb.WriteString(r.Graphic.GraphicData.Pic.BlipFill.Blip.Embed)
 		}
 		sb.WriteString("](")
@@ -244,8 +247,10 @@ func (r *WPInline) String() string {
 			tgt, err := r.file.ReferTarget(r.Graphic.GraphicData.Pic.BlipFill.Blip.Embed)
 			if err != nil {
 				sb.WriteString(err.Error())
+			} else if m := r.file.mediaOf(tgt); m == nil {
+				sb.WriteString(ErrRefTargetNotFound.Error())
 			} else {
-				h := md5.Sum(r.file.Media(tgt[6:]).Data)
+				h := md5.Sum(m.Data)
 				sb.WriteString(hex.EncodeToString(h[:]))
 			}
 		}
@@ -1326,7 +1331,7 @@ func (r *WPAnchor) String() string {
 				sb.WriteString(r.DocPr.Name)
 			case r.Graphic.GraphicData.Pic.NonVisualPicProperties != nil:
 				sb.WriteString(r.Graphic.GraphicData.Pic.NonVisualPicProperties.NonVisualDrawingProperties.Name)
-			default:
+			case r.Graphic.GraphicData.Pic.BlipFill != nil:
 				sb.WriteString(r.Graphic.GraphicData.Pic.BlipFill.Blip.Embed)
 			}
 			sb.WriteString("](")
@@ -1334,8 +1339,10 @@ func (r *WPAnchor) String() string {
 				tgt, err := r.file.ReferTarget(r.Graphic.GraphicData.Pic.BlipFill.Blip.Embed)
 				if err != nil {
 					sb.WriteString(err.Error())
+				} else if m := r.file.mediaOf(tgt); m == nil {
+					sb.WriteString(ErrRefTargetNotFound.Error())
 				} else {
-					h := md5.Sum(r.file.Media(tgt[6:]).Data)
+					h := md5.Sum(m.Data)
 					sb.WriteString(hex.EncodeToString(h[:]))
 				}
 			}
-- 
2.43.0


From 993d93da3f65ed92d2387416afaea4f8a8186eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:45 +0000
Subject: [PATCH 11/42] fix: append and split drawings with missing parts
 instead of panicking

A drawing without graphic or non-visual properties, or a picture whose target
is not below media/, crashed AppendFile and SplitByParagraph.
---
 structdrawing.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/structdrawing.go b/structdrawing.go
index 59d6d9b..ebad114 100644
--- a/structdrawing.go
+++ b/structdrawing.go
@@ -290,6 +290,9 @@ func (r *WPInline) String() string {
 }
 
 func (r *WPInline) copymedia(to *Docx) *WPInline {
+	if r.Graphic == nil || r.Graphic.GraphicData == nil {
+		return nil
+	}
 	if r.Graphic.GraphicData.Pic != nil {
 		if r.Graphic.GraphicData.Pic.BlipFill != nil {
 			tgt, err := r.file.ReferTarget(r.Graphic.GraphicData.Pic.BlipFill.Blip.Embed)
@@ -300,7 +303,7 @@ func (r *WPInline) copymedia(to *Docx) *WPInline {
 			idn := int(atomic.AddUintptr(&to.docID, 1))
 			id := int(to.IncreaseID("图片"))
 			ids := strconv.Itoa(id)
-			m := r.file.Media(tgt[6:])
+			m := r.file.mediaOf(tgt)
 			if m == nil {
 				return nil
 			}
@@ -325,7 +328,9 @@ func (r *WPInline) copymedia(to *Docx) *WPInline {
 					ID:   id,
 					Name: "图片 " + ids,
 				},
-				CNvPicPr: r.Graphic.GraphicData.Pic.NonVisualPicProperties.CNvPicPr,
+			}
+			if nv := r.Graphic.GraphicData.Pic.NonVisualPicProperties; nv != nil {
+				pic.NonVisualPicProperties.CNvPicPr = nv.CNvPicPr
 			}
 			pic.BlipFill = &PICBlipFill{
 				Blip: ABlip{
@@ -1383,6 +1388,9 @@ func (r *WPAnchor) String() string {
 }
 
 func (r *WPAnchor) copymedia(to *Docx) *WPAnchor {
+	if r.Graphic == nil || r.Graphic.GraphicData == nil {
+		return nil
+	}
 	if r.Graphic.GraphicData.Pic != nil {
 		if r.Graphic.GraphicData.Pic.BlipFill != nil {
 			tgt, err := r.file.ReferTarget(r.Graphic.GraphicData.Pic.BlipFill.Blip.Embed)
@@ -1393,7 +1401,7 @@ func (r *WPAnchor) copymedia(to *Docx) *WPAnchor {
 			idn := int(atomic.AddUintptr(&to.docID, 1))
 			id := int(to.IncreaseID("图片"))
 			ids := strconv.Itoa(id)
-			m := r.file.Media(tgt[6:])
+			m := r.file.mediaOf(tgt)
 			if m == nil {
 				return nil
 			}
@@ -1418,7 +1426,9 @@ func (r *WPAnchor) copymedia(to *Docx) *WPAnchor {
 					ID:   id,
 					Name: "图片 " + ids,
 				},
-				CNvPicPr: r.Graphic.GraphicData.Pic.NonVisualPicProperties.CNvPicPr,
+			}
+			if nv := r.Graphic.GraphicData.Pic.NonVisualPicProperties; nv != nil {
+				pic.NonVisualPicProperties.CNvPicPr = nv.CNvPicPr
 			}
 			pic.BlipFill = &PICBlipFill{
 				Blip: ABlip{
-- 
2.43.0


From 8a8368c7da33bbeb83549f2e84a2cf679ad84eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:45 +0000
Subject: [PATCH 12/42] fix: keep the transparency of appended and split
 pictures

---
 structdrawing.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/structdrawing.go b/structdrawing.go
index ebad114..60a64cf 100644
--- a/structdrawing.go
+++ b/structdrawing.go
@@ -334,8 +334,9 @@ func (r *WPInline) copymedia(to *Docx) *WPInline {
 			}
 			pic.BlipFill = &PICBlipFill{
 				Blip: ABlip{
-					Embed:  rid,
-					Cstate: r.Graphic.GraphicData.Pic.BlipFill.Blip.Cstate,
+					Embed:       rid,
+					Cstate:      r.Graphic.GraphicData.Pic.BlipFill.Blip.Cstate,
+					AlphaModFix: r.Graphic.GraphicData.Pic.BlipFill.Blip.AlphaModFix,
 				},
 				Stretch: r.Graphic.GraphicData.Pic.BlipFill.Stretch,
 			}
@@ -1432,8 +1433,9 @@ func (r *WPAnchor) copymedia(to *Docx) *WPAnchor {
 			}
 			pic.BlipFill = &PICBlipFill{
 				Blip: ABlip{
-					Embed:  rid,
-					Cstate: r.Graphic.GraphicData.Pic.BlipFill.Blip.Cstate,
+					Embed:       rid,
+					Cstate:      r.Graphic.GraphicData.Pic.BlipFill.Blip.Cstate,
+					AlphaModFix: r.Graphic.GraphicData.Pic.BlipFill.Blip.AlphaModFix,
 				},
 				Stretch: r.Graphic.GraphicData.Pic.BlipFill.Stretch,
 			}
-- 
2.43.0


From a9cf460f7f9a087f1937ae3a7cea3b335c289377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:45 +0000
Subject: [PATCH 13/42] fix: give appended and split shapes a drawing id of
 their new document

They kept the id they had in the source, which drawings of the target, or
those added later, may have as well.
---
 structdrawing.go | 32 ++++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/structdrawing.go b/structdrawing.go
index 60a64cf..5cca325 100644
--- a/structdrawing.go
+++ b/structdrawing.go
@@ -345,14 +345,26 @@ func (r *WPInline) copymedia(to *Docx) *WPInline {
 		return nil
 	}
 	if r.Graphic.GraphicData.Shape != nil { // shape has no media
-		return r
+		return r.copyto(to)
 	}
 	if r.Graphic.GraphicData.Canvas != nil { //TODO: copy canvas media
-		return r
+		return r.copyto(to)
 	}
 	return nil
 }
 
+// copyto copies r with a drawing id of the new document
+func (r *WPInline) copyto(to *Docx) *WPInline {
+	inln := *r
+	inln.file = to
+	if r.DocPr != nil {
+		docpr := *r.DocPr
+		docpr.ID = int(atomic.AddUintptr(&to.docID, 1))
+		inln.DocPr = &docpr
+	}
+	return &inln
+}
+
 // WPExtent represents the extent of a drawing in a Word document.
 //
 //	CX CY 's unit is English Metric Units, which is 1/914400 inch
@@ -1444,14 +1456,26 @@ func (r *WPAnchor) copymedia(to *Docx) *WPAnchor {
 		return nil
 	}
 	if r.Graphic.GraphicData.Shape != nil { // shape has no media
-		return r
+		return r.copyto(to)
 	}
 	if r.Graphic.GraphicData.Canvas != nil { //TODO: copy canvas media
-		return r
+		return r.copyto(to)
 	}
 	return nil
 }
 
+// copyto copies r with a drawing id of the new document
+func (r *WPAnchor) copyto(to *Docx) *WPAnchor {
+	anch := *r
+	anch.file = to
+	if r.DocPr != nil {
+		docpr := *r.DocPr
+		docpr.ID = int(atomic.AddUintptr(&to.docID, 1))
+		anch.DocPr = &docpr
+	}
+	return &anch
+}
+
 // WPSimplePos represents the position of an object in a Word document.
 type WPSimplePos struct {
 	XMLName xml.Name `xml:"wp:simplePos,omitempty"`
-- 
2.43.0


From efce167b7dd156bb8f00b3b3235a662e24ddfcf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:45 +0000
Subject: [PATCH 14/42] fix: refuse images without width or height

A zero width was divided by after the image had been added to the document.
---
 apidrawing.go | 6 ++++++
 image.go      | 4 ++++
 2 files changed, 10 insertions(+)

diff --git a/apidrawing.go b/apidrawing.go
index 220c716..dd926b4 100644
--- a/apidrawing.go
+++ b/apidrawing.go
@@ -35,6 +35,9 @@ func (p *Paragraph) AddInlineDrawing(pic []byte) (*Run, error) {
 	if err != nil {
 		return nil, err
 	}
+	if sz.Width <= 0 || sz.Height <= 0 {
+		return nil, ErrInvalidImageSize
+	}
 	idn := int(atomic.AddUintptr(&p.file.docID, 1))
 	id := int(p.file.IncreaseID("图片"))
 	ids := strconv.Itoa(id)
@@ -140,6 +143,9 @@ func (p *Paragraph) AddAnchorDrawing(pic []byte) (*Run, error) {
 	if err != nil {
 		return nil, err
 	}
+	if sz.Width <= 0 || sz.Height <= 0 {
+		return nil, ErrInvalidImageSize
+	}
 	idn := int(atomic.AddUintptr(&p.file.docID, 1))
 	id := int(p.file.IncreaseID("图片"))
 	ids := strconv.Itoa(id)
diff --git a/image.go b/image.go
index a7ed02c..98e3dfb 100644
--- a/image.go
+++ b/image.go
@@ -21,10 +21,14 @@
 package docx
 
 import (
+	"errors"
 	"strconv"
 	"sync/atomic"
 )
 
+// ErrInvalidImageSize the image has no width or no height
+var ErrInvalidImageSize = errors.New("invalid image size")
+
 // addImage add image to docx and return its rId
 func (f *Docx) addImage(format string, data []byte) string {
 	m := Media{Name: "image" + strconv.Itoa(int(atomic.AddUintptr(&f.imageID, 1))) + "." + format, Data: data}
-- 
2.43.0


From 06994884c8a35e51f4e06aae72feba6a9d871729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:46 +0000
Subject: [PATCH 15/42] fix: keep the namespaces of drawings that a parent
 element declares

A file that declares xmlns:a or xmlns:pic on an outer element, leaves the
frame locks out, or has pictures in a group was saved with unbound prefixes.
---
 structdrawing.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/structdrawing.go b/structdrawing.go
index 5cca325..23f0da8 100644
--- a/structdrawing.go
+++ b/structdrawing.go
@@ -462,6 +462,7 @@ type WPCNvGraphicFramePr struct {
 
 // UnmarshalXML ...
 func (w *WPCNvGraphicFramePr) UnmarshalXML(d *xml.Decoder, _ xml.StartElement) error {
+	w.Locks.XMLA = XMLNS_DRAWINGML_MAIN // may be declared by a parent
 	for {
 		t, err := d.Token()
 		if err == io.EOF {
@@ -474,7 +475,9 @@ func (w *WPCNvGraphicFramePr) UnmarshalXML(d *xml.Decoder, _ xml.StartElement) e
 		if tt, ok := t.(xml.StartElement); ok {
 			switch tt.Name.Local {
 			case "graphicFrameLocks":
-				w.Locks.XMLA = getAtt(tt.Attr, "a")
+				if v := getAtt(tt.Attr, "a"); v != "" {
+					w.Locks.XMLA = v
+				}
 				v := getAtt(tt.Attr, "noChangeAspect")
 				if v == "" {
 					continue
@@ -513,6 +516,7 @@ type AGraphic struct {
 
 // UnmarshalXML ...
 func (a *AGraphic) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
+	a.XMLA = XMLNS_DRAWINGML_MAIN // may be declared by a parent
 	for _, attr := range start.Attr {
 		switch attr.Name.Local {
 		case "a":
@@ -593,7 +597,9 @@ func (a *AGraphicData) UnmarshalXML(d *xml.Decoder, start xml.StartElement) erro
 				if err != nil && !strings.HasPrefix(err.Error(), "expected") {
 					return err
 				}
-				value.XMLPIC = getAtt(tt.Attr, "pic")
+				if v := getAtt(tt.Attr, "pic"); v != "" {
+					value.XMLPIC = v
+				}
 				a.Pic = &value
 			case "wsp":
 				var value WordprocessingShape
@@ -642,6 +648,7 @@ type Picture struct {
 
 // UnmarshalXML ...
 func (p *Picture) UnmarshalXML(d *xml.Decoder, _ xml.StartElement) error {
+	p.XMLPIC = XMLNS_DRAWINGML_PICTURE // may be declared by a parent
 	for {
 		t, err := d.Token()
 		if err == io.EOF {
-- 
2.43.0


From a51c62c2bbe0bfac67a767f65cf6a72d7a905369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:46 +0000
Subject: [PATCH 16/42] fix: read the adjust value list of a shape's preset
 geometry

---
 structeffects.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/structeffects.go b/structeffects.go
index bfe85aa..ad81ca1 100644
--- a/structeffects.go
+++ b/structeffects.go
@@ -215,7 +215,10 @@ func (w *ShapeProperties) UnmarshalXML(d *xml.Decoder, start xml.StartElement) e
 					return err
 				}
 			case "prstGeom":
-				w.PrstGeom.Prst = getAtt(tt.Attr, "prst")
+				err = d.DecodeElement(&w.PrstGeom, &tt)
+				if err != nil && !strings.HasPrefix(err.Error(), "expected") {
+					return err
+				}
 			case "solidFill":
 				var value ASolidFill
 				err = d.DecodeElement(&value, &tt)
-- 
2.43.0


From df690d76b012dc53a002ff73d059cab18b250f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:46 +0000
Subject: [PATCH 17/42] fix: read the numbering of paragraphs

NumPr was written but never read, so lists were lost by opening a file.
---
 structpara.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/structpara.go b/structpara.go
index bb9546b..6ab708d 100644
--- a/structpara.go
+++ b/structpara.go
@@ -73,6 +73,13 @@ func (p *ParagraphProperties) UnmarshalXML(d *xml.Decoder, _ xml.StartElement) e
 					return err
 				}
 				p.Spacing = &value
+			case "numPr":
+				var value NumProperties
+				err = d.DecodeElement(&value, &tt)
+				if err != nil && !strings.HasPrefix(err.Error(), "expected") {
+					return err
+				}
+				p.NumProperties = &value
 			case "ind":
 				var value Ind
 				err = d.DecodeElement(&value, &tt)
-- 
2.43.0


From e5170a8d5388f7d63f6a2bc1780e88542665faa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:13 +0000
Subject: [PATCH 18/42] fix: keep the text of merged runs that end in a tab or
 break

MergeText appended the text node of the wrong run when the previous run did
not end in text, which lost the merged text and repeated another one.
---
 structtext.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/structtext.go b/structtext.go
index 5dc4796..2e4fd9f 100644
--- a/structtext.go
+++ b/structtext.go
@@ -292,7 +292,7 @@ func (p *Paragraph) MergeText(canmerge RunMergeRule) (np Paragraph) {
 							if noappend {
 								noappend = false
 							} else {
-								prevrun.Children = append(prevrun.Children, t)
+								prevrun.Children = append(prevrun.Children, prevtext)
 							}
 							prevtext = &Text{}
 						}
@@ -300,7 +300,7 @@ func (p *Paragraph) MergeText(canmerge RunMergeRule) (np Paragraph) {
 					}
 				}
 				if prevtext.Text != "" && !noappend {
-					prevrun.Children = append(prevrun.Children, t)
+					prevrun.Children = append(prevrun.Children, prevtext)
 				}
 			} else {
 				prevrun = &r
-- 
2.43.0


From 0302cd058dfbf3f67ef334b78cf9b0d7795ec795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:33 +0000
Subject: [PATCH 19/42] fix: give appended and split items text and formatting
 of their own

Editing a copy changed the document it was copied from and vice versa.
---
 structdoc.go     | 10 ++++++++++
 structdrawing.go | 21 +++++++++++++++++++++
 structpara.go    | 10 ++++++++++
 structrun.go     |  9 +++++++++
 structtable.go   | 35 +++++++++++++++++++++++++++++++++++
 5 files changed, 85 insertions(+)

diff --git a/structdoc.go b/structdoc.go
index 4265fa4..1d26fc0 100644
--- a/structdoc.go
+++ b/structdoc.go
@@ -293,6 +293,7 @@ newdoclop:
 
 func (r *Run) copymedia(to *Docx) *Run {
 	nr := *r
+	nr.RunProperties = r.RunProperties.copy()
 	nr.Children = make([]interface{}, 0, len(r.Children))
 	nr.file = to
 	for _, rc := range r.Children {
@@ -300,6 +301,11 @@ func (r *Run) copymedia(to *Docx) *Run {
 			nr.Children = append(nr.Children, d.copymedia(to))
 			continue
 		}
+		if t, ok := rc.(*Text); ok {
+			nt := *t
+			nr.Children = append(nr.Children, &nt)
+			continue
+		}
 		nr.Children = append(nr.Children, rc)
 	}
 	return &nr
@@ -307,6 +313,7 @@ func (r *Run) copymedia(to *Docx) *Run {
 
 func (p *Paragraph) copymedia(to *Docx) (np Paragraph) {
 	np = *p
+	np.Properties = p.Properties.copy()
 	np.Children = make([]interface{}, 0, len(p.Children))
 	np.file = to
 	for _, pc := range p.Children {
@@ -333,14 +340,17 @@ func (p *Paragraph) copymedia(to *Docx) (np Paragraph) {
 
 func (t *Table) copymedia(to *Docx) (nt Table) {
 	nt = *t
+	nt.TableProperties = t.TableProperties.copy()
 	nt.TableRows = make([]*WTableRow, 0, len(t.TableRows))
 	nt.file = to
 	for _, tr := range t.TableRows {
 		ntr := *tr
+		ntr.TableRowProperties = tr.TableRowProperties.copy()
 		ntr.TableCells = make([]*WTableCell, 0, len(tr.TableCells))
 		ntr.file = to
 		for _, tc := range tr.TableCells {
 			ntc := *tc
+			ntc.TableCellProperties = tc.TableCellProperties.copy()
 			ntc.Paragraphs = make([]*Paragraph, 0, len(tc.Paragraphs))
 			ntc.file = to
 			for _, p := range tc.Paragraphs {
diff --git a/structdrawing.go b/structdrawing.go
index 23f0da8..117e9eb 100644
--- a/structdrawing.go
+++ b/structdrawing.go
@@ -309,12 +309,17 @@ func (r *WPInline) copymedia(to *Docx) *WPInline {
 			}
 			rid := to.addImage(format, m.Data)
 			inln := *r
+			inln.Extent = r.Extent.copy()
 			grph := *r.Graphic
 			inln.Graphic = &grph
 			grphdata := *r.Graphic.GraphicData
 			grph.GraphicData = &grphdata
 			pic := *r.Graphic.GraphicData.Pic
 			grphdata.Pic = &pic
+			if r.Graphic.GraphicData.Pic.SpPr != nil {
+				sppr := *r.Graphic.GraphicData.Pic.SpPr
+				pic.SpPr = &sppr
+			}
 			grphdata.file = to
 			grph.file = to
 			inln.file = to
@@ -356,6 +361,7 @@ func (r *WPInline) copymedia(to *Docx) *WPInline {
 // copyto copies r with a drawing id of the new document
 func (r *WPInline) copyto(to *Docx) *WPInline {
 	inln := *r
+	inln.Extent = r.Extent.copy()
 	inln.file = to
 	if r.DocPr != nil {
 		docpr := *r.DocPr
@@ -374,6 +380,15 @@ type WPExtent struct {
 	CY      int64    `xml:"cy,attr"`
 }
 
+// copy returns a copy that can be set on its own
+func (r *WPExtent) copy() *WPExtent {
+	if r == nil {
+		return nil
+	}
+	nr := *r
+	return &nr
+}
+
 // UnmarshalXML ...
 func (r *WPExtent) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 	var err error
@@ -1427,12 +1442,17 @@ func (r *WPAnchor) copymedia(to *Docx) *WPAnchor {
 			}
 			rid := to.addImage(format, m.Data)
 			anch := *r
+			anch.Extent = r.Extent.copy()
 			grph := *r.Graphic
 			anch.Graphic = &grph
 			grphdata := *r.Graphic.GraphicData
 			grph.GraphicData = &grphdata
 			pic := *r.Graphic.GraphicData.Pic
 			grphdata.Pic = &pic
+			if r.Graphic.GraphicData.Pic.SpPr != nil {
+				sppr := *r.Graphic.GraphicData.Pic.SpPr
+				pic.SpPr = &sppr
+			}
 			grphdata.file = to
 			grph.file = to
 			anch.file = to
@@ -1474,6 +1494,7 @@ func (r *WPAnchor) copymedia(to *Docx) *WPAnchor {
 // copyto copies r with a drawing id of the new document
 func (r *WPAnchor) copyto(to *Docx) *WPAnchor {
 	anch := *r
+	anch.Extent = r.Extent.copy()
 	anch.file = to
 	if r.DocPr != nil {
 		docpr := *r.DocPr
diff --git a/structpara.go b/structpara.go
index 6ab708d..3e58165 100644
--- a/structpara.go
+++ b/structpara.go
@@ -47,6 +47,16 @@ type ParagraphProperties struct {
 	RunProperties *RunProperties
 }
 
+// copy returns a copy that can be set on its own
+func (p *ParagraphProperties) copy() *ParagraphProperties {
+	if p == nil {
+		return nil
+	}
+	np := *p
+	np.RunProperties = p.RunProperties.copy()
+	return &np
+}
+
 // UnmarshalXML ...
 func (p *ParagraphProperties) UnmarshalXML(d *xml.Decoder, _ xml.StartElement) error {
 	for {
diff --git a/structrun.go b/structrun.go
index 1c97952..fc89668 100644
--- a/structrun.go
+++ b/structrun.go
@@ -219,6 +219,15 @@ type RunProperties struct {
 	Strike    *Strike
 }
 
+// copy returns a copy that can be set on its own
+func (r *RunProperties) copy() *RunProperties {
+	if r == nil {
+		return nil
+	}
+	nr := *r
+	return &nr
+}
+
 // UnmarshalXML ...
 func (r *RunProperties) UnmarshalXML(d *xml.Decoder, _ xml.StartElement) error {
 	for {
diff --git a/structtable.go b/structtable.go
index 5a2727c..11fbeb6 100644
--- a/structtable.go
+++ b/structtable.go
@@ -115,6 +115,19 @@ type WTableProperties struct {
 	Look          *WTableLook
 }
 
+// copy returns a copy that can be set on its own
+func (t *WTableProperties) copy() *WTableProperties {
+	if t == nil {
+		return nil
+	}
+	n := *t
+	if t.Justification != nil {
+		jc := *t.Justification
+		n.Justification = &jc
+	}
+	return &n
+}
+
 // UnmarshalXML implements the xml.Unmarshaler interface.
 func (t *WTableProperties) UnmarshalXML(d *xml.Decoder, _ xml.StartElement) error {
 	for {
@@ -469,6 +482,19 @@ type WTableRowProperties struct {
 	Justification  *Justification
 }
 
+// copy returns a copy that can be set on its own
+func (t *WTableRowProperties) copy() *WTableRowProperties {
+	if t == nil {
+		return nil
+	}
+	n := *t
+	if t.Justification != nil {
+		jc := *t.Justification
+		n.Justification = &jc
+	}
+	return &n
+}
+
 // UnmarshalXML ...
 func (t *WTableRowProperties) UnmarshalXML(d *xml.Decoder, _ xml.StartElement) error {
 	for {
@@ -591,6 +617,15 @@ type WTableCellProperties struct {
 	VAlign         *WVerticalAlignment
 }
 
+// copy returns a copy that can be set on its own
+func (r *WTableCellProperties) copy() *WTableCellProperties {
+	if r == nil {
+		return nil
+	}
+	n := *r
+	return &n
+}
+
 // UnmarshalXML ...
 func (r *WTableCellProperties) UnmarshalXML(d *xml.Decoder, _ xml.StartElement) error {
 	for {
-- 
2.43.0


From 1fd72a3039ad9879458ae6f3bb7f110f546b9504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:08 +0000
Subject: [PATCH 20/42] fix: refuse to open a package without a document

---
 unpack.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/unpack.go b/unpack.go
index 64791ee..3043b2f 100644
--- a/unpack.go
+++ b/unpack.go
@@ -43,6 +43,7 @@ func unpack(zipReader *zip.Reader) (docx *Docx, err error) {
 	docx.slowIDs = make(map[string]uintptr, 64)
 	docx.tmplfs = zipReader
 	docx.tmpfslst = make([]string, 0, 64)
+	hasDocument := false
 	for _, f := range zipReader.File {
 		if strings.HasSuffix(f.Name, "/") {
 			continue // folder
@@ -59,6 +60,7 @@ func unpack(zipReader *zip.Reader) (docx *Docx, err error) {
 			if err != nil {
 				return
 			}
+			hasDocument = true
 			continue
 		}
 		if strings.HasPrefix(f.Name, MEDIA_FOLDER) {
@@ -71,6 +73,10 @@ func unpack(zipReader *zip.Reader) (docx *Docx, err error) {
 		// fill remaining files into tmpfslst
 		docx.tmpfslst = append(docx.tmpfslst, f.Name)
 	}
+	if !hasDocument {
+		err = errors.New("missing word/document.xml")
+		return
+	}
 	//TODO: find last imageID
 	docx.imageID = 100000
 	return
-- 
2.43.0


From 6c97a090be9a1964d21a406f4d7c3b3c302f08e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:14 +0000
Subject: [PATCH 21/42] fix: write the duplicated file next to the original one

---
 cmd/main/main.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/cmd/main/main.go b/cmd/main/main.go
index ea83c3d..188bad0 100644
--- a/cmd/main/main.go
+++ b/cmd/main/main.go
@@ -247,10 +247,7 @@ func main() {
 	}
 	if *dupnum > 1 {
 		a := strings.LastIndex(*fileLocation, "/")
-		name := "dup_" + (*fileLocation)
-		if a > 0 {
-			name = (*fileLocation)[:a+1] + "dup_" + (*fileLocation)[a:]
-		}
+		name := (*fileLocation)[:a+1] + "dup_" + (*fileLocation)[a+1:]
 		f, err := os.Create(name)
 		if err != nil {
 			panic(err)
-- 
2.43.0


From 3bed5c98645a4c0017903e6b76b2a1b4620c534d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:17 +0000
Subject: [PATCH 22/42] fix: split files whose name has no extension

---
 cmd/main/main.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/main/main.go b/cmd/main/main.go
index 188bad0..cd2d553 100644
--- a/cmd/main/main.go
+++ b/cmd/main/main.go
@@ -229,6 +229,9 @@ func main() {
 	if *splitre != "" {
 		a := strings.LastIndex(*fileLocation, "/")
 		b := strings.LastIndex(*fileLocation, ".")
+		if b <= a { // no extension
+			b = len(*fileLocation)
+		}
 		for i, splitteddoc := range doc.SplitByParagraph(docx.SplitDocxByPlainTextRegex(regexp.MustCompile(*splitre))) {
 			name := (*fileLocation)[:a+1] + "unmarshal_" + (*fileLocation)[a+1:b] + "_split" + strconv.Itoa(i) + (*fileLocation)[b:]
 			f, err := os.Create(name)
-- 
2.43.0


From 4ab97094fa53d89c9bcef4b3f8442f0fc4849cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:24 +0000
Subject: [PATCH 23/42] fix: close the duplicated file and report that it
 failed

---
 cmd/main/main.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/main/main.go b/cmd/main/main.go
index cd2d553..e1f080f 100644
--- a/cmd/main/main.go
+++ b/cmd/main/main.go
@@ -263,6 +263,10 @@ func main() {
 		if err != nil {
 			panic(err)
 		}
+		err = f.Close()
+		if err != nil {
+			panic(err)
+		}
 	}
 	fmt.Println("End of main")
 }
-- 
2.43.0


From 59ab36f386d9dda3d2f94a8791d5c32ddc571060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:15 +0000
Subject: [PATCH 24/42] fix: keep text that comes in several pieces

---
 structtext.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structtext.go b/structtext.go
index 2e4fd9f..de37352 100644
--- a/structtext.go
+++ b/structtext.go
@@ -136,7 +136,7 @@ func (r *Text) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 		}
 
 		if tt, ok := t.(xml.CharData); ok {
-			r.Text = string(tt) // implicitly copy
+			r.Text += string(tt) // may come in pieces
 		}
 	}
 
-- 
2.43.0


From 0ddb107f0c08789461e120c5e03c97d5f9979662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:23 +0000
Subject: [PATCH 25/42] fix: read what follows white space in alternate content

---
 structrun.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/structrun.go b/structrun.go
index fc89668..3c60d71 100644
--- a/structrun.go
+++ b/structrun.go
@@ -169,6 +169,9 @@ func (r *Run) parse(d *xml.Decoder, tt xml.StartElement) (child interface{}, err
 					break
 				}
 			}
+			if _, ok := tok.(xml.StartElement); !ok {
+				continue // Skip would leave the parent
+			}
 			err = d.Skip() // skip unsupported tags
 			if err != nil {
 				return nil, err
-- 
2.43.0


From d18193691fa877e4fabc5c7ee0bb7c0f036a6c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:28 +0000
Subject: [PATCH 26/42] fix: merge contiguous runs only

---
 structtext.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/structtext.go b/structtext.go
index de37352..9d82e50 100644
--- a/structtext.go
+++ b/structtext.go
@@ -308,6 +308,7 @@ func (p *Paragraph) MergeText(canmerge RunMergeRule) (np Paragraph) {
 			}
 		default:
 			np.Children = append(np.Children, o)
+			prevrun = nil // what follows is not contiguous
 		}
 	}
 	return
-- 
2.43.0


From a74d9db33948a066b5a9a8b08209773035874a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:34 +0000
Subject: [PATCH 27/42] fix: declare the namespace of pictures in a canvas

---
 structcanvas.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/structcanvas.go b/structcanvas.go
index fe08bb9..20c7bd7 100644
--- a/structcanvas.go
+++ b/structcanvas.go
@@ -76,7 +76,9 @@ func (c *WordprocessingCanvas) UnmarshalXML(d *xml.Decoder, _ xml.StartElement)
 				if err != nil && !strings.HasPrefix(err.Error(), "expected") {
 					return err
 				}
-				value.XMLPIC = getAtt(tt.Attr, "pic")
+				if v := getAtt(tt.Attr, "pic"); v != "" {
+					value.XMLPIC = v
+				}
 				c.Items = append(c.Items, &value)
 			case "wgp":
 				var value WordprocessingGroup
-- 
2.43.0


From 5d4bf4fd98bb473ced0d62aab4bef4310c40d490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:44 +0000
Subject: [PATCH 28/42] fix: copy the images of canvases, groups and text boxes

---
 structcanvas.go  |  7 +++++
 structdrawing.go | 81 ++++++++++++++++++++++++++++++++++++++++++------
 structgroup.go   | 16 ++++++++++
 structshape.go   | 46 +++++++++++++++++++++++++++
 4 files changed, 140 insertions(+), 10 deletions(-)

diff --git a/structcanvas.go b/structcanvas.go
index 20c7bd7..02d71c5 100644
--- a/structcanvas.go
+++ b/structcanvas.go
@@ -100,6 +100,13 @@ func (c *WordprocessingCanvas) UnmarshalXML(d *xml.Decoder, _ xml.StartElement)
 	return nil
 }
 
+func (c *WordprocessingCanvas) copymedia(from, to *Docx) *WordprocessingCanvas {
+	nc := *c
+	nc.Items = copyelems(c.Items, from, to)
+	nc.file = to
+	return &nc
+}
+
 // WPCBackground ...
 type WPCBackground struct {
 	XMLName xml.Name  `xml:"wpc:bg,omitempty"`
diff --git a/structdrawing.go b/structdrawing.go
index 117e9eb..23a5aa6 100644
--- a/structdrawing.go
+++ b/structdrawing.go
@@ -294,7 +294,7 @@ func (r *WPInline) copymedia(to *Docx) *WPInline {
 		return nil
 	}
 	if r.Graphic.GraphicData.Pic != nil {
-		if r.Graphic.GraphicData.Pic.BlipFill != nil {
+		if r.Graphic.GraphicData.Pic.BlipFill != nil && r.file != nil {
 			tgt, err := r.file.ReferTarget(r.Graphic.GraphicData.Pic.BlipFill.Blip.Embed)
 			if err != nil {
 				return nil
@@ -349,10 +349,7 @@ func (r *WPInline) copymedia(to *Docx) *WPInline {
 		}
 		return nil
 	}
-	if r.Graphic.GraphicData.Shape != nil { // shape has no media
-		return r.copyto(to)
-	}
-	if r.Graphic.GraphicData.Canvas != nil { //TODO: copy canvas media
+	if r.Graphic.GraphicData.Shape != nil || r.Graphic.GraphicData.Canvas != nil || r.Graphic.GraphicData.Group != nil {
 		return r.copyto(to)
 	}
 	return nil
@@ -362,6 +359,7 @@ func (r *WPInline) copymedia(to *Docx) *WPInline {
 func (r *WPInline) copyto(to *Docx) *WPInline {
 	inln := *r
 	inln.Extent = r.Extent.copy()
+	inln.Graphic = r.Graphic.copyto(r.file, to)
 	inln.file = to
 	if r.DocPr != nil {
 		docpr := *r.DocPr
@@ -652,6 +650,71 @@ func (a *AGraphicData) UnmarshalXML(d *xml.Decoder, start xml.StartElement) erro
 	return nil
 }
 
+// copyto copies the shape, canvas or group of a together with its images
+func (a *AGraphic) copyto(from, to *Docx) *AGraphic {
+	grph := *a
+	grph.file = to
+	grphdata := *a.GraphicData
+	grph.GraphicData = &grphdata
+	grphdata.file = to
+	if grphdata.Shape != nil {
+		grphdata.Shape = grphdata.Shape.copymedia(from, to)
+	}
+	if grphdata.Canvas != nil {
+		grphdata.Canvas = grphdata.Canvas.copymedia(from, to)
+	}
+	if grphdata.Group != nil {
+		grphdata.Group = grphdata.Group.copymedia(from, to)
+	}
+	return &grph
+}
+
+// copyimage copies the image id refers to and returns its id in the other document
+func (f *Docx) copyimage(id string, to *Docx) string {
+	if f == nil {
+		return ""
+	}
+	tgt, err := f.ReferTarget(id)
+	if err != nil {
+		return ""
+	}
+	m := f.mediaOf(tgt)
+	if m == nil {
+		return ""
+	}
+	return to.addImage(tgt[strings.LastIndex(tgt, ".")+1:], m.Data)
+}
+
+// copyelems copies the elements of a canvas or a group together with their images
+func copyelems(elems []interface{}, from, to *Docx) (nelems []interface{}) {
+	for _, e := range elems {
+		switch o := e.(type) {
+		case *Picture:
+			np := *o
+			if o.BlipFill != nil {
+				fill := *o.BlipFill
+				fill.Blip.Embed = from.copyimage(fill.Blip.Embed, to)
+				if fill.Blip.Embed == "" {
+					continue
+				}
+				np.BlipFill = &fill
+			}
+			nelems = append(nelems, &np)
+		case *WordprocessingShape:
+			nelems = append(nelems, o.copymedia(from, to))
+		case *WordprocessingCanvas:
+			nelems = append(nelems, o.copymedia(from, to))
+		case *WordprocessingGroup:
+			nelems = append(nelems, o.copymedia(from, to))
+		case *WPGGroupShape:
+			nelems = append(nelems, o.copymedia(from, to))
+		default:
+			nelems = append(nelems, e)
+		}
+	}
+	return
+}
+
 // Picture represents a picture in a Word document.
 type Picture struct {
 	XMLName                xml.Name `xml:"pic:pic,omitempty"`
@@ -1427,7 +1490,7 @@ func (r *WPAnchor) copymedia(to *Docx) *WPAnchor {
 		return nil
 	}
 	if r.Graphic.GraphicData.Pic != nil {
-		if r.Graphic.GraphicData.Pic.BlipFill != nil {
+		if r.Graphic.GraphicData.Pic.BlipFill != nil && r.file != nil {
 			tgt, err := r.file.ReferTarget(r.Graphic.GraphicData.Pic.BlipFill.Blip.Embed)
 			if err != nil {
 				return nil
@@ -1482,10 +1545,7 @@ func (r *WPAnchor) copymedia(to *Docx) *WPAnchor {
 		}
 		return nil
 	}
-	if r.Graphic.GraphicData.Shape != nil { // shape has no media
-		return r.copyto(to)
-	}
-	if r.Graphic.GraphicData.Canvas != nil { //TODO: copy canvas media
+	if r.Graphic.GraphicData.Shape != nil || r.Graphic.GraphicData.Canvas != nil || r.Graphic.GraphicData.Group != nil {
 		return r.copyto(to)
 	}
 	return nil
@@ -1495,6 +1555,7 @@ func (r *WPAnchor) copymedia(to *Docx) *WPAnchor {
 func (r *WPAnchor) copyto(to *Docx) *WPAnchor {
 	anch := *r
 	anch.Extent = r.Extent.copy()
+	anch.Graphic = r.Graphic.copyto(r.file, to)
 	anch.file = to
 	if r.DocPr != nil {
 		docpr := *r.DocPr
diff --git a/structgroup.go b/structgroup.go
index 725515d..9b2901a 100644
--- a/structgroup.go
+++ b/structgroup.go
@@ -106,6 +106,14 @@ func (w *WordprocessingGroup) UnmarshalXML(d *xml.Decoder, _ xml.StartElement) e
 	return nil
 }
 
+func (w *WordprocessingGroup) copymedia(from, to *Docx) *WordprocessingGroup {
+	nw := *w
+	nw.GroupShapeProperties = w.GroupShapeProperties.copymedia(from, to)
+	nw.Elems = copyelems(w.Elems, from, to)
+	nw.file = to
+	return &nw
+}
+
 // WPGcNvGrpSpPr represents the non-visual properties of a group shape.
 type WPGcNvGrpSpPr struct {
 	XMLName xml.Name `xml:"wpg:cNvGrpSpPr,omitempty"`
@@ -227,3 +235,11 @@ func (w *WPGGroupShape) UnmarshalXML(d *xml.Decoder, _ xml.StartElement) error {
 	}
 	return nil
 }
+
+func (w *WPGGroupShape) copymedia(from, to *Docx) *WPGGroupShape {
+	nw := *w
+	nw.GroupShapeProperties = w.GroupShapeProperties.copymedia(from, to)
+	nw.Elems = copyelems(w.Elems, from, to)
+	nw.file = to
+	return &nw
+}
diff --git a/structshape.go b/structshape.go
index 9298006..71c784b 100644
--- a/structshape.go
+++ b/structshape.go
@@ -101,6 +101,52 @@ func (w *WordprocessingShape) UnmarshalXML(d *xml.Decoder, _ xml.StartElement) e
 	return nil
 }
 
+func (w *WordprocessingShape) copymedia(from, to *Docx) *WordprocessingShape {
+	nw := *w
+	nw.SpPr = w.SpPr.copymedia(from, to)
+	if w.TextBox != nil {
+		box := *w.TextBox
+		box.file = to
+		if box.Content != nil {
+			content := *box.Content
+			content.Paragraphs = make([]Paragraph, 0, len(box.Content.Paragraphs))
+			content.file = to
+			for _, p := range box.Content.Paragraphs {
+				if p.file == nil {
+					p.file = from
+				}
+				content.Paragraphs = append(content.Paragraphs, p.copymedia(to))
+			}
+			box.Content = &content
+		}
+		nw.TextBox = &box
+	}
+	nw.file = to
+	return &nw
+}
+
+// copymedia copies r together with the image it is filled with
+func (r *ShapeProperties) copymedia(from, to *Docx) *ShapeProperties {
+	if r == nil {
+		return nil
+	}
+	nr := *r
+	if r.Line != nil {
+		line := *r.Line
+		nr.Line = &line
+	}
+	if r.BlipFill != nil {
+		fill := *r.BlipFill
+		if fill.Blip != nil && fill.Blip.Embed != "" {
+			blip := *fill.Blip
+			blip.Embed = from.copyimage(blip.Embed, to)
+			fill.Blip = &blip
+		}
+		nr.BlipFill = &fill
+	}
+	return &nr
+}
+
 // WPSCNvCnPr represents the non-visual drawing properties of a connector.
 type WPSCNvCnPr struct {
 	XMLName        xml.Name  `xml:"wps:cNvCnPr,omitempty"`
-- 
2.43.0


From 2032ff7a8a618d1297644f85b7df034dc09d7a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:00 +0000
Subject: [PATCH 29/42] fix: keep links to bookmarks and the text of links
 without a target

---
 structdoc.go  | 20 ++++++++++++--------
 structlink.go | 14 +++++++++++++-
 structpara.go | 11 ++++-------
 3 files changed, 29 insertions(+), 16 deletions(-)

diff --git a/structdoc.go b/structdoc.go
index 1d26fc0..3db09c2 100644
--- a/structdoc.go
+++ b/structdoc.go
@@ -322,15 +322,19 @@ func (p *Paragraph) copymedia(to *Docx) (np Paragraph) {
 			continue
 		}
 		if h, ok := pc.(*Hyperlink); ok {
-			tgt, err := p.file.ReferTarget(h.ID)
-			if err != nil {
-				continue
+			nh := &Hyperlink{
+				Anchor: h.Anchor,
+				Run:    *h.Run.copymedia(to),
+			}
+			if h.ID == h.Anchor {
+				nh.ID = h.ID // a bookmark
+			} else if p.file != nil {
+				tgt, err := p.file.ReferTarget(h.ID)
+				if err == nil {
+					nh.ID = to.addLinkRelation(tgt)
+				}
 			}
-			rid := to.addLinkRelation(tgt)
-			np.Children = append(np.Children, &Hyperlink{
-				ID:  rid,
-				Run: *h.Run.copymedia(to),
-			})
+			np.Children = append(np.Children, nh)
 			continue
 		}
 		np.Children = append(np.Children, pc)
diff --git a/structlink.go b/structlink.go
index 3132b7d..fadf641 100644
--- a/structlink.go
+++ b/structlink.go
@@ -29,10 +29,22 @@ import (
 // Hyperlink element contains links
 type Hyperlink struct {
 	XMLName xml.Name `xml:"w:hyperlink,omitempty"`
-	ID      string   `xml:"r:id,attr"`
+	ID      string   `xml:"r:id,attr,omitempty"`
+	Anchor  string   `xml:"w:anchor,attr,omitempty"` // Anchor is the bookmark, it is the ID of a link without any other
 	Run     Run
 }
 
+// MarshalXML ...
+func (r *Hyperlink) MarshalXML(e *xml.Encoder, start xml.StartElement) error {
+	type hyperlink Hyperlink
+	h := hyperlink(*r)
+	if h.ID == h.Anchor {
+		h.ID = "" // not a relationship
+	}
+	start.Name.Local = "w:hyperlink"
+	return e.EncodeElement(&h, start)
+}
+
 // UnmarshalXML ...
 func (r *Hyperlink) UnmarshalXML(d *xml.Decoder, _ xml.StartElement) error {
 	for {
diff --git a/structpara.go b/structpara.go
index 3e58165..e7255a4 100644
--- a/structpara.go
+++ b/structpara.go
@@ -278,13 +278,10 @@ func (p *Paragraph) UnmarshalXML(d *xml.Decoder, _ xml.StartElement) error {
 				if err != nil && !strings.HasPrefix(err.Error(), "expected") {
 					return err
 				}
-				id := getAtt(tt.Attr, "id")
-				anchor := getAtt(tt.Attr, "anchor")
-				if id != "" {
-					value.ID = id
-				}
-				if anchor != "" {
-					value.ID = anchor
+				value.ID = getAtt(tt.Attr, "id")
+				value.Anchor = getAtt(tt.Attr, "anchor")
+				if value.ID == "" {
+					value.ID = value.Anchor
 				}
 				elem = &value
 			case "r":
-- 
2.43.0


From d13f97efa895ed1a34823c84588fc0a561fae53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:08 +0000
Subject: [PATCH 30/42] fix: drop the drawings inside of links, too

---
 structpara.go | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/structpara.go b/structpara.go
index e7255a4..dcba7ea 100644
--- a/structpara.go
+++ b/structpara.go
@@ -339,10 +339,21 @@ func (p *Paragraph) KeepElements(name ...string) {
 	p.Children = items
 }
 
+// runof gets the run of a paragraph's child
+func runof(child interface{}) (*Run, bool) {
+	switch o := child.(type) {
+	case *Run:
+		return o, true
+	case *Hyperlink:
+		return &o.Run, true
+	}
+	return nil, false
+}
+
 // DropCanvas drops all canvases in paragraph
 func (p *Paragraph) DropCanvas() {
 	for _, pc := range p.Children {
-		if r, ok := pc.(*Run); ok {
+		if r, ok := runof(pc); ok {
 			nrc := make([]interface{}, 0, len(r.Children))
 			for _, rc := range r.Children {
 				if d, ok := rc.(*Drawing); ok {
@@ -367,7 +378,7 @@ func (p *Paragraph) DropCanvas() {
 // DropShape drops all shapes in paragraph
 func (p *Paragraph) DropShape() {
 	for _, pc := range p.Children {
-		if r, ok := pc.(*Run); ok {
+		if r, ok := runof(pc); ok {
 			nrc := make([]interface{}, 0, len(r.Children))
 			for _, rc := range r.Children {
 				if d, ok := rc.(*Drawing); ok {
@@ -392,7 +403,7 @@ func (p *Paragraph) DropShape() {
 // DropGroup drops all groups in paragraph
 func (p *Paragraph) DropGroup() {
 	for _, pc := range p.Children {
-		if r, ok := pc.(*Run); ok {
+		if r, ok := runof(pc); ok {
 			nrc := make([]interface{}, 0, len(r.Children))
 			for _, rc := range r.Children {
 				if d, ok := rc.(*Drawing); ok {
@@ -417,7 +428,7 @@ func (p *Paragraph) DropGroup() {
 // DropShapeAndCanvas drops all shapes and canvases in paragraph
 func (p *Paragraph) DropShapeAndCanvas() {
 	for _, pc := range p.Children {
-		if r, ok := pc.(*Run); ok {
+		if r, ok := runof(pc); ok {
 			nrc := make([]interface{}, 0, len(r.Children))
 			for _, rc := range r.Children {
 				if d, ok := rc.(*Drawing); ok {
@@ -442,7 +453,7 @@ func (p *Paragraph) DropShapeAndCanvas() {
 // DropShapeAndCanvasAndGroup drops all shapes, canvases and groups in paragraph
 func (p *Paragraph) DropShapeAndCanvasAndGroup() {
 	for _, pc := range p.Children {
-		if r, ok := pc.(*Run); ok {
+		if r, ok := runof(pc); ok {
 			nrc := make([]interface{}, 0, len(r.Children))
 			for _, rc := range r.Children {
 				if d, ok := rc.(*Drawing); ok {
@@ -467,7 +478,7 @@ func (p *Paragraph) DropShapeAndCanvasAndGroup() {
 // DropNilPicture drops all drawings with nil picture in paragraph
 func (p *Paragraph) DropNilPicture() {
 	for _, pc := range p.Children {
-		if r, ok := pc.(*Run); ok {
+		if r, ok := runof(pc); ok {
 			nrc := make([]interface{}, 0, len(r.Children))
 			for _, rc := range r.Children {
 				if d, ok := rc.(*Drawing); ok {
-- 
2.43.0


From bedcc7ac6d3aafd4e25e568eeb2cacaf92dd26ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:16 +0000
Subject: [PATCH 31/42] fix: keep instructions and significant white space when
 merging

---
 structtext.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/structtext.go b/structtext.go
index 9d82e50..2f5613c 100644
--- a/structtext.go
+++ b/structtext.go
@@ -255,6 +255,9 @@ func (p *Paragraph) MergeText(canmerge RunMergeRule) (np Paragraph) {
 				case *Text:
 					if x.Text != "" {
 						t.Text += x.Text
+						if x.XMLSpace != "" {
+							t.XMLSpace = x.XMLSpace
+						}
 					}
 				default:
 					if t.Text != "" {
@@ -267,7 +270,8 @@ func (p *Paragraph) MergeText(canmerge RunMergeRule) (np Paragraph) {
 			if t.Text != "" {
 				r.Children = append(r.Children, t)
 			}
-			if prevrun != nil && canmerge(prevrun, &r) {
+			// an instruction comes before everything else in a run
+			if prevrun != nil && r.InstrText == "" && canmerge(prevrun, &r) {
 				var prevtext *Text
 				noappend := false
 				if len(prevrun.Children) == 0 {
@@ -286,6 +290,9 @@ func (p *Paragraph) MergeText(canmerge RunMergeRule) (np Paragraph) {
 					case *Text:
 						if x.Text != "" {
 							prevtext.Text += x.Text
+							if x.XMLSpace != "" {
+								prevtext.XMLSpace = x.XMLSpace
+							}
 						}
 					default:
 						if prevtext.Text != "" {
-- 
2.43.0


From df98dda37ae4285986926253c868aaec5253153c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:46 +0000
Subject: [PATCH 32/42] fix: give appended and split sections properties of
 their own

---
 structdoc.go  |  4 ++++
 structsect.go | 22 ++++++++++++++++++++++
 2 files changed, 26 insertions(+)

diff --git a/structdoc.go b/structdoc.go
index 3db09c2..bdd1364 100644
--- a/structdoc.go
+++ b/structdoc.go
@@ -278,6 +278,8 @@ newdoclop:
 			case *Table:
 				nt := o.copymedia(ndoc)
 				ndoc.Document.Body.Items = append(ndoc.Document.Body.Items, &nt)
+			case *SectPr:
+				ndoc.Document.Body.Items = append(ndoc.Document.Body.Items, o.copy())
 			default:
 				ndoc.Document.Body.Items = append(ndoc.Document.Body.Items, o)
 			}
@@ -378,6 +380,8 @@ func (f *Docx) AppendFile(af *Docx) {
 		case *Table:
 			nt := o.copymedia(f)
 			f.Document.Body.Items = append(f.Document.Body.Items, &nt)
+		case *SectPr:
+			f.Document.Body.Items = append(f.Document.Body.Items, o.copy())
 		default:
 			f.Document.Body.Items = append(f.Document.Body.Items, o)
 		}
diff --git a/structsect.go b/structsect.go
index cc66873..9157523 100644
--- a/structsect.go
+++ b/structsect.go
@@ -33,6 +33,28 @@ type SectPr struct {
 	DocGrid *DocGrid `xml:"w:docGrid,omitempty"`
 }
 
+// copy returns a copy that can be set on its own
+func (sect *SectPr) copy() *SectPr {
+	ns := *sect
+	if sect.PgSz != nil {
+		v := *sect.PgSz
+		ns.PgSz = &v
+	}
+	if sect.PgMar != nil {
+		v := *sect.PgMar
+		ns.PgMar = &v
+	}
+	if sect.Cols != nil {
+		v := *sect.Cols
+		ns.Cols = &v
+	}
+	if sect.DocGrid != nil {
+		v := *sect.DocGrid
+		ns.DocGrid = &v
+	}
+	return &ns
+}
+
 // PgSz show the paper size
 type PgSz struct {
 	W int `xml:"w:w,attr"` // width of paper
-- 
2.43.0


From e6b15d4f4285b0de0fd265182ec0c8de60629029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:21 +0000
Subject: [PATCH 33/42] fix: refuse the rest of a package that was cut off

zip.NewReader takes the directory of an embedded package for the one of
the file, when the file ends before its own, and Parse opened the
embedded document instead.
---
 docx.go | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/docx.go b/docx.go
index c6a0bf5..2d3a26a 100644
--- a/docx.go
+++ b/docx.go
@@ -24,6 +24,8 @@ package docx
 
 import (
 	"archive/zip"
+	"bytes"
+	"encoding/binary"
 	"encoding/xml"
 	"io"
 	"io/fs"
@@ -95,10 +97,38 @@ func Parse(reader io.ReaderAt, size int64) (doc *Docx, err error) {
 	if err != nil {
 		return nil, err
 	}
+	err = checkBegin(reader, zipReader)
+	if err != nil {
+		return nil, err
+	}
 	doc, err = unpack(zipReader)
 	return
 }
 
+// checkBegin reports an archive that begins with a part it does not list.
+//
+// A file that was cut off ends without a directory of its own, and the one of
+// another package that is embedded in it would be taken instead.
+func checkBegin(reader io.ReaderAt, zipReader *zip.Reader) error {
+	const size = 30 // of a local header without the name and the extra field
+	var header [size]byte
+	n, err := reader.ReadAt(header[:], 0)
+	if n < size || !bytes.HasPrefix(header[:], []byte("PK\x03\x04")) {
+		if err == io.EOF {
+			err = nil
+		}
+		return err
+	}
+	begin := size + int64(binary.LittleEndian.Uint16(header[26:])) + int64(binary.LittleEndian.Uint16(header[28:]))
+	for _, f := range zipReader.File {
+		off, err := f.DataOffset()
+		if err == nil && off == begin {
+			return nil
+		}
+	}
+	return zip.ErrFormat
+}
+
 // LoadBodyItems will load body and media to a new Docx struct.
 // You should call UseTemplate to set a template later.
 func LoadBodyItems(items []interface{}, media []Media) *Docx {
-- 
2.43.0


From 68b2deb2ef8d98a5f18c63274ca5315eeb395f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:39 +0000
Subject: [PATCH 34/42] fix: declare the types of added pictures

A package is invalid when the type of a part is unknown, and the tables of
the default template and of most opened files lack some formats.
---
 contenttypes.go | 116 ++++++++++++++++++++++++++++++++++++++++++++++++
 pack.go         |   7 +++
 2 files changed, 123 insertions(+)
 create mode 100644 contenttypes.go

diff --git a/contenttypes.go b/contenttypes.go
new file mode 100644
index 0000000..792157d
--- /dev/null
+++ b/contenttypes.go
@@ -0,0 +1,116 @@
+/*
+   Copyright (c) 2020 gingfrederik
+   Copyright (c) 2021 Gonzalo Fernandez-Victorio
+   Copyright (c) 2021 Basement Crowd Ltd (https://www.basementcrowd.com)
+   Copyright (c) 2023 Fumiama Minamoto (源文雨)
+
+   This program is free software: you can redistribute it and/or modify
+   it under the terms of the GNU Affero General Public License as published
+   by the Free Software Foundation, either version 3 of the License, or
+   (at your option) any later version.
+
+   This program is distributed in the hope that it will be useful,
+   but WITHOUT ANY WARRANTY; without even the implied warranty of
+   MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
+   GNU Affero General Public License for more details.
+
+   You should have received a copy of the GNU Affero General Public License
+   along with this program.  If not, see <https://www.gnu.org/licenses/>.
+*/
+
+package docx
+
+import (
+	"bytes"
+	"encoding/xml"
+	"io"
+	"path"
+	"sort"
+	"strings"
+)
+
+//nolint:revive,stylecheck
+const (
+	CONTENT_TYPES_FILE  = `[Content_Types].xml`
+	XMLNS_CONTENT_TYPES = `http://schemas.openxmlformats.org/package/2006/content-types`
+)
+
+// mediaContentTypes are those that are not called like the extension
+var mediaContentTypes = map[string]string{
+	".emf": "image/x-emf",
+	".jpg": "image/jpeg",
+	".svg": "image/svg+xml",
+	".tif": "image/tiff",
+	".wmf": "image/x-wmf",
+}
+
+// declareMedia reads a table of content types and adds the media it lacks:
+// a package is invalid when the type of any part is unknown
+func (f *Docx) declareMedia(r io.Reader) (io.Reader, error) {
+	data, err := io.ReadAll(r)
+	if err != nil {
+		return nil, err
+	}
+	known, end := declaredTypes(data)
+	if end < 0 {
+		return bytes.NewReader(data), nil // not to be touched
+	}
+	var missing []string
+	for _, m := range f.media {
+		ext := strings.ToLower(path.Ext(m.Name))
+		if len(ext) < 2 || known[ext] || known[strings.ToLower("/"+m.String())] {
+			continue
+		}
+		known[ext] = true
+		missing = append(missing, ext)
+	}
+	sort.Strings(missing)
+	var sb strings.Builder
+	for _, ext := range missing {
+		typ, ok := mediaContentTypes[ext]
+		if !ok {
+			typ = "image/" + ext[1:]
+		}
+		sb.WriteString(`<Default xmlns="` + XMLNS_CONTENT_TYPES + `" Extension="`)
+		_ = xml.EscapeText(&sb, []byte(ext[1:]))
+		sb.WriteString(`" ContentType="`)
+		_ = xml.EscapeText(&sb, []byte(typ))
+		sb.WriteString(`"/>`)
+	}
+	return io.MultiReader(bytes.NewReader(data[:end]), strings.NewReader(sb.String()), bytes.NewReader(data[end:])), nil
+}
+
+// declaredTypes gets the extensions and the names of parts in a table of
+// content types and where it ends, which is negative when it is not a table
+func declaredTypes(data []byte) (known map[string]bool, end int64) {
+	known = make(map[string]bool, 64)
+	d := xml.NewDecoder(bytes.NewReader(data))
+	for depth := 0; ; {
+		end = d.InputOffset()
+		t, err := d.Token()
+		if err != nil {
+			return nil, -1
+		}
+		switch tt := t.(type) {
+		case xml.StartElement:
+			depth++
+			switch {
+			case depth == 1 && tt.Name.Local != "Types":
+				return nil, -1
+			case depth == 2 && tt.Name.Local == "Default":
+				known["."+strings.ToLower(getAtt(tt.Attr, "Extension"))] = true
+			case depth == 2 && tt.Name.Local == "Override":
+				known[strings.ToLower(getAtt(tt.Attr, "PartName"))] = true
+			}
+		case xml.EndElement:
+			depth--
+			if depth > 0 {
+				continue
+			}
+			if !bytes.HasPrefix(data[end:], []byte("</")) {
+				return nil, -1
+			}
+			return known, end
+		}
+	}
+}
diff --git a/pack.go b/pack.go
index 0fab787..29149f7 100644
--- a/pack.go
+++ b/pack.go
@@ -69,6 +69,13 @@ func (f *Docx) pack(zipWriter *zip.Writer) (err error) {
 		files[m.String()] = bytes.NewReader(m.Data)
 	}
 
+	if types, ok := files[CONTENT_TYPES_FILE]; ok {
+		files[CONTENT_TYPES_FILE], err = f.declareMedia(types)
+		if err != nil {
+			return err
+		}
+	}
+
 	for path, r := range files {
 		w, err := zipWriter.Create(path)
 		if err != nil {
-- 
2.43.0


From 5c188081c28301805c0394b22a986c61114de867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:58 +0000
Subject: [PATCH 35/42] fix: mark the white space at the ends of added text as
 significant

---
 apitext.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/apitext.go b/apitext.go
index 6e3b879..4eb2b7a 100644
--- a/apitext.go
+++ b/apitext.go
@@ -52,9 +52,11 @@ func (p *Paragraph) AddText(text string) *Run {
 				c = append(c, &Tab{})
 			}
 			if k != "" {
-				c = append(c, &Text{
-					Text: k,
-				})
+				t := &Text{Text: k}
+				if strings.TrimSpace(k) != k {
+					t.XMLSpace = "preserve" // or readers may drop it
+				}
+				c = append(c, t)
 			}
 		}
 	}
-- 
2.43.0


From 5abd1937d9448a4f389e44fd482317cbd56cdc04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:57 +0000
Subject: [PATCH 36/42] fix: write the relationship table in the right
 namespace

A package without the table, or with one whose root has a prefix, was saved
with a table in no namespace or that of the references.
---
 unpack.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unpack.go b/unpack.go
index 3043b2f..715c461 100644
--- a/unpack.go
+++ b/unpack.go
@@ -41,6 +41,7 @@ func unpack(zipReader *zip.Reader) (docx *Docx, err error) {
 	docx = new(Docx)
 	docx.mediaNameIdx = make(map[string]int, 64)
 	docx.slowIDs = make(map[string]uintptr, 64)
+	docx.docRelation.Xmlns = XMLNS_REL
 	docx.tmplfs = zipReader
 	docx.tmpfslst = make([]string, 0, 64)
 	hasDocument := false
@@ -122,7 +123,6 @@ func (f *Docx) parseDocRelation(file *zip.File) error {
 	}
 	defer zf.Close()
 
-	f.docRelation.Xmlns = XMLNS_R
 	err = xml.NewDecoder(zf).Decode(&f.docRelation)
 	if err != nil {
 		return err
-- 
2.43.0


From 2803f39225bf850c0d1084df3c4f0227196a5be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:12 +0000
Subject: [PATCH 37/42] fix: keep the references to carried parts in the pieces
 of a split

Pieces got a fixed table of relationships: those to parts such as the
numbering and the settings were lost, and others led to parts that are not
there.
---
 structdoc.go | 28 +++++++---------------------
 1 file changed, 7 insertions(+), 21 deletions(-)

diff --git a/structdoc.go b/structdoc.go
index bdd1364..8df8133 100644
--- a/structdoc.go
+++ b/structdoc.go
@@ -242,28 +242,14 @@ newdoclop:
 		ndoc.Document.XMLName.Local = "document"
 		ndoc.Document.Body.file = ndoc
 
-		ndoc.docRelation = Relationships{
-			Xmlns: XMLNS_REL,
-			Relationship: []Relationship{
-				{
-					ID:     "rId1",
-					Type:   `http://schemas.openxmlformats.org/officeDocument/2006/relationships/styles`,
-					Target: "styles.xml",
-				},
-				{
-					ID:     "rId2",
-					Type:   `http://schemas.openxmlformats.org/officeDocument/2006/relationships/theme`,
-					Target: "theme/theme1.xml",
-				},
-				{
-					ID:     "rId3",
-					Type:   `http://schemas.openxmlformats.org/officeDocument/2006/relationships/fontTable`,
-					Target: "fontTable.xml",
-				},
-			},
+		// keep the references to the parts that are not of the body
+		ndoc.docRelation.Xmlns = XMLNS_REL
+		for _, r := range f.docRelation.Relationship {
+			if r.Type != REL_HYPERLINK && r.Type != REL_IMAGE && r.TargetMode != REL_TARGETMODE && f.mediaOf(r.Target) == nil {
+				ndoc.docRelation.Relationship = append(ndoc.docRelation.Relationship, r)
+			}
 		}
-
-		ndoc.rID = 3
+		ndoc.rID = f.rID
 
 		for i, item := range items {
 			switch o := item.(type) {
-- 
2.43.0


From 9f7bb48bb867331b43d90b49f10d1397d78f4bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:31 +0000
Subject: [PATCH 38/42] fix: read to the end of elements that have content

---
 structdrawing.go | 15 ++++++---------
 structeffects.go | 20 ++++++++------------
 structrun.go     |  5 ++---
 structsect.go    | 20 ++++++++------------
 structshape.go   | 20 ++++++++------------
 structtable.go   | 30 ++++++++++++------------------
 structtext.go    | 10 ++++------
 7 files changed, 48 insertions(+), 72 deletions(-)

diff --git a/structdrawing.go b/structdrawing.go
index 23a5aa6..d058914 100644
--- a/structdrawing.go
+++ b/structdrawing.go
@@ -401,9 +401,8 @@ func (r *WPExtent) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 			return err
 		}
 	}
-	// Consume the end element
-	_, err = d.Token()
-	return err
+	// Consume the rest of the element
+	return d.Skip()
 }
 
 // WPEffectExtent represents the effect extent of a drawing in a Word document.
@@ -433,9 +432,8 @@ func (r *WPEffectExtent) UnmarshalXML(d *xml.Decoder, start xml.StartElement) er
 			return err
 		}
 	}
-	// Consume the end element
-	_, err = d.Token()
-	return err
+	// Consume the rest of the element
+	return d.Skip()
 }
 
 // WPDocPr represents the document properties of a drawing in a Word document.
@@ -462,9 +460,8 @@ func (r *WPDocPr) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 			// ignore other attributes
 		}
 	}
-	// Consume the end element
-	_, err := d.Token()
-	return err
+	// Consume the rest of the element
+	return d.Skip()
 }
 
 // WPCNvGraphicFramePr represents the non-visual properties of a graphic frame.
diff --git a/structeffects.go b/structeffects.go
index ad81ca1..edd3b8d 100644
--- a/structeffects.go
+++ b/structeffects.go
@@ -144,9 +144,8 @@ func (s *Shade) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 			// ignore other attributes
 		}
 	}
-	// Consume the end element
-	_, err := d.Token()
-	return err
+	// Consume the rest of the element
+	return d.Skip()
 }
 
 // AdjustRightInd ...
@@ -275,9 +274,8 @@ func (r *NonVisualProperties) UnmarshalXML(d *xml.Decoder, start xml.StartElemen
 			// ignore other attributes
 		}
 	}
-	// Consume the end element
-	_, err = d.Token()
-	return
+	// Consume the rest of the element
+	return d.Skip()
 }
 
 // Spacing ...
@@ -322,9 +320,8 @@ func (s *Spacing) UnmarshalXML(d *xml.Decoder, start xml.StartElement) (err erro
 			// ignore other attributes
 		}
 	}
-	// Consume the end element
-	_, err = d.Token()
-	return
+	// Consume the rest of the element
+	return d.Skip()
 }
 
 // Ind ...
@@ -395,7 +392,6 @@ func (i *Ind) UnmarshalXML(d *xml.Decoder, start xml.StartElement) (err error) {
 			// ignore other attributes
 		}
 	}
-	// Consume the end element
-	_, err = d.Token()
-	return
+	// Consume the rest of the element
+	return d.Skip()
 }
diff --git a/structrun.go b/structrun.go
index 3c60d71..8eebbe3 100644
--- a/structrun.go
+++ b/structrun.go
@@ -354,7 +354,6 @@ func (f *RunFonts) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 			f.Hint = attr.Value
 		}
 	}
-	// Consume the end element
-	_, err := d.Token()
-	return err
+	// Consume the rest of the element
+	return d.Skip()
 }
diff --git a/structsect.go b/structsect.go
index 9157523..54814c1 100644
--- a/structsect.go
+++ b/structsect.go
@@ -154,9 +154,8 @@ func (pgsz *PgSz) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 			// ignore other attributes now
 		}
 	}
-	// Consume the end element
-	_, err = d.Token()
-	return err
+	// Consume the rest of the element
+	return d.Skip()
 }
 
 // UnmarshalXML ...
@@ -204,9 +203,8 @@ func (pgmar *PgMar) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 			// ignore other attributes now
 		}
 	}
-	// Consume the end element
-	_, err = d.Token()
-	return err
+	// Consume the rest of the element
+	return d.Skip()
 }
 
 // UnmarshalXML ...
@@ -224,9 +222,8 @@ func (cols *Cols) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 			// ignore other attributes now
 		}
 	}
-	// Consume the end element
-	_, err = d.Token()
-	return err
+	// Consume the rest of the element
+	return d.Skip()
 }
 
 // UnmarshalXML ...
@@ -246,7 +243,6 @@ func (dg *DocGrid) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 			// ignore other attributes now
 		}
 	}
-	// Consume the end element
-	_, err = d.Token()
-	return err
+	// Consume the rest of the element
+	return d.Skip()
 }
diff --git a/structshape.go b/structshape.go
index 71c784b..e6db10f 100644
--- a/structshape.go
+++ b/structshape.go
@@ -250,9 +250,8 @@ func (l *ASPLocks) UnmarshalXML(d *xml.Decoder, start xml.StartElement) (err err
 			// ignore other attributes
 		}
 	}
-	// Consume the end element
-	_, err = d.Token()
-	return err
+	// Consume the rest of the element
+	return d.Skip()
 }
 
 // ABlipFill represents a fill that contains a reference to an image.
@@ -363,9 +362,8 @@ func (t *ATile) UnmarshalXML(d *xml.Decoder, start xml.StartElement) (err error)
 			return err
 		}
 	}
-	// Consume the end element
-	_, err = d.Token()
-	return err
+	// Consume the rest of the element
+	return d.Skip()
 }
 
 // ALine represents a line element in a Word document.
@@ -540,9 +538,8 @@ func (r *AHeadEnd) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 			// ignore other attributes
 		}
 	}
-	// Consume the end element
-	_, err := d.Token()
-	return err
+	// Consume the rest of the element
+	return d.Skip()
 }
 
 // ATailEnd ...
@@ -567,9 +564,8 @@ func (r *ATailEnd) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 			// ignore other attributes
 		}
 	}
-	// Consume the end element
-	_, err := d.Token()
-	return err
+	// Consume the rest of the element
+	return d.Skip()
 }
 
 // WPSTextBox ...
diff --git a/structtable.go b/structtable.go
index 11fbeb6..10fecf7 100644
--- a/structtable.go
+++ b/structtable.go
@@ -245,9 +245,8 @@ func (tp *WTablePositioningProperties) UnmarshalXML(d *xml.Decoder, start xml.St
 		}
 	}
 
-	// Consume the end element
-	_, err = d.Token()
-	return err
+	// Consume the rest of the element
+	return d.Skip()
 }
 
 // WTableStyle represents the style of a table in a Word document.
@@ -269,9 +268,8 @@ func (t *WTableStyle) UnmarshalXML(d *xml.Decoder, start xml.StartElement) (err
 			// ignore other attributes
 		}
 	}
-	// Consume the end element
-	_, err = d.Token()
-	return err
+	// Consume the rest of the element
+	return d.Skip()
 }
 
 // WTableWidth represents the width of a table in a Word document.
@@ -299,9 +297,8 @@ func (t *WTableWidth) UnmarshalXML(d *xml.Decoder, start xml.StartElement) (err
 			// ignore other attributes
 		}
 	}
-	// Consume the end element
-	_, err = d.Token()
-	return err
+	// Consume the rest of the element
+	return d.Skip()
 }
 
 // WTableLook represents the look of a table in a Word document.
@@ -341,9 +338,8 @@ func (t *WTableLook) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error
 			// ignore other attributes
 		}
 	}
-	// Consume the end element
-	_, err := d.Token()
-	return err
+	// Consume the rest of the element
+	return d.Skip()
 }
 
 // WTableGrid is a structure that represents the table grid of a Word document.
@@ -406,9 +402,8 @@ func (g *WGridCol) UnmarshalXML(d *xml.Decoder, start xml.StartElement) (err err
 			// ignore other attributes
 		}
 	}
-	// Consume the end element
-	_, err = d.Token()
-	return err
+	// Consume the rest of the element
+	return d.Skip()
 }
 
 // WTableRow represents a row within a table.
@@ -841,9 +836,8 @@ func (t *WTableBorder) UnmarshalXML(d *xml.Decoder, start xml.StartElement) erro
 			t.Color = attr.Value
 		}
 	}
-	// Consume the end element
-	_, err := d.Token()
-	return err
+	// Consume the rest of the element
+	return d.Skip()
 }
 
 // WGridSpan represents the number of grid columns this cell should span.
diff --git a/structtext.go b/structtext.go
index 2f5613c..58e7327 100644
--- a/structtext.go
+++ b/structtext.go
@@ -83,9 +83,8 @@ func (t *Tab) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 			}
 		}
 	}
-	// Consume the end element
-	_, err = d.Token()
-	return err
+	// Consume the rest of the element
+	return d.Skip()
 }
 
 // BarterRabbet is <br> , if with type=page , add pagebreaks
@@ -102,9 +101,8 @@ func (f *BarterRabbet) UnmarshalXML(d *xml.Decoder, start xml.StartElement) erro
 			break
 		}
 	}
-	// Consume the end element
-	_, err := d.Token()
-	return err
+	// Consume the rest of the element
+	return d.Skip()
 }
 
 // Text object contains the actual text
-- 
2.43.0


From bcbeefed5bf2d0684945b64df278a2108cbe995e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:35 +0000
Subject: [PATCH 39/42] fix: do not take declarations of namespaces for
 attributes

---
 unpack.go | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/unpack.go b/unpack.go
index 715c461..b592156 100644
--- a/unpack.go
+++ b/unpack.go
@@ -107,7 +107,7 @@ func (f *Docx) parseDocument(file *zip.File) error {
 	f.Document.Body.file = f
 	//TODO: find last docID
 	f.docID = 100000
-	err = xml.NewDecoder(zf).Decode(&f.Document)
+	err = xml.NewTokenDecoder(noDecls{xml.NewDecoder(zf)}).Decode(&f.Document)
 	if err != nil {
 		return err
 	}
@@ -115,6 +115,28 @@ func (f *Docx) parseDocument(file *zip.File) error {
 	return err
 }
 
+// noDecls hides declarations of namespaces, which would be taken for attributes:
+// xmlns:w for w
+type noDecls struct {
+	d *xml.Decoder
+}
+
+// Token ...
+func (n noDecls) Token() (xml.Token, error) {
+	t, err := n.d.Token()
+	if tt, ok := t.(xml.StartElement); ok {
+		attrs := tt.Attr[:0]
+		for _, a := range tt.Attr {
+			if a.Name.Space != "xmlns" {
+				attrs = append(attrs, a)
+			}
+		}
+		tt.Attr = attrs
+		t = tt
+	}
+	return t, err
+}
+
 // parseDocRelation processes one of the relevant files, the one with the relationships
 func (f *Docx) parseDocRelation(file *zip.File) error {
 	zf, err := file.Open()
-- 
2.43.0


From 57d6a536bdaf07f1e96d2cd2a59ccc89c920c556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:41 +0000
Subject: [PATCH 40/42] fix: print the text of links that is not an instruction

---
 structpara.go | 44 +++++++++++++++++++++++++-------------------
 1 file changed, 25 insertions(+), 19 deletions(-)

diff --git a/structpara.go b/structpara.go
index dcba7ea..c73113d 100644
--- a/structpara.go
+++ b/structpara.go
@@ -209,6 +209,7 @@ func (p *Paragraph) String() string {
 			link, err := p.file.ReferTarget(id)
 			sb.WriteString("[")
 			sb.WriteString(text)
+			o.Run.writeText(&sb)
 			sb.WriteString("](")
 			if err != nil {
 				sb.WriteString(id)
@@ -217,25 +218,7 @@ func (p *Paragraph) String() string {
 			}
 			sb.WriteByte(')')
 		case *Run:
-			for _, c := range o.Children {
-				switch x := c.(type) {
-				case *Text:
-					sb.WriteString(x.Text)
-				case *Tab:
-					sb.WriteByte('\t')
-				case *BarterRabbet:
-					sb.WriteByte('\n')
-				case *Drawing:
-					if x.Inline != nil {
-						sb.WriteString(x.Inline.String())
-						continue
-					}
-					if x.Anchor != nil {
-						sb.WriteString(x.Anchor.String())
-						continue
-					}
-				}
-			}
+			o.writeText(&sb)
 		default:
 			continue
 		}
@@ -243,6 +226,29 @@ func (p *Paragraph) String() string {
 	return sb.String()
 }
 
+// writeText writes what the children of a run say
+func (r *Run) writeText(sb *strings.Builder) {
+	for _, c := range r.Children {
+		switch x := c.(type) {
+		case *Text:
+			sb.WriteString(x.Text)
+		case *Tab:
+			sb.WriteByte('\t')
+		case *BarterRabbet:
+			sb.WriteByte('\n')
+		case *Drawing:
+			if x.Inline != nil {
+				sb.WriteString(x.Inline.String())
+				continue
+			}
+			if x.Anchor != nil {
+				sb.WriteString(x.Anchor.String())
+				continue
+			}
+		}
+	}
+}
+
 // UnmarshalXML ...
 func (p *Paragraph) UnmarshalXML(d *xml.Decoder, _ xml.StartElement) error {
 	/*for _, attr := range start.Attr {
-- 
2.43.0


From 5096010a3f820f4d293fb043568edebbea002a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:45:49 +0000
Subject: [PATCH 41/42] fix: read on-off values in all their spellings

---
 helper.go        | 11 +++++++++++
 structdrawing.go | 18 +++++++++---------
 structeffects.go |  4 +++-
 structpara.go    | 16 ++++++++--------
 structrun.go     | 11 ++++++++---
 structshape.go   | 10 +++++-----
 structtable.go   | 12 ++++++------
 7 files changed, 50 insertions(+), 32 deletions(-)

diff --git a/helper.go b/helper.go
index d91ad81..b5751e8 100644
--- a/helper.go
+++ b/helper.go
@@ -68,3 +68,14 @@ func GetInt(s string) (int, error) {
 	_, err = fmt.Sscanf(s, "%d", &v)
 	return v, err
 }
+
+// getOnOff is GetInt for on-off values
+func getOnOff(s string) (int, error) {
+	switch s {
+	case "true", "on":
+		return 1, nil
+	case "false", "off":
+		return 0, nil
+	}
+	return GetInt(s)
+}
diff --git a/structdrawing.go b/structdrawing.go
index d058914..43b189f 100644
--- a/structdrawing.go
+++ b/structdrawing.go
@@ -492,7 +492,7 @@ func (w *WPCNvGraphicFramePr) UnmarshalXML(d *xml.Decoder, _ xml.StartElement) e
 				if v == "" {
 					continue
 				}
-				w.Locks.NoChangeAspect, err = GetInt(v)
+				w.Locks.NoChangeAspect, err = getOnOff(v)
 				if err != nil {
 					return err
 				}
@@ -842,7 +842,7 @@ func (p *PicCNvPicPr) UnmarshalXML(d *xml.Decoder, _ xml.StartElement) error {
 				if v == "" {
 					continue
 				}
-				value.NoChangeAspect, err = GetInt(v)
+				value.NoChangeAspect, err = getOnOff(v)
 				if err != nil {
 					return err
 				}
@@ -1079,9 +1079,9 @@ func (a *AXfrm) UnmarshalXML(d *xml.Decoder, start xml.StartElement) (err error)
 		case "rot":
 			a.Rot, err = GetInt64(attr.Value)
 		case "flipH":
-			a.FlipH, err = GetInt(attr.Value)
+			a.FlipH, err = getOnOff(attr.Value)
 		case "flipV":
-			a.FlipV, err = GetInt(attr.Value)
+			a.FlipV, err = getOnOff(attr.Value)
 		default:
 			// ignore other attributes
 		}
@@ -1317,17 +1317,17 @@ func (r *WPAnchor) UnmarshalXML(d *xml.Decoder, start xml.StartElement) (err err
 		case "distR":
 			r.DistR, err = GetInt64(tt.Value)
 		case "simplePos":
-			r.SimplePos, err = GetInt(tt.Value)
+			r.SimplePos, err = getOnOff(tt.Value)
 		case "relativeHeight":
 			r.RelativeHeight, err = GetInt(tt.Value)
 		case "behindDoc":
-			r.BehindDoc, err = GetInt(tt.Value)
+			r.BehindDoc, err = getOnOff(tt.Value)
 		case "locked":
-			r.Locked, err = GetInt(tt.Value)
+			r.Locked, err = getOnOff(tt.Value)
 		case "layoutInCell":
-			r.LayoutInCell, err = GetInt(tt.Value)
+			r.LayoutInCell, err = getOnOff(tt.Value)
 		case "allowOverlap":
-			r.AllowOverlap, err = GetInt(tt.Value)
+			r.AllowOverlap, err = getOnOff(tt.Value)
 		}
 		if err != nil {
 			return err
diff --git a/structeffects.go b/structeffects.go
index edd3b8d..fba8377 100644
--- a/structeffects.go
+++ b/structeffects.go
@@ -60,11 +60,13 @@ type SizeCs struct {
 // Bold ...
 type Bold struct {
 	XMLName xml.Name `xml:"w:b,omitempty"`
+	Val     string   `xml:"w:val,attr,omitempty"`
 }
 
 // Italic ...
 type Italic struct {
 	XMLName xml.Name `xml:"w:i,omitempty"`
+	Val     string   `xml:"w:val,attr,omitempty"`
 }
 
 // Underline ...
@@ -113,7 +115,7 @@ type VertAlign struct {
 // Strike ...
 type Strike struct {
 	XMLName xml.Name `xml:"w:strike,omitempty"`
-	Val     string   `xml:"w:val,attr"`
+	Val     string   `xml:"w:val,attr,omitempty"`
 }
 
 // Shade is an element that represents a shading pattern applied to a document element.
diff --git a/structpara.go b/structpara.go
index c73113d..67032d4 100644
--- a/structpara.go
+++ b/structpara.go
@@ -132,9 +132,9 @@ func (p *ParagraphProperties) UnmarshalXML(d *xml.Decoder, _ xml.StartElement) e
 				var value AdjustRightInd
 				v := getAtt(tt.Attr, "val")
 				if v == "" {
-					continue
+					v = "on" // the default
 				}
-				value.Val, err = GetInt(v)
+				value.Val, err = getOnOff(v)
 				if err != nil {
 					return err
 				}
@@ -143,9 +143,9 @@ func (p *ParagraphProperties) UnmarshalXML(d *xml.Decoder, _ xml.StartElement) e
 				var value SnapToGrid
 				v := getAtt(tt.Attr, "val")
 				if v == "" {
-					continue
+					v = "on" // the default
 				}
-				value.Val, err = GetInt(v)
+				value.Val, err = getOnOff(v)
 				if err != nil {
 					return err
 				}
@@ -154,9 +154,9 @@ func (p *ParagraphProperties) UnmarshalXML(d *xml.Decoder, _ xml.StartElement) e
 				var value Kinsoku
 				v := getAtt(tt.Attr, "val")
 				if v == "" {
-					continue
+					v = "on" // the default
 				}
-				value.Val, err = GetInt(v)
+				value.Val, err = getOnOff(v)
 				if err != nil {
 					return err
 				}
@@ -165,9 +165,9 @@ func (p *ParagraphProperties) UnmarshalXML(d *xml.Decoder, _ xml.StartElement) e
 				var value OverflowPunct
 				v := getAtt(tt.Attr, "val")
 				if v == "" {
-					continue
+					v = "on" // the default
 				}
-				value.Val, err = GetInt(v)
+				value.Val, err = getOnOff(v)
 				if err != nil {
 					return err
 				}
diff --git a/structrun.go b/structrun.go
index 8eebbe3..1719b60 100644
--- a/structrun.go
+++ b/structrun.go
@@ -252,11 +252,16 @@ func (r *RunProperties) UnmarshalXML(d *xml.Decoder, _ xml.StartElement) error {
 				}
 				r.Fonts = &value
 			case "b":
-				r.Bold = &Bold{}
+				r.Bold = &Bold{Val: getAtt(tt.Attr, "val")}
 			case "iCs":
-				r.ICs = &struct{}{}
+				switch getAtt(tt.Attr, "val") {
+				case "0", "false", "off":
+					r.ICs = nil
+				default:
+					r.ICs = &struct{}{}
+				}
 			case "i":
-				r.Italic = &Italic{}
+				r.Italic = &Italic{Val: getAtt(tt.Attr, "val")}
 			case "u":
 				var value Underline
 				value.Val = getAtt(tt.Attr, "val")
diff --git a/structshape.go b/structshape.go
index e6db10f..a07b662 100644
--- a/structshape.go
+++ b/structshape.go
@@ -193,7 +193,7 @@ func (w *WPSCNvSpPr) UnmarshalXML(d *xml.Decoder, start xml.StartElement) (err e
 	for _, attr := range start.Attr {
 		switch attr.Name.Local {
 		case "txBox":
-			w.TxBox, err = GetInt(attr.Value)
+			w.TxBox, err = getOnOff(attr.Value)
 			if err != nil {
 				return err
 			}
@@ -242,7 +242,7 @@ func (l *ASPLocks) UnmarshalXML(d *xml.Decoder, start xml.StartElement) (err err
 	for _, attr := range start.Attr {
 		switch attr.Name.Local {
 		case "noChangeArrowheads":
-			l.NoChangeArrowheads, err = GetInt(attr.Value)
+			l.NoChangeArrowheads, err = getOnOff(attr.Value)
 			if err != nil {
 				return err
 			}
@@ -275,7 +275,7 @@ func (r *ABlipFill) UnmarshalXML(d *xml.Decoder, start xml.StartElement) (err er
 				return err
 			}
 		case "rotWithShape":
-			r.RotWithShape, err = GetInt(attr.Value)
+			r.RotWithShape, err = getOnOff(attr.Value)
 			if err != nil {
 				return err
 			}
@@ -688,9 +688,9 @@ func (r *WPSBodyPr) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 		case "anchor":
 			r.Anchor = attr.Value
 		case "anchorCtr":
-			r.AnchorCtr, _ = GetInt(attr.Value)
+			r.AnchorCtr, _ = getOnOff(attr.Value)
 		case "upright":
-			r.Upright, _ = GetInt(attr.Value)
+			r.Upright, _ = getOnOff(attr.Value)
 		default:
 			// ignore other attributes
 		}
diff --git a/structtable.go b/structtable.go
index 10fecf7..d472aab 100644
--- a/structtable.go
+++ b/structtable.go
@@ -323,17 +323,17 @@ func (t *WTableLook) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error
 		case "val":
 			t.Val = attr.Value
 		case "firstRow":
-			t.FirstRow = int(attr.Value[0] - '0')
+			t.FirstRow, _ = getOnOff(attr.Value)
 		case "lastRow":
-			t.LastRow = int(attr.Value[0] - '0')
+			t.LastRow, _ = getOnOff(attr.Value)
 		case "firstColumn":
-			t.FirstCol = int(attr.Value[0] - '0')
+			t.FirstCol, _ = getOnOff(attr.Value)
 		case "lastColumn":
-			t.LastCol = int(attr.Value[0] - '0')
+			t.LastCol, _ = getOnOff(attr.Value)
 		case "noHBand":
-			t.NoHBand = int(attr.Value[0] - '0')
+			t.NoHBand, _ = getOnOff(attr.Value)
 		case "noVBand":
-			t.NoVBand = int(attr.Value[0] - '0')
+			t.NoVBand, _ = getOnOff(attr.Value)
 		default:
 			// ignore other attributes
 		}
-- 
2.43.0


From 93e061566ab84ec97fdd810ca4364f7cd38adf8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:36:42 +0000
Subject: [PATCH 42/42] fix: documents loaded from the same items or media no
 longer overwrite each other's

---
 docx.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/docx.go b/docx.go
index 2d3a26a..7c67e9f 100644
--- a/docx.go
+++ b/docx.go
@@ -143,7 +143,9 @@ func LoadBodyItems(items []interface{}, media []Media) *Docx {
 			XMLWPS: XMLNS_WPS,
 			XMLWPC: XMLNS_WPC,
 			XMLWPG: XMLNS_WPG,
-			Body:   Body{Items: items},
+			// of their own capacity: what is appended is not written over
+			// what the caller keeps after them
+			Body: Body{Items: items[:len(items):len(items)]},
 		},
 		docRelation: Relationships{
 			Xmlns: XMLNS_REL,
@@ -165,7 +167,7 @@ func LoadBodyItems(items []interface{}, media []Media) *Docx {
 				},
 			},
 		},
-		media:        media,
+		media:        media[:len(media):len(media)],
 		mediaNameIdx: make(map[string]int, 64),
 		rID:          3,
 		slowIDs:      make(map[string]uintptr, 64),
-- 
2.43.0

