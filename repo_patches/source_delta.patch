From b0cc1b927e839f4226c6352bd7d0399299d9fc62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:42 +0000
Subject: [PATCH 01/36] fix: do not read past the end of short strings when
 looking for a BOM

string_has_bom compared two bytes of every string, but an empty string
(e.g. the description of a picture) only has its terminator.
---
 src/modules/utils.c | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/modules/utils.c b/src/modules/utils.c
index 3986782..9322291 100644
--- a/src/modules/utils.c
+++ b/src/modules/utils.c
@@ -152,10 +152,6 @@ bool string_has_bom(const char* string)
         return false;
     }
 
-    if (memcmp("\xFF\xFE", string, 2) == 0 || memcmp("\xFE\xFF", string, 2) == 0)
-    {
-        return true;
-    }
-
-    return false;
+    // Stop at the first mismatch, an empty string only has one byte
+    return strncmp("\xFF\xFE", string, 2) == 0 || strncmp("\xFE\xFF", string, 2) == 0;
 }
-- 
2.43.0


From 231ad470c945e646bf995ff9a82a1d74ede9fda2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:42 +0000
Subject: [PATCH 02/36] fix: reject buffers that are too short to hold a tag
 header

TagHeader_parse compared and read header bytes beyond the end of the buffer.
---
 src/modules/tag_header.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/modules/tag_header.c b/src/modules/tag_header.c
index 8ecc1f0..bd41bf1 100644
--- a/src/modules/tag_header.c
+++ b/src/modules/tag_header.c
@@ -47,6 +47,8 @@ ID3v2_TagHeader* TagHeader_new_empty()
 
 ID3v2_TagHeader* TagHeader_parse(CharStream* header_cs)
 {
+    if (header_cs->size < ID3v2_TAG_HEADER_LENGTH) return NULL;
+
     bool has_id3v2_tag = memcmp(header_cs->stream, "ID3", ID3v2_TAG_HEADER_IDENTIFIER_LENGTH) == 0;
     if (!has_id3v2_tag) return NULL;
 
-- 
2.43.0


From 6b52a3d12b69ab8aa45f77f50135bb18bab07383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:42 +0000
Subject: [PATCH 03/36] fix: do not decode an uninitialized extended header
 size

When only the ten bytes of the tag header are available (as when reading
the header alone) the extended header size was taken from uninitialized
stack memory.
---
 src/modules/tag_header.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/tag_header.c b/src/modules/tag_header.c
index bd41bf1..92cffe6 100644
--- a/src/modules/tag_header.c
+++ b/src/modules/tag_header.c
@@ -75,7 +75,7 @@ ID3v2_TagHeader* TagHeader_parse(CharStream* header_cs)
     if ((flags & (1 << 6)) == (1 << 6))
     {
         // An extended header exists, retrieve its size
-        char raw_eh_size[ID3v2_EXTENDED_HEADER_SIZE_LENGTH];
+        char raw_eh_size[ID3v2_EXTENDED_HEADER_SIZE_LENGTH] = {0};
         CharStream_read(header_cs, raw_eh_size, ID3v2_EXTENDED_HEADER_SIZE_LENGTH);
         extended_header_size = syncint_decode(btoi(raw_eh_size, ID3v2_EXTENDED_HEADER_SIZE_LENGTH));
     }
-- 
2.43.0


From 8b4caa431f76b2488e56a03754c0ed2bf4046c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:42 +0000
Subject: [PATCH 04/36] fix: skip the extended header from where it starts

The size of the extended header was used as an absolute position, which
made the parser read frames from the middle of the tag header.
---
 src/modules/tag.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/modules/tag.c b/src/modules/tag.c
index 5350666..ce971b7 100644
--- a/src/modules/tag.c
+++ b/src/modules/tag.c
@@ -50,8 +50,11 @@ ID3v2_Tag* Tag_parse(CharStream* tag_cs)
 
     if (header->extended_header_size > 0)
     {
-        // An extended header exists, skip it
-        CharStream_seek(tag_cs, header->extended_header_size, SEEK_SET);
+        // An extended header exists, skip what follows its size field (in v2.4, the size
+        // takes the size field itself into account)
+        const int size_field_length =
+            header->major_version == 4 ? ID3v2_EXTENDED_HEADER_SIZE_LENGTH : 0;
+        CharStream_seek(tag_cs, header->extended_header_size - size_field_length, SEEK_CUR);
     }
 
     ID3v2_Frame* current_frame;
-- 
2.43.0


From e15a9ce2511067b4f52e3c9b10d3810bc6a2e4d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:14 +0000
Subject: [PATCH 05/36] fix: refuse frames that do not fit in the tag

The size of a frame was trusted, so a damaged or truncated tag made the
parser read past the end of its buffer, or size its buffers with
negative or huge lengths.
---
 src/modules/frame_header.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/modules/frame_header.c b/src/modules/frame_header.c
index 4f755d2..8bfb9c8 100644
--- a/src/modules/frame_header.c
+++ b/src/modules/frame_header.c
@@ -30,6 +30,9 @@ ID3v2_FrameHeader* FrameHeader_new(const char* id, const char* flags, const int
 
 ID3v2_FrameHeader* FrameHeader_parse(CharStream* header_cs, const int id3_major_version)
 {
+    // There must be enough room left for a whole header, otherwise we already reached the end
+    if (header_cs->size - header_cs->cursor < ID3v2_FRAME_HEADER_LENGTH) return NULL;
+
     char id[ID3v2_FRAME_HEADER_ID_LENGTH];
     CharStream_read(header_cs, id, ID3v2_FRAME_HEADER_ID_LENGTH);
 
@@ -54,6 +57,13 @@ ID3v2_FrameHeader* FrameHeader_parse(CharStream* header_cs, const int id3_major_
     char flags[ID3v2_FRAME_HEADER_FLAGS_LENGTH];
     CharStream_read(header_cs, flags, ID3v2_FRAME_HEADER_FLAGS_LENGTH);
 
+    // A frame has at least one byte and can't be longer than what's left of the tag
+    if (size < 1 || size > header_cs->size - header_cs->cursor)
+    {
+        CharStream_seek(header_cs, -ID3v2_FRAME_HEADER_LENGTH, SEEK_CUR);
+        return NULL;
+    }
+
     return FrameHeader_new(id, flags, size);
 }
 
-- 
2.43.0


From 717f062da8e7bfd8b50630d8fe7c5447c85fd9a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:14 +0000
Subject: [PATCH 06/36] fix: do not parse what follows the tag in a buffer

read_tag_from_buffer accepted frames reaching into the bytes after the
tag and counted those bytes as padding of the tag.
---
 src/modules/tag.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/modules/tag.c b/src/modules/tag.c
index ce971b7..dcf030e 100644
--- a/src/modules/tag.c
+++ b/src/modules/tag.c
@@ -48,6 +48,9 @@ ID3v2_Tag* Tag_parse(CharStream* tag_cs)
 
     ID3v2_Tag* tag = ID3v2_Tag_new(header, 0);
 
+    // Whatever the buffer holds after the tag (usually audio) is not part of it
+    tag_cs->size = clamp_int(header->tag_size + ID3v2_TAG_HEADER_LENGTH, 0, tag_cs->size);
+
     if (header->extended_header_size > 0)
     {
         // An extended header exists, skip what follows its size field (in v2.4, the size
-- 
2.43.0


From fc1f3c9e8874a738a60eb7909f6578ba2f48e798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:14 +0000
Subject: [PATCH 07/36] fix: only parse the bytes that were actually read from
 the file

With a file shorter than its tag claims to be, the rest of the buffer
was parsed uninitialized.
---
 src/id3v2lib.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/id3v2lib.c b/src/id3v2lib.c
index b245bad..608b7e0 100644
--- a/src/id3v2lib.c
+++ b/src/id3v2lib.c
@@ -60,10 +60,10 @@ ID3v2_Tag* ID3v2_read_tag(const char* file_name)
         return NULL;
     }
 
-    fread(tag_buffer, buffer_length, 1, file);
+    const int bytes_read = fread(tag_buffer, sizeof(char), buffer_length, file);
     fclose(file);
 
-    ID3v2_Tag* tag = ID3v2_read_tag_from_buffer(tag_buffer, buffer_length);
+    ID3v2_Tag* tag = ID3v2_read_tag_from_buffer(tag_buffer, bytes_read);
 
     free(tag_buffer);
     ID3v2_TagHeader_free(tag_header);
-- 
2.43.0


From 3fcc08c25e684d76e5533601754ff617bfe22dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:14 +0000
Subject: [PATCH 08/36] fix: only treat COMM and APIC as comment and picture
 frames

Every frame whose id starts with C or A (CHAP, CTOC, COMR, AENC, ...)
was parsed as a comment or picture and renamed to COMM or APIC.
---
 src/modules/frame_header.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/modules/frame_header.c b/src/modules/frame_header.c
index 8bfb9c8..5928e7e 100644
--- a/src/modules/frame_header.c
+++ b/src/modules/frame_header.c
@@ -13,6 +13,7 @@
 #include <string.h>
 
 #include "modules/char_stream.private.h"
+#include "modules/frame_ids.h"
 #include "modules/utils.private.h"
 
 #include "frame_header.private.h"
@@ -87,12 +88,12 @@ bool FrameHeader_isTextFrame(ID3v2_FrameHeader* header)
 
 bool FrameHeader_isCommentFrame(ID3v2_FrameHeader* header)
 {
-    return header->id[0] == 'C';
+    return memcmp(header->id, ID3v2_COMMENT_FRAME_ID, ID3v2_FRAME_HEADER_ID_LENGTH) == 0;
 }
 
 bool FrameHeader_isApicFrame(ID3v2_FrameHeader* header)
 {
-    return header->id[0] == 'A';
+    return memcmp(header->id, ID3v2_ALBUM_COVER_FRAME_ID, ID3v2_FRAME_HEADER_ID_LENGTH) == 0;
 }
 
 void FrameHeader_free(ID3v2_FrameHeader* header)
-- 
2.43.0


From 1b4fe2f6dbcb5aaef8687be9abd7697a3fbc7e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:14 +0000
Subject: [PATCH 09/36] fix: keep the encoding and the whole text of parsed
 text frames

Text frames were copied to the stack and measured with strlen, reading
out of bounds when the text is not terminated (which the spec does not
require), dropping everything after the first terminator (user defined
text, multiple strings, UTF-16 without BOM) and replacing the encoding.
---
 src/modules/frames/text_frame.c | 19 ++++++++++---------
 src/modules/utils.private.h     |  3 +++
 2 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/modules/frames/text_frame.c b/src/modules/frames/text_frame.c
index 54cec80..5e839eb 100644
--- a/src/modules/frames/text_frame.c
+++ b/src/modules/frames/text_frame.c
@@ -34,15 +34,16 @@ ID3v2_TextFrame* TextFrame_parse(CharStream* frame_cs, const int id3_major_versi
 {
     ID3v2_FrameHeader* header = FrameHeader_parse(frame_cs, id3_major_version);
 
-    CharStream_seek(frame_cs, ID3v2_FRAME_ENCODING_LENGTH, SEEK_CUR); // skip encoding
-
-    const int text_size = header->size - ID3v2_FRAME_ENCODING_LENGTH;
-    char text[text_size];
-    CharStream_read(frame_cs, text, text_size);
-
-    ID3v2_TextFrame* frame = TextFrame_new(header->id, header->flags, text);
-
-    FrameHeader_free(header); // we only needed the header to parse the data
+    ID3v2_TextFrame* frame = (ID3v2_TextFrame*) malloc(sizeof(ID3v2_TextFrame));
+    frame->header = header;
+    frame->data = (ID3v2_TextFrameData*) malloc(sizeof(ID3v2_TextFrameData));
+    frame->data->encoding = CharStream_getc(frame_cs);
+    frame->data->size = header->size - ID3v2_FRAME_ENCODING_LENGTH;
+
+    // The text might not be terminated and might hold several strings, so keep all of it and
+    // append some zeros (not part of the frame) to make it safe to use as a string
+    frame->data->text = (char*) calloc(frame->data->size + STR_GUARD_LENGTH, sizeof(char));
+    CharStream_read(frame_cs, frame->data->text, frame->data->size);
 
     return frame;
 }
diff --git a/src/modules/utils.private.h b/src/modules/utils.private.h
index b58892f..34c02a2 100644
--- a/src/modules/utils.private.h
+++ b/src/modules/utils.private.h
@@ -14,6 +14,9 @@
 
 #include "modules/utils.h"
 
+// Zeros needed after a parsed payload for any string in it to be terminated
+#define STR_GUARD_LENGTH 8
+
 unsigned int btoi(const char* bytes, int size);
 char* itob(int integer);
 int syncint_encode(int value);
-- 
2.43.0


From d69314b945dd59107d831cadee89011b205b79f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:06 +0000
Subject: [PATCH 10/36] fix: parse comment frames within their bounds and keep
 their encoding

The description and the comment were measured with strlen, so a comment
that is not terminated (which the spec does not require) swallowed the
following frame or read out of bounds, the rest of the tag was parsed
from the wrong position, and the encoding was replaced.
---
 src/modules/frames/comment_frame.c | 34 +++++++++++++++++++-----------
 src/modules/utils.c                | 18 ++++++++++++++++
 src/modules/utils.private.h        |  4 ++++
 3 files changed, 44 insertions(+), 12 deletions(-)

diff --git a/src/modules/frames/comment_frame.c b/src/modules/frames/comment_frame.c
index 947f72d..f2cd6bd 100644
--- a/src/modules/frames/comment_frame.c
+++ b/src/modules/frames/comment_frame.c
@@ -43,22 +43,32 @@ ID3v2_CommentFrame* CommentFrame_parse(CharStream* frame_cs, const int id3_major
 {
     ID3v2_FrameHeader* header = FrameHeader_parse(frame_cs, id3_major_version);
 
-    CharStream_seek(frame_cs, ID3v2_FRAME_ENCODING_LENGTH, SEEK_CUR); // skip encoding
+    // Work on a zero padded copy of the payload so no string in it can run past its end
+    CharStream* data_cs = CharStream_new(header->size + STR_GUARD_LENGTH);
+    CharStream_read(frame_cs, data_cs->stream, header->size);
 
-    char lang[ID3v2_COMMENT_FRAME_LANGUAGE_LENGTH];
-    CharStream_read(frame_cs, lang, ID3v2_COMMENT_FRAME_LANGUAGE_LENGTH);
+    ID3v2_CommentFrame* frame = (ID3v2_CommentFrame*) malloc(sizeof(ID3v2_CommentFrame));
+    ID3v2_CommentFrameData* data = (ID3v2_CommentFrameData*) malloc(sizeof(ID3v2_CommentFrameData));
 
-    const int short_desc_size = ID3v2_strlent(CharStream_get_cur(frame_cs));
-    char short_desc[short_desc_size];
-    CharStream_read(frame_cs, short_desc, short_desc_size);
+    data->encoding = CharStream_getc(data_cs);
+    CharStream_read(data_cs, data->language, ID3v2_COMMENT_FRAME_LANGUAGE_LENGTH);
+
+    const int short_desc_size = encoded_strlent(CharStream_get_cur(data_cs), data->encoding);
+    data->short_description = (char*) malloc(short_desc_size * sizeof(char));
+    CharStream_read(data_cs, data->short_description, short_desc_size);
 
-    const int comment_size = ID3v2_strlent(CharStream_get_cur(frame_cs));
-    char comment[comment_size];
-    CharStream_read(frame_cs, comment, comment_size);
+    // The comment takes whatever is left and it might not be terminated
+    data->size = clamp_int(header->size - data_cs->cursor, 0, header->size);
+    data->comment = (char*) calloc(data->size + STR_GUARD_LENGTH, sizeof(char));
+    CharStream_read(data_cs, data->comment, data->size);
 
-    ID3v2_CommentFrame* frame = CommentFrame_new(header->flags, lang, short_desc, comment);
+    // Only differs from the parsed size if the frame was cut short
+    header->size = ID3v2_FRAME_ENCODING_LENGTH + ID3v2_COMMENT_FRAME_LANGUAGE_LENGTH +
+                   short_desc_size + data->size;
 
-    FrameHeader_free(header); // we only needed the header to parse the data
+    frame->header = header;
+    frame->data = data;
+    CharStream_free(data_cs);
 
     return frame;
 }
@@ -80,7 +90,7 @@ CharStream* CommentFrame_to_char_stream(ID3v2_CommentFrame* frame)
     CharStream_write(
         frame_cs,
         frame->data->short_description,
-        ID3v2_strlent(frame->data->short_description)
+        encoded_strlent(frame->data->short_description, frame->data->encoding)
     );
     CharStream_write(frame_cs, frame->data->comment, frame->data->size);
 
diff --git a/src/modules/utils.c b/src/modules/utils.c
index 9322291..d780a47 100644
--- a/src/modules/utils.c
+++ b/src/modules/utils.c
@@ -79,6 +79,24 @@ int ID3v2_strlent(const char* string)
     return ID3v2_strlen(string) + termination_character_length;
 }
 
+/**
+ * Like ID3v2_strlent but for a string that's part of a frame with the given encoding,
+ * needed because UTF-16BE strings don't have a BOM.
+ */
+int encoded_strlent(const char* string, const char encoding)
+{
+    if (encoding != ENCODING_UTF16BE) return ID3v2_strlent(string);
+
+    int length = 0;
+
+    while (string[length] != 0x00 || string[length + 1] != 0x00)
+    {
+        length += 2;
+    }
+
+    return length + 2;
+}
+
 unsigned int btoi(const char* bytes, int size)
 {
     unsigned int result = 0x00;
diff --git a/src/modules/utils.private.h b/src/modules/utils.private.h
index 34c02a2..0e01edf 100644
--- a/src/modules/utils.private.h
+++ b/src/modules/utils.private.h
@@ -17,11 +17,15 @@
 // Zeros needed after a parsed payload for any string in it to be terminated
 #define STR_GUARD_LENGTH 8
 
+// UTF-16 without BOM (v2.4)
+#define ENCODING_UTF16BE 2
+
 unsigned int btoi(const char* bytes, int size);
 char* itob(int integer);
 int syncint_encode(int value);
 unsigned int syncint_decode(int value);
 int clamp_int(const int value, const int min, const int max);
 bool string_has_bom(const char* string);
+int encoded_strlent(const char* string, const char encoding);
 
 #endif
-- 
2.43.0


From 39e54d2a4964e30cf20bc5c4a20d3571c83214b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:06 +0000
Subject: [PATCH 11/36] fix: parse picture frames within their bounds and keep
 their encoding

The MIME type and the description were measured with strlen and the
picture was copied to the stack: damaged frames were read out of bounds
or produced negative sizes, big pictures overflowed the stack, and the
encoding of the description was replaced.
---
 src/modules/frames/apic_frame.c | 45 +++++++++++++++++++++------------
 1 file changed, 29 insertions(+), 16 deletions(-)

diff --git a/src/modules/frames/apic_frame.c b/src/modules/frames/apic_frame.c
index ba1d9cd..b156fa5 100644
--- a/src/modules/frames/apic_frame.c
+++ b/src/modules/frames/apic_frame.c
@@ -48,27 +48,36 @@ ID3v2_ApicFrame* ApicFrame_parse(CharStream* frame_cs, const int id3_major_versi
 {
     ID3v2_FrameHeader* header = FrameHeader_parse(frame_cs, id3_major_version);
 
-    CharStream_seek(frame_cs, ID3v2_FRAME_ENCODING_LENGTH, SEEK_CUR); // skip encoding
+    // Work on a zero padded copy of the payload so no string in it can run past its end
+    CharStream* data_cs = CharStream_new(header->size + STR_GUARD_LENGTH);
+    CharStream_read(frame_cs, data_cs->stream, header->size);
 
-    const int mime_type_size = ID3v2_strlent(CharStream_get_cur(frame_cs));
-    char mime_type[mime_type_size];
-    CharStream_read(frame_cs, mime_type, mime_type_size);
+    ID3v2_ApicFrame* frame = (ID3v2_ApicFrame*) malloc(sizeof(ID3v2_ApicFrame));
+    ID3v2_ApicFrameData* data = (ID3v2_ApicFrameData*) malloc(sizeof(ID3v2_ApicFrameData));
+
+    data->encoding = CharStream_getc(data_cs);
+
+    const int mime_type_size = ID3v2_strlent(CharStream_get_cur(data_cs));
+    data->mime_type = (char*) malloc(mime_type_size * sizeof(char));
+    CharStream_read(data_cs, data->mime_type, mime_type_size);
 
-    const char picture_type = CharStream_getc(frame_cs);
+    data->picture_type = CharStream_getc(data_cs);
 
-    const int description_size = ID3v2_strlent(CharStream_get_cur(frame_cs));
-    char description[description_size];
-    CharStream_read(frame_cs, description, description_size);
+    const int description_size = encoded_strlent(CharStream_get_cur(data_cs), data->encoding);
+    data->description = (char*) malloc(description_size * sizeof(char));
+    CharStream_read(data_cs, data->description, description_size);
 
-    const int pic_size = header->size - ID3v2_FRAME_ENCODING_LENGTH - mime_type_size -
-                         ID3v2_APIC_FRAME_PICTURE_TYPE_LENGTH - description_size;
-    char pic_data[pic_size];
-    CharStream_read(frame_cs, pic_data, pic_size);
+    data->picture_size = clamp_int(header->size - data_cs->cursor, 0, header->size);
+    data->data = (char*) malloc(data->picture_size * sizeof(char));
+    CharStream_read(data_cs, data->data, data->picture_size);
 
-    ID3v2_ApicFrame* frame =
-        ApicFrame_new(header->flags, description, picture_type, mime_type, pic_size, pic_data);
+    // Only differs from the parsed size if the frame was cut short
+    header->size = ID3v2_FRAME_ENCODING_LENGTH + mime_type_size +
+                   ID3v2_APIC_FRAME_PICTURE_TYPE_LENGTH + description_size + data->picture_size;
 
-    FrameHeader_free(header); // we only needed the header to parse the data
+    frame->header = header;
+    frame->data = data;
+    CharStream_free(data_cs);
 
     return frame;
 }
@@ -88,7 +97,11 @@ CharStream* ApicFrame_to_char_stream(ID3v2_ApicFrame* frame)
     CharStream_write(frame_cs, &frame->data->encoding, ID3v2_FRAME_ENCODING_LENGTH);
     CharStream_write(frame_cs, frame->data->mime_type, ID3v2_strlent(frame->data->mime_type));
     CharStream_write(frame_cs, &frame->data->picture_type, ID3v2_APIC_FRAME_PICTURE_TYPE_LENGTH);
-    CharStream_write(frame_cs, frame->data->description, ID3v2_strlent(frame->data->description));
+    CharStream_write(
+        frame_cs,
+        frame->data->description,
+        encoded_strlent(frame->data->description, frame->data->encoding)
+    );
     CharStream_write(frame_cs, frame->data->data, frame->data->picture_size);
 
     return frame_cs;
-- 
2.43.0


From ba547af3ffb8ef000528171260e89690987c8bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:53 +0000
Subject: [PATCH 12/36] fix: count the frame header when a frame is added to a
 tag

The size of the tag only grew by the size of the payload (deleting a
frame does subtract the header too), so writing the tag overflowed its
buffer.
---
 src/modules/tag.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/modules/tag.c b/src/modules/tag.c
index dcf030e..6542bed 100644
--- a/src/modules/tag.c
+++ b/src/modules/tag.c
@@ -213,7 +213,7 @@ void ID3v2_Tag_set_text_frame(ID3v2_Tag* tag, ID3v2_TextFrameInput* input)
     if (existing_frame == NULL)
     {
         FrameList_add_frame(tag->frames, (ID3v2_Frame*) new_frame);
-        tag->header->tag_size += new_frame->header->size;
+        tag->header->tag_size += new_frame->header->size + ID3v2_FRAME_HEADER_LENGTH;
     }
     else
     {
@@ -347,7 +347,7 @@ void ID3v2_Tag_set_comment_frame(ID3v2_Tag* tag, ID3v2_CommentFrameInput* input)
     if (existing_frame == NULL)
     {
         FrameList_add_frame(tag->frames, (ID3v2_Frame*) new_frame);
-        tag->header->tag_size += new_frame->header->size;
+        tag->header->tag_size += new_frame->header->size + ID3v2_FRAME_HEADER_LENGTH;
     }
     else
     {
@@ -366,7 +366,7 @@ void ID3v2_Tag_add_comment_frame(ID3v2_Tag* tag, ID3v2_CommentFrameInput* input)
     ID3v2_CommentFrame* new_frame =
         CommentFrame_new(input->flags, input->language, input->short_description, input->comment);
     FrameList_add_frame(tag->frames, (ID3v2_Frame*) new_frame);
-    tag->header->tag_size += new_frame->header->size;
+    tag->header->tag_size += new_frame->header->size + ID3v2_FRAME_HEADER_LENGTH;
 }
 
 void ID3v2_Tag_set_comment(ID3v2_Tag* tag, const char* lang, const char* comment)
@@ -400,7 +400,7 @@ void ID3v2_Tag_set_apic_frame(ID3v2_Tag* tag, ID3v2_ApicFrameInput* input)
     if (existing_frame == NULL)
     {
         FrameList_add_frame(tag->frames, (ID3v2_Frame*) new_frame);
-        tag->header->tag_size += new_frame->header->size;
+        tag->header->tag_size += new_frame->header->size + ID3v2_FRAME_HEADER_LENGTH;
     }
     else
     {
@@ -425,7 +425,7 @@ void ID3v2_Tag_add_apic_frame(ID3v2_Tag* tag, ID3v2_ApicFrameInput* input)
         input->data
     );
     FrameList_add_frame(tag->frames, (ID3v2_Frame*) new_frame);
-    tag->header->tag_size += new_frame->header->size;
+    tag->header->tag_size += new_frame->header->size + ID3v2_FRAME_HEADER_LENGTH;
 }
 
 /**
-- 
2.43.0


From 5c3db4df1566ca3f17ea717c7a454cfe70c02714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:53 +0000
Subject: [PATCH 13/36] fix: write the padding and size the tag from its frames

The padding added when writing was never part of the written tag, and
the size of a parsed tag does not need to match its frames (damaged tags,
extended header), which overflowed the buffer of the tag.
---
 src/modules/tag.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/modules/tag.c b/src/modules/tag.c
index 6542bed..6925df6 100644
--- a/src/modules/tag.c
+++ b/src/modules/tag.c
@@ -75,6 +75,14 @@ ID3v2_Tag* Tag_parse(CharStream* tag_cs)
 
 CharStream* Tag_to_char_stream(ID3v2_Tag* tag)
 {
+    // The tag consists of its frames plus the padding
+    tag->header->tag_size = tag->padding_size;
+
+    for (ID3v2_FrameList* it = tag->frames; it != NULL && it->frame != NULL; it = it->next)
+    {
+        tag->header->tag_size += it->frame->header->size + ID3v2_FRAME_HEADER_LENGTH;
+    }
+
     CharStream* tag_cs = CharStream_new(tag->header->tag_size + ID3v2_TAG_HEADER_LENGTH);
 
     // Write header
-- 
2.43.0


From a86729cecefcd2ca631f498e234e74e3858fb09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:53 +0000
Subject: [PATCH 14/36] fix: do not announce an extended header or footer that
 is not written

The flags of the parsed tag were written back but the extended header
and the footer were not, so the frames of the written tag were lost to
every reader.
---
 src/modules/tag.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/modules/tag.c b/src/modules/tag.c
index 6925df6..7121bba 100644
--- a/src/modules/tag.c
+++ b/src/modules/tag.c
@@ -85,6 +85,10 @@ CharStream* Tag_to_char_stream(ID3v2_Tag* tag)
 
     CharStream* tag_cs = CharStream_new(tag->header->tag_size + ID3v2_TAG_HEADER_LENGTH);
 
+    // Neither the extended header nor the footer are written, so don't announce them
+    tag->header->flags &= ~((1 << 6) | (1 << 4));
+    tag->header->extended_header_size = 0;
+
     // Write header
     CharStream_write(tag_cs, tag->header->identifier, ID3v2_TAG_HEADER_IDENTIFIER_LENGTH);
     CharStream_write(tag_cs, &tag->header->major_version, ID3v2_TAG_HEADER_MAJOR_VERSION_LENGTH);
-- 
2.43.0


From d7368c710747ad47d104beeb4bc9feccee671a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:53 +0000
Subject: [PATCH 15/36] fix: write syncsafe frame sizes in v2.4 tags

Frame sizes were always written as plain integers, but in v2.4 they are
read (and specified) as syncsafe ones, so frames of more than 127 bytes
were damaged by a rewrite.
---
 src/modules/tag.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/modules/tag.c b/src/modules/tag.c
index 7121bba..f216784 100644
--- a/src/modules/tag.c
+++ b/src/modules/tag.c
@@ -114,6 +114,15 @@ CharStream* Tag_to_char_stream(ID3v2_Tag* tag)
 
         if (frame_cs == NULL) exit(1);
 
+        if (tag->header->major_version == 4)
+        {
+            // Frame sizes are syncsafe integers in v2.4
+            char* frame_size_bytes = itob(syncint_encode(frames->frame->header->size));
+            CharStream_seek(frame_cs, ID3v2_FRAME_HEADER_ID_LENGTH, SEEK_SET);
+            CharStream_write(frame_cs, frame_size_bytes, ID3v2_FRAME_HEADER_SIZE_LENGTH);
+            free(frame_size_bytes);
+        }
+
         CharStream_write(tag_cs, frame_cs->stream, frame_cs->size);
         CharStream_free(frame_cs);
 
-- 
2.43.0


From 44fd73f2c53df6a94cdf239bdcc225cfb78be5f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:53 +0000
Subject: [PATCH 16/36] fix: take the footer into account when replacing or
 deleting a v2.4 tag

The footer of the old tag was left in the file as if it was audio.
---
 src/id3v2lib.c                   | 4 ++--
 src/modules/tag_header.c         | 9 +++++++++
 src/modules/tag_header.private.h | 1 +
 3 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/id3v2lib.c b/src/id3v2lib.c
index 608b7e0..0f140cf 100644
--- a/src/id3v2lib.c
+++ b/src/id3v2lib.c
@@ -85,7 +85,7 @@ void ID3v2_write_tag(const char* file_name, ID3v2_Tag* tag)
 
     ID3v2_TagHeader* existing_tag_header = ID3v2_read_tag_header(file_name);
     const int original_size =
-        existing_tag_header != NULL ? existing_tag_header->tag_size + ID3v2_TAG_HEADER_LENGTH : 0;
+        existing_tag_header != NULL ? TagHeader_get_full_size(existing_tag_header) : 0;
     free(existing_tag_header);
 
     const int extra_padding_length = clamp_int(
@@ -139,7 +139,7 @@ void ID3v2_delete_tag(const char* file_name)
     FILE* file_fp = fopen(file_name, "rb");
     FILE* temp_fp = tmpfile();
 
-    fseek(file_fp, tag_header->tag_size + ID3v2_TAG_HEADER_LENGTH, SEEK_SET);
+    fseek(file_fp, TagHeader_get_full_size(tag_header), SEEK_SET);
 
     int c = 0;
 
diff --git a/src/modules/tag_header.c b/src/modules/tag_header.c
index 92cffe6..04c2964 100644
--- a/src/modules/tag_header.c
+++ b/src/modules/tag_header.c
@@ -83,6 +83,15 @@ ID3v2_TagHeader* TagHeader_parse(CharStream* header_cs)
     return TagHeader_new(major_version, minor_version, flags, tag_size, extended_header_size);
 }
 
+/**
+ * Bytes taken by the whole tag, including its header and, in v2.4, its footer
+ */
+int TagHeader_get_full_size(ID3v2_TagHeader* header)
+{
+    const bool has_footer = header->major_version == 4 && (header->flags & (1 << 4)) != 0;
+    return header->tag_size + ID3v2_TAG_HEADER_LENGTH + (has_footer ? ID3v2_TAG_HEADER_LENGTH : 0);
+}
+
 void ID3v2_TagHeader_free(ID3v2_TagHeader* header)
 {
     free(header);
diff --git a/src/modules/tag_header.private.h b/src/modules/tag_header.private.h
index 011e39c..3fab59a 100644
--- a/src/modules/tag_header.private.h
+++ b/src/modules/tag_header.private.h
@@ -23,5 +23,6 @@ ID3v2_TagHeader* TagHeader_new(
 );
 ID3v2_TagHeader* TagHeader_new_empty();
 ID3v2_TagHeader* TagHeader_parse(CharStream* stream);
+int TagHeader_get_full_size(ID3v2_TagHeader* header);
 
 #endif
-- 
2.43.0


From cf3d203cad40c40d1b2a08d306004f2e4075bc37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:53 +0000
Subject: [PATCH 17/36] fix: remove the node of the last frame of a list

Removing the last frame of a list left an empty node behind: frames
added afterwards could not be found, writing the tag ended the process,
and the next removal crashed. Removing from an empty list crashed too.
---
 src/modules/frame_list.c | 31 +++++++++++++------------------
 1 file changed, 13 insertions(+), 18 deletions(-)

diff --git a/src/modules/frame_list.c b/src/modules/frame_list.c
index 13e464f..a31bc23 100644
--- a/src/modules/frame_list.c
+++ b/src/modules/frame_list.c
@@ -115,39 +115,34 @@ void ID3v2_FrameList_unlink(ID3v2_FrameList* list)
 
 ID3v2_Frame* FrameList_remove_frame_by_id(ID3v2_FrameList* list, const char* frame_id)
 {
-    if (list == NULL) return NULL;
-
-    while (list != NULL)
-    {
-        if (strncmp(list->frame->header->id, frame_id, 4) == 0)
-        {
-            ID3v2_Frame* removed = list->frame;
-            ID3v2_FrameList* new_head_old_ptr = list->next != NULL ? list->next : FrameList_new();
-            *list = *new_head_old_ptr;
-            free(new_head_old_ptr);
-            return removed;
-        }
-
-        list = list->next;
-    }
-
-    return NULL;
+    return FrameList_remove_frame(list, FrameList_get_frame_by_id(list, frame_id));
 }
 
 ID3v2_Frame* FrameList_remove_frame(ID3v2_FrameList* list, ID3v2_Frame* to_remove)
 {
-    if (list == NULL) return NULL;
+    if (list == NULL || to_remove == NULL) return NULL;
+
+    ID3v2_FrameList* previous = NULL;
 
     while (list != NULL)
     {
         if (list->frame == to_remove)
         {
+            if (list->next == NULL && previous != NULL)
+            {
+                // Removing the last node must not leave an empty node behind
+                previous->next = NULL;
+                free(list);
+                return to_remove;
+            }
+
             ID3v2_FrameList* new_head_old_ptr = list->next != NULL ? list->next : FrameList_new();
             *list = *new_head_old_ptr;
             free(new_head_old_ptr);
             return to_remove;
         }
 
+        previous = list;
         list = list->next;
     }
 
-- 
2.43.0


From c751f366ec884631bdaf074ce104115b959cab21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:53 +0000
Subject: [PATCH 18/36] fix: ignore deleting a frame that does not exist

It dereferenced a NULL frame.
---
 src/modules/tag.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/modules/tag.c b/src/modules/tag.c
index f216784..c6eee7a 100644
--- a/src/modules/tag.c
+++ b/src/modules/tag.c
@@ -482,6 +482,9 @@ void ID3v2_Tag_free(ID3v2_Tag* tag)
 void ID3v2_Tag_delete_frame(ID3v2_Tag* tag, const char* frame_id)
 {
     ID3v2_Frame* deleted = FrameList_remove_frame_by_id(tag->frames, frame_id);
+
+    if (deleted == NULL) return; // there's no such frame
+
     tag->header->tag_size -= deleted->header->size + ID3v2_FRAME_HEADER_LENGTH;
     // Maybe we should just return the frame instead of taking the responsibility
     // of freeing it?
-- 
2.43.0


From 8628c9a55aa02d76aeb2a40093a7a03ae2c755c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:53 +0000
Subject: [PATCH 19/36] fix: release the whole list and update the size when
 deleting by index

The nodes before the deleted comment or picture (all of them, with an
index out of range) were leaked and the size of the tag was not updated.
---
 src/modules/tag.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/modules/tag.c b/src/modules/tag.c
index c6eee7a..96e9b9c 100644
--- a/src/modules/tag.c
+++ b/src/modules/tag.c
@@ -539,14 +539,16 @@ void ID3v2_Tag_delete_composer(ID3v2_Tag* tag)
 void ID3v2_Tag_delete_comment_frame(ID3v2_Tag* tag, const int index)
 {
     int i = 0;
-    ID3v2_FrameList* head = ID3v2_Tag_get_comment_frames(tag);
+    ID3v2_FrameList* list = ID3v2_Tag_get_comment_frames(tag);
+    ID3v2_FrameList* head = list;
 
-    while (head != NULL)
+    while (head != NULL && head->frame != NULL)
     {
         ID3v2_CommentFrame* to_delete = (ID3v2_CommentFrame*) head->frame;
 
         if (i == index)
         {
+            tag->header->tag_size -= to_delete->header->size + ID3v2_FRAME_HEADER_LENGTH;
             FrameList_remove_frame(tag->frames, (ID3v2_Frame*) to_delete);
             ID3v2_Frame_free((ID3v2_Frame*) to_delete);
             break;
@@ -556,7 +558,7 @@ void ID3v2_Tag_delete_comment_frame(ID3v2_Tag* tag, const int index)
         head = head->next;
     }
 
-    ID3v2_FrameList_unlink(head);
+    ID3v2_FrameList_unlink(list);
 }
 
 void ID3v2_Tag_delete_comment(ID3v2_Tag* tag)
@@ -567,14 +569,16 @@ void ID3v2_Tag_delete_comment(ID3v2_Tag* tag)
 void ID3v2_Tag_delete_apic_frame(ID3v2_Tag* tag, const int index)
 {
     int i = 0;
-    ID3v2_FrameList* head = ID3v2_Tag_get_apic_frames(tag);
+    ID3v2_FrameList* list = ID3v2_Tag_get_apic_frames(tag);
+    ID3v2_FrameList* head = list;
 
-    while (head != NULL)
+    while (head != NULL && head->frame != NULL)
     {
         ID3v2_ApicFrame* to_delete = (ID3v2_ApicFrame*) head->frame;
 
         if (i == index)
         {
+            tag->header->tag_size -= to_delete->header->size + ID3v2_FRAME_HEADER_LENGTH;
             FrameList_remove_frame(tag->frames, (ID3v2_Frame*) to_delete);
             ID3v2_Frame_free((ID3v2_Frame*) to_delete);
             break;
@@ -584,7 +588,7 @@ void ID3v2_Tag_delete_apic_frame(ID3v2_Tag* tag, const int index)
         head = head->next;
     }
 
-    ID3v2_FrameList_unlink(head);
+    ID3v2_FrameList_unlink(list);
 }
 
 void ID3v2_Tag_delete_album_cover(ID3v2_Tag* tag)
-- 
2.43.0


From 6c52a0e128c1e545f5b933653e47abcb4800ea7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:50 +0000
Subject: [PATCH 20/36] fix: release the memory of frames of unknown type

The frame itself was leaked when freed, and its serialized header when
written.
---
 src/modules/frame.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/modules/frame.c b/src/modules/frame.c
index 29d775e..257ae51 100644
--- a/src/modules/frame.c
+++ b/src/modules/frame.c
@@ -78,6 +78,7 @@ CharStream* Frame_to_char_stream(ID3v2_Frame* frame)
         CharStream* frame_cs = CharStream_new(frame->header->size + ID3v2_FRAME_HEADER_LENGTH);
         CharStream* header_cs = FrameHeader_to_char_stream(frame->header);
         CharStream_write(frame_cs, header_cs->stream, ID3v2_FRAME_HEADER_LENGTH);
+        CharStream_free(header_cs);
         CharStream_write(frame_cs, frame->data, frame->header->size);
         return frame_cs;
     }
@@ -104,5 +105,6 @@ void ID3v2_Frame_free(ID3v2_Frame* frame)
         // Unknown frame id, naively try our best to free it
         free(frame->header);
         free(frame->data);
+        free(frame);
     }
 }
-- 
2.43.0


From 2090c563508a8ccf21ca0e5a3ea4f70e6d296574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:50 +0000
Subject: [PATCH 21/36] fix: encode the empty description of a comment like the
 comment

A comment set without BOM got a UTF-16 description in a frame marked as
ISO-8859-1, so other readers see a bogus description and no comment.
---
 src/modules/tag.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/modules/tag.c b/src/modules/tag.c
index 96e9b9c..b8a4283 100644
--- a/src/modules/tag.c
+++ b/src/modules/tag.c
@@ -397,7 +397,8 @@ void ID3v2_Tag_set_comment(ID3v2_Tag* tag, const char* lang, const char* comment
         &(ID3v2_CommentFrameInput){
             .flags = "\0\0",
             .language = lang,
-            .short_description = EMPTY_UNICODE_STR,
+            // There's only one encoding for the whole frame
+            .short_description = string_has_bom(comment) ? EMPTY_UNICODE_STR : "",
             .comment = comment,
         }
     );
-- 
2.43.0


From 94ef39e389b860875a3859cf7a314d34a39338a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:50 +0000
Subject: [PATCH 22/36] fix: use the padding size given to ID3v2_Tag_new

It was ignored.
---
 src/modules/tag.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/tag.c b/src/modules/tag.c
index b8a4283..f47cc53 100644
--- a/src/modules/tag.c
+++ b/src/modules/tag.c
@@ -31,7 +31,7 @@ ID3v2_Tag* ID3v2_Tag_new(ID3v2_TagHeader* header, const int padding_size)
     ID3v2_Tag* tag = (ID3v2_Tag*) malloc(sizeof(ID3v2_Tag));
     tag->header = header == NULL ? TagHeader_new_empty() : header;
     tag->frames = FrameList_new();
-    tag->padding_size = 0;
+    tag->padding_size = padding_size;
 
     return tag;
 }
-- 
2.43.0


From d057a218ec4dfec8b9fc56be97d4e0094f5e2dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:50 +0000
Subject: [PATCH 23/36] fix: do not read the tag from a file that could not be
 opened

The file is opened a second time after reading its header, which can
fail.
---
 src/id3v2lib.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/id3v2lib.c b/src/id3v2lib.c
index 0f140cf..417c920 100644
--- a/src/id3v2lib.c
+++ b/src/id3v2lib.c
@@ -49,6 +49,13 @@ ID3v2_Tag* ID3v2_read_tag(const char* file_name)
     if (tag_header == NULL) return NULL;
 
     FILE* file = fopen(file_name, "rb");
+
+    if (file == NULL)
+    {
+        ID3v2_TagHeader_free(tag_header);
+        return NULL;
+    }
+
     int buffer_length = tag_header->tag_size + ID3v2_TAG_HEADER_LENGTH;
     char* tag_buffer = (char*) malloc((buffer_length) * sizeof(char));
 
-- 
2.43.0


From c22bef4e1ba7d76b20c3fceb9118f99373e394ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:50 +0000
Subject: [PATCH 24/36] fix: leave the file alone when writing its tag can not
 be prepared

A file that does not exist or can not be opened, or a temp file that can
not be created, crashed, and a failure to read the audio or to write the
temp file (e.g. disk full) replaced the file with the truncated copy.
---
 src/id3v2lib.c | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/id3v2lib.c b/src/id3v2lib.c
index 417c920..35c166b 100644
--- a/src/id3v2lib.c
+++ b/src/id3v2lib.c
@@ -7,6 +7,7 @@
  * file that was distributed with this source code.
  */
 
+#include <stdbool.h>
 #include <stdio.h>
 #include <stdlib.h>
 
@@ -105,13 +106,22 @@ void ID3v2_write_tag(const char* file_name, ID3v2_Tag* tag)
 
     // Perform operations on a temp file in case things go wrong
     FILE* temp_fp = tmpfile();
+    FILE* dest_fp = fopen(file_name, "r+b");
+
+    if (temp_fp == NULL || dest_fp == NULL)
+    {
+        if (temp_fp != NULL) fclose(temp_fp);
+        if (dest_fp != NULL) fclose(dest_fp);
+        CharStream_free(tag_cs);
+        return;
+    }
 
     // First write the tag to the temp file
     fwrite(tag_cs->stream, sizeof(char), tag_cs->size, temp_fp);
+    CharStream_free(tag_cs);
 
     // And then, read the original audio data and copy it to
     // the temp file so it's located after the tag
-    FILE* dest_fp = fopen(file_name, "r+b");
     fseek(dest_fp, original_size, SEEK_SET); // move to the end of the original tag
 
     int c = 0;
@@ -121,9 +131,18 @@ void ID3v2_write_tag(const char* file_name, ID3v2_Tag* tag)
         putc(c, temp_fp);
     }
 
-    // Finally copy the temp file back into the destination file
+    // Leave the destination file alone unless the temp file is complete
+    const bool is_complete = !ferror(dest_fp) && fflush(temp_fp) == 0 && !ferror(temp_fp);
     fclose(dest_fp);
-    dest_fp = fopen(file_name, "w+b");
+    dest_fp = is_complete ? fopen(file_name, "w+b") : NULL;
+
+    if (dest_fp == NULL)
+    {
+        fclose(temp_fp);
+        return;
+    }
+
+    // Finally copy the temp file back into the destination file
     fseek(temp_fp, 0L, SEEK_SET);
 
     while ((c = getc(temp_fp)) != EOF)
@@ -133,8 +152,6 @@ void ID3v2_write_tag(const char* file_name, ID3v2_Tag* tag)
 
     fclose(temp_fp);
     fclose(dest_fp);
-
-    CharStream_free(tag_cs);
 }
 
 void ID3v2_delete_tag(const char* file_name)
-- 
2.43.0


From 04f96a87b3f4aa780a897ccda6a3b4be30831813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:50 +0000
Subject: [PATCH 25/36] fix: leave the file alone when deleting its tag can not
 be prepared

As with writing: a read only file or a temp file that can not be created
crashed, and a failure to copy the audio truncated the file.
---
 src/id3v2lib.c | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/id3v2lib.c b/src/id3v2lib.c
index 35c166b..365c607 100644
--- a/src/id3v2lib.c
+++ b/src/id3v2lib.c
@@ -163,7 +163,17 @@ void ID3v2_delete_tag(const char* file_name)
     FILE* file_fp = fopen(file_name, "rb");
     FILE* temp_fp = tmpfile();
 
-    fseek(file_fp, TagHeader_get_full_size(tag_header), SEEK_SET);
+    const int tag_full_size = TagHeader_get_full_size(tag_header);
+    ID3v2_TagHeader_free(tag_header);
+
+    if (file_fp == NULL || temp_fp == NULL)
+    {
+        if (file_fp != NULL) fclose(file_fp);
+        if (temp_fp != NULL) fclose(temp_fp);
+        return;
+    }
+
+    fseek(file_fp, tag_full_size, SEEK_SET);
 
     int c = 0;
 
@@ -172,9 +182,18 @@ void ID3v2_delete_tag(const char* file_name)
         putc(c, temp_fp);
     }
 
-    // Finally copy the temp file back into the destination file
+    // Leave the file alone unless the temp file is complete
+    const bool is_complete = !ferror(file_fp) && fflush(temp_fp) == 0 && !ferror(temp_fp);
     fclose(file_fp);
-    file_fp = fopen(file_name, "w+b");
+    file_fp = is_complete ? fopen(file_name, "w+b") : NULL;
+
+    if (file_fp == NULL)
+    {
+        fclose(temp_fp);
+        return;
+    }
+
+    // Finally copy the temp file back into the destination file
     fseek(temp_fp, 0L, SEEK_SET);
 
     while ((c = getc(temp_fp)) != EOF)
@@ -182,8 +201,6 @@ void ID3v2_delete_tag(const char* file_name)
         putc(c, file_fp);
     }
 
-    ID3v2_TagHeader_free(tag_header);
-
     fclose(temp_fp);
     fclose(file_fp);
 }
-- 
2.43.0


From 75999a6dd770fd1c35554315a5c918fdf2f67894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:51 +0000
Subject: [PATCH 26/36] fix: copy both flag bytes of a frame in the compat
 layer

The length of the flags of the tag header was used.
---
 src/id3v2lib.compat.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/id3v2lib.compat.c b/src/id3v2lib.compat.c
index cb16591..52cbe12 100644
--- a/src/id3v2lib.compat.c
+++ b/src/id3v2lib.compat.c
@@ -41,7 +41,7 @@ ID3v2_frame* frame_to_compat_frame(ID3v2_Frame* frame)
     // Frame header
     memcpy(compat_frame->frame_id, frame->header->id, ID3v2_FRAME_HEADER_ID_LENGTH);
     compat_frame->size = frame->header->size;
-    memcpy(compat_frame->flags, frame->header->flags, ID3v2_TAG_HEADER_FLAGS_LENGTH);
+    memcpy(compat_frame->flags, frame->header->flags, ID3v2_FRAME_HEADER_FLAGS_LENGTH);
 
     // Frame data
     CharStream* frame_cs = Frame_to_char_stream(frame);
-- 
2.43.0


From e5e92a01a69f780bc67af0a9d687d100b1319d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:51 +0000
Subject: [PATCH 27/36] fix: initialize new compat tags

The header fields were garbage and freeing the tag freed a garbage
pointer.
---
 src/id3v2lib.compat.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/id3v2lib.compat.c b/src/id3v2lib.compat.c
index 52cbe12..bcc6e9f 100644
--- a/src/id3v2lib.compat.c
+++ b/src/id3v2lib.compat.c
@@ -29,6 +29,7 @@ ID3v2_frame_list* new_frame_list()
         list->frame = NULL;
         list->next = NULL;
         list->start = NULL;
+        list->last = NULL;
     }
 
     return list;
@@ -112,10 +113,12 @@ ID3v2_frame* get_from_list(ID3v2_frame_list* list, const char* frame_id)
 ID3v2_tag* new_tag()
 {
     ID3v2_tag* tag = (ID3v2_tag*) malloc(sizeof(ID3v2_tag));
-    ID3v2_header* header = (ID3v2_header*) malloc(sizeof(ID3v2_header));
+    ID3v2_header* header = (ID3v2_header*) calloc(1, sizeof(ID3v2_header));
 
     memcpy(header->tag, "ID3", ID3v2_TAG_HEADER_IDENTIFIER_LENGTH);
+    header->major_version = 3;
 
+    tag->raw = NULL;
     tag->tag_header = header;
     tag->frames = new_frame_list();
     tag->tag = ID3v2_Tag_new_empty();
-- 
2.43.0


From cbcdb9db7d0c81e6ecfb806e774d144d5bcee1c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:51 +0000
Subject: [PATCH 28/36] fix: add frames that are not in a compat tag yet

Setting a frame which the tag did not have dereferenced a NULL pointer.
---
 src/id3v2lib.compat.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/id3v2lib.compat.c b/src/id3v2lib.compat.c
index bcc6e9f..fdf676e 100644
--- a/src/id3v2lib.compat.c
+++ b/src/id3v2lib.compat.c
@@ -79,7 +79,9 @@ void add_to_list(ID3v2_frame_list* main, ID3v2_frame* frame)
 
 void add_uniq_to_list(ID3v2_frame_list* head, ID3v2_frame* frame)
 {
-    while (head != NULL)
+    ID3v2_frame_list* list = head;
+
+    while (head != NULL && head->frame != NULL)
     {
         if (memcmp(head->frame->frame_id, frame->frame_id, 4) == 0)
         {
@@ -92,7 +94,7 @@ void add_uniq_to_list(ID3v2_frame_list* head, ID3v2_frame* frame)
     }
 
     // not found
-    add_to_list(head->start, frame);
+    add_to_list(list, frame);
 }
 
 ID3v2_frame* get_from_list(ID3v2_frame_list* list, const char* frame_id)
-- 
2.43.0


From 5424a42f1f1dd309ba4fc32d2d288d4f6a08a092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:51 +0000
Subject: [PATCH 29/36] fix: support compat tags without frames

Loading or freeing a tag without frames crashed.
---
 src/id3v2lib.compat.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/id3v2lib.compat.c b/src/id3v2lib.compat.c
index fdf676e..1b95f0a 100644
--- a/src/id3v2lib.compat.c
+++ b/src/id3v2lib.compat.c
@@ -171,7 +171,7 @@ ID3v2_tag* load_tag_with_buffer(const char* buffer, int length)
     ID3v2_FrameList* head = tag->frames;
     ID3v2_frame_list* compat_frames = new_frame_list();
 
-    while (head != NULL)
+    while (head != NULL && head->frame != NULL)
     {
         ID3v2_frame* compat_frame = frame_to_compat_frame(head->frame);
         add_to_list(compat_frames, compat_frame);
@@ -209,7 +209,7 @@ void free_tag(ID3v2_tag* tag)
 
     while (list != NULL)
     {
-        free_frame(list->frame);
+        if (list->frame != NULL) free_frame(list->frame);
         ID3v2_frame_list* new_head = list->next;
         free(list);
         list = new_head;
-- 
2.43.0


From 6010926072c16873bdc145ac3217c0724a81b618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:51 +0000
Subject: [PATCH 30/36] fix: return NULL when there is no tag to load in the
 compat layer

Instead of crashing, so the documented idiom (load the tag and create a
new one if there is none) works. Also only parse the bytes that were
read from the file.
---
 src/id3v2lib.compat.c | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/id3v2lib.compat.c b/src/id3v2lib.compat.c
index 1b95f0a..88d0f5a 100644
--- a/src/id3v2lib.compat.c
+++ b/src/id3v2lib.compat.c
@@ -131,13 +131,23 @@ ID3v2_tag* new_tag()
 ID3v2_tag* load_tag(const char* file_name)
 {
     ID3v2_TagHeader* header = ID3v2_read_tag_header(file_name);
+
+    if (header == NULL) return NULL;
+
     FILE* fp = fopen(file_name, "rb");
+
+    if (fp == NULL)
+    {
+        ID3v2_TagHeader_free(header);
+        return NULL;
+    }
+
     const int buffer_size = header->tag_size + ID3v2_TAG_HEADER_LENGTH;
     char* buffer = (char*) malloc(buffer_size * sizeof(char));
-    fread(buffer, sizeof(char), buffer_size, fp);
+    const int bytes_read = fread(buffer, sizeof(char), buffer_size, fp);
     fclose(fp);
 
-    ID3v2_tag* tag = load_tag_with_buffer(buffer, buffer_size);
+    ID3v2_tag* tag = load_tag_with_buffer(buffer, bytes_read);
 
     free(buffer);
     ID3v2_TagHeader_free(header);
@@ -148,6 +158,9 @@ ID3v2_tag* load_tag(const char* file_name)
 ID3v2_tag* load_tag_with_buffer(const char* buffer, int length)
 {
     ID3v2_Tag* tag = ID3v2_read_tag_from_buffer(buffer, length);
+
+    if (tag == NULL) return NULL;
+
     ID3v2_tag* compat_tag = (ID3v2_tag*) malloc(sizeof(ID3v2_tag));
 
     compat_tag->tag_header = (ID3v2_header*) malloc(sizeof(ID3v2_header));
-- 
2.43.0


From 909bfee263309f864bea26e22c176e73885551cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:51 +0000
Subject: [PATCH 31/36] fix: do not crash on album cover files that are missing
 or have no extension

---
 src/id3v2lib.compat.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/id3v2lib.compat.c b/src/id3v2lib.compat.c
index 88d0f5a..067b506 100644
--- a/src/id3v2lib.compat.c
+++ b/src/id3v2lib.compat.c
@@ -439,6 +439,8 @@ void tag_set_album_cover(const char* filename, ID3v2_tag* tag)
     int image_size;
     char* mimetype;
 
+    if (album_cover == NULL) return;
+
     fseek(album_cover, 0, SEEK_END);
     image_size = (int) ftell(album_cover);
     fseek(album_cover, 0, SEEK_SET);
@@ -448,8 +450,9 @@ void tag_set_album_cover(const char* filename, ID3v2_tag* tag)
 
     fclose(album_cover);
 
-    mimetype =
-        strcmp(strrchr(filename, '.') + 1, "png") == 0 ? ID3v2_MIME_TYPE_PNG : ID3v2_MIME_TYPE_JPG;
+    const char* extension = strrchr(filename, '.');
+    mimetype = extension != NULL && strcmp(extension + 1, "png") == 0 ? ID3v2_MIME_TYPE_PNG
+                                                                      : ID3v2_MIME_TYPE_JPG;
     tag_set_album_cover_from_bytes(album_cover_bytes, mimetype, image_size, tag);
 
     free(album_cover_bytes);
-- 
2.43.0


From 7e47889831d2727de61728bff2a520fbf4025e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:26 +0000
Subject: [PATCH 32/36] fix: do not take an extended header size from beyond
 the tag

---
 src/modules/tag_header.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/modules/tag_header.c b/src/modules/tag_header.c
index 04c2964..aa37f03 100644
--- a/src/modules/tag_header.c
+++ b/src/modules/tag_header.c
@@ -72,9 +72,9 @@ ID3v2_TagHeader* TagHeader_parse(CharStream* header_cs)
 
     int extended_header_size = 0;
 
-    if ((flags & (1 << 6)) == (1 << 6))
+    if ((flags & (1 << 6)) == (1 << 6) && tag_size >= ID3v2_EXTENDED_HEADER_SIZE_LENGTH)
     {
-        // An extended header exists, retrieve its size
+        // An extended header exists within the tag, retrieve its size
         char raw_eh_size[ID3v2_EXTENDED_HEADER_SIZE_LENGTH] = {0};
         CharStream_read(header_cs, raw_eh_size, ID3v2_EXTENDED_HEADER_SIZE_LENGTH);
         extended_header_size = syncint_decode(btoi(raw_eh_size, ID3v2_EXTENDED_HEADER_SIZE_LENGTH));
-- 
2.43.0


From 8a80653d784e8b185f0f8200ca4803db208a7eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:07 +0000
Subject: [PATCH 33/36] fix: do not write tags that are too large for their
 size field

---
 src/id3v2lib.c            |  2 +-
 src/modules/tag.c         | 17 +++++++++++++++++
 src/modules/tag.private.h |  3 +++
 3 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/id3v2lib.c b/src/id3v2lib.c
index 365c607..76cca6a 100644
--- a/src/id3v2lib.c
+++ b/src/id3v2lib.c
@@ -89,7 +89,7 @@ ID3v2_Tag* ID3v2_read_tag_from_buffer(const char* tag_buffer, const int buffer_l
 
 void ID3v2_write_tag(const char* file_name, ID3v2_Tag* tag)
 {
-    if (tag == NULL) return;
+    if (tag == NULL || !Tag_fits_size_field(tag)) return;
 
     ID3v2_TagHeader* existing_tag_header = ID3v2_read_tag_header(file_name);
     const int original_size =
diff --git a/src/modules/tag.c b/src/modules/tag.c
index f47cc53..fbbe138 100644
--- a/src/modules/tag.c
+++ b/src/modules/tag.c
@@ -73,6 +73,23 @@ ID3v2_Tag* Tag_parse(CharStream* tag_cs)
     return tag;
 }
 
+bool Tag_fits_size_field(ID3v2_Tag* tag)
+{
+    // The size field of the tag header holds a syncsafe integer, that is, 28 bits
+    const long long max_size = (1LL << 28) - 1;
+    long long size = tag->padding_size < ID3v2_TAG_DEFAULT_PADDING_LENGTH
+        ? ID3v2_TAG_DEFAULT_PADDING_LENGTH
+        : tag->padding_size;
+
+    for (ID3v2_FrameList* it = tag->frames; it != NULL && it->frame != NULL; it = it->next)
+    {
+        size += it->frame->header->size;
+        size += ID3v2_FRAME_HEADER_LENGTH;
+    }
+
+    return size <= max_size;
+}
+
 CharStream* Tag_to_char_stream(ID3v2_Tag* tag)
 {
     // The tag consists of its frames plus the padding
diff --git a/src/modules/tag.private.h b/src/modules/tag.private.h
index 3a40d3a..b0b1f84 100644
--- a/src/modules/tag.private.h
+++ b/src/modules/tag.private.h
@@ -10,11 +10,14 @@
 #ifndef id3v2lib_tag_private_h
 #define id3v2lib_tag_private_h
 
+#include <stdbool.h>
+
 #include "modules/tag.h"
 
 typedef struct _CharStream CharStream;
 
 ID3v2_Tag* Tag_parse(CharStream* tag_cs);
+bool Tag_fits_size_field(ID3v2_Tag* tag);
 CharStream* Tag_to_char_stream(ID3v2_Tag* tag);
 
 #endif
-- 
2.43.0


From e96464037c1b3df10c0ed91c8f9343058ba298f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:03 +0000
Subject: [PATCH 34/36] fix: accept missing tags and frames in the
 compatibility layer

---
 src/id3v2lib.compat.c | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/src/id3v2lib.compat.c b/src/id3v2lib.compat.c
index 067b506..1b0f22b 100644
--- a/src/id3v2lib.compat.c
+++ b/src/id3v2lib.compat.c
@@ -203,6 +203,8 @@ void remove_tag(const char* file_name)
 
 void set_tag(const char* file_name, ID3v2_tag* tag)
 {
+    if (tag == NULL) return;
+
     ID3v2_write_tag(file_name, tag->tag);
 }
 
@@ -233,61 +235,85 @@ void free_tag(ID3v2_tag* tag)
 
 ID3v2_frame* tag_get_title(ID3v2_tag* tag)
 {
+    if (tag == NULL) return NULL;
+
     return get_from_list(tag->frames, ID3v2_TITLE_FRAME_ID);
 }
 
 ID3v2_frame* tag_get_artist(ID3v2_tag* tag)
 {
+    if (tag == NULL) return NULL;
+
     return get_from_list(tag->frames, ID3v2_ARTIST_FRAME_ID);
 }
 
 ID3v2_frame* tag_get_album(ID3v2_tag* tag)
 {
+    if (tag == NULL) return NULL;
+
     return get_from_list(tag->frames, ID3v2_ALBUM_FRAME_ID);
 }
 
 ID3v2_frame* tag_get_album_artist(ID3v2_tag* tag)
 {
+    if (tag == NULL) return NULL;
+
     return get_from_list(tag->frames, ID3v2_ALBUM_ARTIST_FRAME_ID);
 }
 
 ID3v2_frame* tag_get_genre(ID3v2_tag* tag)
 {
+    if (tag == NULL) return NULL;
+
     return get_from_list(tag->frames, ID3v2_GENRE_FRAME_ID);
 }
 
 ID3v2_frame* tag_get_track(ID3v2_tag* tag)
 {
+    if (tag == NULL) return NULL;
+
     return get_from_list(tag->frames, ID3v2_TRACK_FRAME_ID);
 }
 
 ID3v2_frame* tag_get_year(ID3v2_tag* tag)
 {
+    if (tag == NULL) return NULL;
+
     return get_from_list(tag->frames, ID3v2_YEAR_FRAME_ID);
 }
 
 ID3v2_frame* tag_get_comment(ID3v2_tag* tag)
 {
+    if (tag == NULL) return NULL;
+
     return get_from_list(tag->frames, ID3v2_COMMENT_FRAME_ID);
 }
 
 ID3v2_frame* tag_get_disc_number(ID3v2_tag* tag)
 {
+    if (tag == NULL) return NULL;
+
     return get_from_list(tag->frames, ID3v2_DISC_NUMBER_FRAME_ID);
 }
 
 ID3v2_frame* tag_get_composer(ID3v2_tag* tag)
 {
+    if (tag == NULL) return NULL;
+
     return get_from_list(tag->frames, ID3v2_COMPOSER_FRAME_ID);
 }
 
 ID3v2_frame* tag_get_album_cover(ID3v2_tag* tag)
 {
+    if (tag == NULL) return NULL;
+
     return get_from_list(tag->frames, ID3v2_ALBUM_COVER_FRAME_ID);
 }
 
 ID3v2_frame_text_content* parse_text_frame_content(ID3v2_frame* frame)
 {
+    if (frame == NULL) return NULL;
+
     ID3v2_frame_text_content* content =
         (ID3v2_frame_text_content*) malloc(sizeof(ID3v2_frame_text_content));
     ID3v2_TextFrame* text_frame = (ID3v2_TextFrame*) frame->frame;
@@ -302,6 +328,8 @@ ID3v2_frame_text_content* parse_text_frame_content(ID3v2_frame* frame)
 
 ID3v2_frame_comment_content* parse_comment_frame_content(ID3v2_frame* frame)
 {
+    if (frame == NULL) return NULL;
+
     ID3v2_frame_comment_content* content =
         (ID3v2_frame_comment_content*) malloc(sizeof(ID3v2_frame_comment_content));
     ID3v2_CommentFrame* comment_frame = (ID3v2_CommentFrame*) frame->frame;
@@ -318,6 +346,8 @@ ID3v2_frame_comment_content* parse_comment_frame_content(ID3v2_frame* frame)
 
 ID3v2_frame_apic_content* parse_apic_frame_content(ID3v2_frame* frame)
 {
+    if (frame == NULL) return NULL;
+
     ID3v2_frame_apic_content* content =
         (ID3v2_frame_apic_content*) malloc(sizeof(ID3v2_frame_apic_content));
     ID3v2_ApicFrame* apic_frame = (ID3v2_ApicFrame*) frame->frame;
-- 
2.43.0


From 4fccf198cb348693d8e7284182d2d49ae942ca22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:08 +0000
Subject: [PATCH 35/36] fix: leave the tag alone if a cover file cannot be read

---
 src/id3v2lib.compat.c | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/id3v2lib.compat.c b/src/id3v2lib.compat.c
index 1b0f22b..967ec26 100644
--- a/src/id3v2lib.compat.c
+++ b/src/id3v2lib.compat.c
@@ -7,6 +7,8 @@
  * file that was distributed with this source code.
  */
 
+#include <limits.h>
+#include <stdbool.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
@@ -471,15 +473,32 @@ void tag_set_album_cover(const char* filename, ID3v2_tag* tag)
 
     if (album_cover == NULL) return;
 
+    // Something that can be opened but not read, e.g. a directory, is not a cover
+    getc(album_cover);
+    const bool is_readable = !ferror(album_cover);
+
     fseek(album_cover, 0, SEEK_END);
-    image_size = (int) ftell(album_cover);
+    const long file_size = ftell(album_cover);
     fseek(album_cover, 0, SEEK_SET);
 
+    if (!is_readable || file_size < 0 || file_size > INT_MAX)
+    {
+        fclose(album_cover);
+        return;
+    }
+
+    image_size = (int) file_size;
     album_cover_bytes = (char*) malloc(image_size * sizeof(char));
-    fread(album_cover_bytes, sizeof(char), image_size, album_cover);
+    const int bytes_read = fread(album_cover_bytes, sizeof(char), image_size, album_cover);
 
     fclose(album_cover);
 
+    if (bytes_read < image_size)
+    {
+        free(album_cover_bytes);
+        return;
+    }
+
     const char* extension = strrchr(filename, '.');
     mimetype = extension != NULL && strcmp(extension + 1, "png") == 0 ? ID3v2_MIME_TYPE_PNG
                                                                       : ID3v2_MIME_TYPE_JPG;
-- 
2.43.0


From b4d4a4bf8c28f1c69066113c8dee38c27ba74b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:44 +0000
Subject: [PATCH 36/36] fix: undo the unsynchronisation of v2.3 tags and don't
 announce it when writing

---
 src/modules/tag.c | 43 +++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 43 insertions(+)

diff --git a/src/modules/tag.c b/src/modules/tag.c
index fbbe138..ad65944 100644
--- a/src/modules/tag.c
+++ b/src/modules/tag.c
@@ -41,6 +41,25 @@ ID3v2_Tag* ID3v2_Tag_new_empty()
     return ID3v2_Tag_new(NULL, 0);
 }
 
+/**
+ * Drops the zero byte that unsynchronisation puts after every 0xFF that needs it
+ */
+static void undo_unsynchronisation(CharStream* tag_cs)
+{
+    int end = tag_cs->cursor;
+
+    for (int i = tag_cs->cursor; i < tag_cs->size; i++)
+    {
+        const bool is_marker = tag_cs->stream[i] == (char) 0xFF && i + 1 < tag_cs->size &&
+            tag_cs->stream[i + 1] == 0x00;
+
+        tag_cs->stream[end++] = tag_cs->stream[i];
+        if (is_marker) i++;
+    }
+
+    tag_cs->size = end;
+}
+
 ID3v2_Tag* Tag_parse(CharStream* tag_cs)
 {
     ID3v2_TagHeader* header = TagHeader_parse(tag_cs);
@@ -51,6 +70,12 @@ ID3v2_Tag* Tag_parse(CharStream* tag_cs)
     // Whatever the buffer holds after the tag (usually audio) is not part of it
     tag_cs->size = clamp_int(header->tag_size + ID3v2_TAG_HEADER_LENGTH, 0, tag_cs->size);
 
+    // In v2.3 the tag is unsynchronised as a whole, frame sizes don't take that into account
+    if (header->major_version == 3 && (header->flags & (1 << 7)) != 0)
+    {
+        undo_unsynchronisation(tag_cs);
+    }
+
     if (header->extended_header_size > 0)
     {
         // An extended header exists, skip what follows its size field (in v2.4, the size
@@ -90,6 +115,22 @@ bool Tag_fits_size_field(ID3v2_Tag* tag)
     return size <= max_size;
 }
 
+/**
+ * Frames are written as they are, so the tag is only unsynchronised if, in v2.4, all of its
+ * frames already are
+ */
+static bool is_unsynchronised(ID3v2_Tag* tag)
+{
+    if (tag->header->major_version != 4) return false;
+
+    for (ID3v2_FrameList* it = tag->frames; it != NULL && it->frame != NULL; it = it->next)
+    {
+        if ((it->frame->header->flags[1] & (1 << 1)) == 0) return false;
+    }
+
+    return true;
+}
+
 CharStream* Tag_to_char_stream(ID3v2_Tag* tag)
 {
     // The tag consists of its frames plus the padding
@@ -106,6 +147,8 @@ CharStream* Tag_to_char_stream(ID3v2_Tag* tag)
     tag->header->flags &= ~((1 << 6) | (1 << 4));
     tag->header->extended_header_size = 0;
 
+    if (!is_unsynchronised(tag)) tag->header->flags &= ~(1 << 7);
+
     // Write header
     CharStream_write(tag_cs, tag->header->identifier, ID3v2_TAG_HEADER_IDENTIFIER_LENGTH);
     CharStream_write(tag_cs, &tag->header->major_version, ID3v2_TAG_HEADER_MAJOR_VERSION_LENGTH);
-- 
2.43.0

