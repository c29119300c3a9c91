From 0403b0386393ef2ef4019301eba25f412f7edb3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:41 +0000
Subject: [PATCH 01/32] fix: do not read past the end of an empty string when
 looking for a BOM

---
 src/modules/utils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/utils.c b/src/modules/utils.c
index 3986782..cbfce71 100644
--- a/src/modules/utils.c
+++ b/src/modules/utils.c
@@ -152,7 +152,7 @@ bool string_has_bom(const char* string)
         return false;
     }
 
-    if (memcmp("\xFF\xFE", string, 2) == 0 || memcmp("\xFE\xFF", string, 2) == 0)
+    if (strncmp("\xFF\xFE", string, 2) == 0 || strncmp("\xFE\xFF", string, 2) == 0)
     {
         return true;
     }
-- 
2.43.0


From 019a1579af574938a6af4b315abe4b55c46cf866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:42 +0000
Subject: [PATCH 02/32] fix: signed overflow while building the syncsafe mask

---
 src/modules/utils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/utils.c b/src/modules/utils.c
index cbfce71..fb236b5 100644
--- a/src/modules/utils.c
+++ b/src/modules/utils.c
@@ -110,7 +110,7 @@ char* itob(int integer)
 
 int syncint_encode(int value)
 {
-    int out, mask = 0x7F;
+    unsigned int out, mask = 0x7F;
 
     while (mask ^ 0x7FFFFFFF)
     {
-- 
2.43.0


From faee0243dcaa8d643c53aba44013cb6b7aa0739e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:42 +0000
Subject: [PATCH 03/32] fix: do not read a tag header from a buffer too short
 to hold one

---
 src/modules/tag_header.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/modules/tag_header.c b/src/modules/tag_header.c
index 8ecc1f0..bd41bf1 100644
--- a/src/modules/tag_header.c
+++ b/src/modules/tag_header.c
@@ -47,6 +47,8 @@ ID3v2_TagHeader* TagHeader_new_empty()
 
 ID3v2_TagHeader* TagHeader_parse(CharStream* header_cs)
 {
+    if (header_cs->size < ID3v2_TAG_HEADER_LENGTH) return NULL;
+
     bool has_id3v2_tag = memcmp(header_cs->stream, "ID3", ID3v2_TAG_HEADER_IDENTIFIER_LENGTH) == 0;
     if (!has_id3v2_tag) return NULL;
 
-- 
2.43.0


From 0b760025db85ef76243c0dc48664aa67378d9510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:43 +0000
Subject: [PATCH 04/32] fix: uninitialised extended header size when only the
 tag header is available

---
 src/modules/tag_header.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/tag_header.c b/src/modules/tag_header.c
index bd41bf1..92cffe6 100644
--- a/src/modules/tag_header.c
+++ b/src/modules/tag_header.c
@@ -75,7 +75,7 @@ ID3v2_TagHeader* TagHeader_parse(CharStream* header_cs)
     if ((flags & (1 << 6)) == (1 << 6))
     {
         // An extended header exists, retrieve its size
-        char raw_eh_size[ID3v2_EXTENDED_HEADER_SIZE_LENGTH];
+        char raw_eh_size[ID3v2_EXTENDED_HEADER_SIZE_LENGTH] = {0};
         CharStream_read(header_cs, raw_eh_size, ID3v2_EXTENDED_HEADER_SIZE_LENGTH);
         extended_header_size = syncint_decode(btoi(raw_eh_size, ID3v2_EXTENDED_HEADER_SIZE_LENGTH));
     }
-- 
2.43.0


From 4afcc781889fa12bace829ca70275934187334d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:43 +0000
Subject: [PATCH 05/32] fix: reject frames whose header or body does not fit in
 the buffer

---
 src/modules/char_stream.c  | 2 +-
 src/modules/frame_header.c | 6 ++++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/modules/char_stream.c b/src/modules/char_stream.c
index 7a6924e..f4a34ec 100644
--- a/src/modules/char_stream.c
+++ b/src/modules/char_stream.c
@@ -73,7 +73,7 @@ void CharStream_seek(CharStream* cs, const int offset, const int whence)
     switch (whence)
     {
         case SEEK_SET:
-            cs->cursor = offset;
+            cs->cursor = clamp_int(offset, 0, cs->size);
             break;
         case SEEK_CUR:
             cs->cursor = clamp_int(cs->cursor + offset, 0, cs->size);
diff --git a/src/modules/frame_header.c b/src/modules/frame_header.c
index 4f755d2..1e90469 100644
--- a/src/modules/frame_header.c
+++ b/src/modules/frame_header.c
@@ -30,6 +30,9 @@ ID3v2_FrameHeader* FrameHeader_new(const char* id, const char* flags, const int
 
 ID3v2_FrameHeader* FrameHeader_parse(CharStream* header_cs, const int id3_major_version)
 {
+    // There isn't enough data left to hold a frame header
+    if (header_cs->size - header_cs->cursor < ID3v2_FRAME_HEADER_LENGTH) return NULL;
+
     char id[ID3v2_FRAME_HEADER_ID_LENGTH];
     CharStream_read(header_cs, id, ID3v2_FRAME_HEADER_ID_LENGTH);
 
@@ -54,6 +57,9 @@ ID3v2_FrameHeader* FrameHeader_parse(CharStream* header_cs, const int id3_major_
     char flags[ID3v2_FRAME_HEADER_FLAGS_LENGTH];
     CharStream_read(header_cs, flags, ID3v2_FRAME_HEADER_FLAGS_LENGTH);
 
+    // The frame claims to be bigger than the data we have
+    if (size < 0 || size > header_cs->size - header_cs->cursor) return NULL;
+
     return FrameHeader_new(id, flags, size);
 }
 
-- 
2.43.0


From 90283bc5feae909fe6145fbc0d0f652fe4818696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:44 +0000
Subject: [PATCH 06/32] fix: parse text frames of any size and termination
 without losing data

---
 src/modules/frames/text_frame.c | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/modules/frames/text_frame.c b/src/modules/frames/text_frame.c
index 54cec80..b443880 100644
--- a/src/modules/frames/text_frame.c
+++ b/src/modules/frames/text_frame.c
@@ -34,15 +34,25 @@ ID3v2_TextFrame* TextFrame_parse(CharStream* frame_cs, const int id3_major_versi
 {
     ID3v2_FrameHeader* header = FrameHeader_parse(frame_cs, id3_major_version);
 
-    CharStream_seek(frame_cs, ID3v2_FRAME_ENCODING_LENGTH, SEEK_CUR); // skip encoding
+    if (header == NULL) return NULL;
 
-    const int text_size = header->size - ID3v2_FRAME_ENCODING_LENGTH;
-    char text[text_size];
-    CharStream_read(frame_cs, text, text_size);
+    if (header->size < ID3v2_FRAME_ENCODING_LENGTH)
+    {
+        FrameHeader_free(header);
+        return NULL;
+    }
+
+    ID3v2_TextFrame* frame = (ID3v2_TextFrame*) malloc(sizeof(ID3v2_TextFrame));
+    frame->header = header;
+    frame->data = (ID3v2_TextFrameData*) malloc(sizeof(ID3v2_TextFrameData));
 
-    ID3v2_TextFrame* frame = TextFrame_new(header->id, header->flags, text);
+    frame->data->encoding = CharStream_getc(frame_cs);
 
-    FrameHeader_free(header); // we only needed the header to parse the data
+    // Keep the text as it's stored. It may lack its termination, hence the extra null characters.
+    const int text_size = header->size - ID3v2_FRAME_ENCODING_LENGTH;
+    frame->data->size = text_size;
+    frame->data->text = (char*) calloc(text_size + 3, sizeof(char));
+    CharStream_read(frame_cs, frame->data->text, text_size);
 
     return frame;
 }
-- 
2.43.0


From 890a079f48c58520d05cf4ff39ca5d339869d792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:44 +0000
Subject: [PATCH 07/32] fix: parse comment frames within the limits of the
 frame

---
 src/modules/frames/comment_frame.c | 41 +++++++++++++++++++++++-------
 1 file changed, 32 insertions(+), 9 deletions(-)

diff --git a/src/modules/frames/comment_frame.c b/src/modules/frames/comment_frame.c
index 947f72d..a5bba22 100644
--- a/src/modules/frames/comment_frame.c
+++ b/src/modules/frames/comment_frame.c
@@ -43,22 +43,45 @@ ID3v2_CommentFrame* CommentFrame_parse(CharStream* frame_cs, const int id3_major
 {
     ID3v2_FrameHeader* header = FrameHeader_parse(frame_cs, id3_major_version);
 
-    CharStream_seek(frame_cs, ID3v2_FRAME_ENCODING_LENGTH, SEEK_CUR); // skip encoding
+    if (header == NULL) return NULL;
+
+    const int content_size =
+        header->size - ID3v2_FRAME_ENCODING_LENGTH - ID3v2_COMMENT_FRAME_LANGUAGE_LENGTH;
+
+    if (content_size < 0)
+    {
+        FrameHeader_free(header);
+        return NULL;
+    }
+
+    const char encoding = CharStream_getc(frame_cs);
 
     char lang[ID3v2_COMMENT_FRAME_LANGUAGE_LENGTH];
     CharStream_read(frame_cs, lang, ID3v2_COMMENT_FRAME_LANGUAGE_LENGTH);
 
-    const int short_desc_size = ID3v2_strlent(CharStream_get_cur(frame_cs));
-    char short_desc[short_desc_size];
-    CharStream_read(frame_cs, short_desc, short_desc_size);
+    // The strings may lack their termination, hence the extra null characters
+    char* short_desc = (char*) calloc(content_size + 3, sizeof(char));
+    CharStream_read(frame_cs, short_desc, content_size);
 
-    const int comment_size = ID3v2_strlent(CharStream_get_cur(frame_cs));
-    char comment[comment_size];
-    CharStream_read(frame_cs, comment, comment_size);
+    const int short_desc_size = ID3v2_strlent(short_desc);
+    const int comment_size = content_size - short_desc_size;
 
-    ID3v2_CommentFrame* frame = CommentFrame_new(header->flags, lang, short_desc, comment);
+    if (comment_size < 0)
+    {
+        free(short_desc);
+        FrameHeader_free(header);
+        return NULL;
+    }
 
-    FrameHeader_free(header); // we only needed the header to parse the data
+    ID3v2_CommentFrame* frame = (ID3v2_CommentFrame*) malloc(sizeof(ID3v2_CommentFrame));
+    frame->header = header;
+    frame->data = (ID3v2_CommentFrameData*) malloc(sizeof(ID3v2_CommentFrameData));
+    frame->data->encoding = encoding;
+    memcpy(frame->data->language, lang, ID3v2_COMMENT_FRAME_LANGUAGE_LENGTH);
+    frame->data->size = comment_size;
+    frame->data->comment = (char*) calloc(comment_size + 3, sizeof(char));
+    memcpy(frame->data->comment, short_desc + short_desc_size, comment_size);
+    frame->data->short_description = short_desc;
 
     return frame;
 }
-- 
2.43.0


From 7281dc49e3baa26907262b19cf7f4d313cab5b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:45 +0000
Subject: [PATCH 08/32] fix: parse picture frames within the limits of the
 frame and off the stack

---
 src/modules/frames/apic_frame.c | 63 ++++++++++++++++++++++-----------
 1 file changed, 43 insertions(+), 20 deletions(-)

diff --git a/src/modules/frames/apic_frame.c b/src/modules/frames/apic_frame.c
index ba1d9cd..9b54781 100644
--- a/src/modules/frames/apic_frame.c
+++ b/src/modules/frames/apic_frame.c
@@ -48,26 +48,49 @@ ID3v2_ApicFrame* ApicFrame_parse(CharStream* frame_cs, const int id3_major_versi
 {
     ID3v2_FrameHeader* header = FrameHeader_parse(frame_cs, id3_major_version);
 
-    CharStream_seek(frame_cs, ID3v2_FRAME_ENCODING_LENGTH, SEEK_CUR); // skip encoding
-
-    const int mime_type_size = ID3v2_strlent(CharStream_get_cur(frame_cs));
-    char mime_type[mime_type_size];
-    CharStream_read(frame_cs, mime_type, mime_type_size);
-
-    const char picture_type = CharStream_getc(frame_cs);
-
-    const int description_size = ID3v2_strlent(CharStream_get_cur(frame_cs));
-    char description[description_size];
-    CharStream_read(frame_cs, description, description_size);
-
-    const int pic_size = header->size - ID3v2_FRAME_ENCODING_LENGTH - mime_type_size -
-                         ID3v2_APIC_FRAME_PICTURE_TYPE_LENGTH - description_size;
-    char pic_data[pic_size];
-    CharStream_read(frame_cs, pic_data, pic_size);
-
-    ID3v2_ApicFrame* frame =
-        ApicFrame_new(header->flags, description, picture_type, mime_type, pic_size, pic_data);
-
+    if (header == NULL) return NULL;
+
+    const int content_size = header->size - ID3v2_FRAME_ENCODING_LENGTH;
+
+    if (content_size < 0)
+    {
+        FrameHeader_free(header);
+        return NULL;
+    }
+
+    const char encoding = CharStream_getc(frame_cs);
+
+    // The strings may lack their termination, hence the extra null characters
+    char* content = (char*) calloc(content_size + 4, sizeof(char));
+    CharStream_read(frame_cs, content, content_size);
+
+    ID3v2_ApicFrame* frame = NULL;
+    const int mime_type_size = ID3v2_strlent(content);
+
+    if (mime_type_size + ID3v2_APIC_FRAME_PICTURE_TYPE_LENGTH <= content_size)
+    {
+        const char picture_type = content[mime_type_size];
+        const char* description =
+            content + mime_type_size + ID3v2_APIC_FRAME_PICTURE_TYPE_LENGTH;
+        const int description_size = ID3v2_strlent(description);
+        const int pic_size = content_size - mime_type_size -
+                             ID3v2_APIC_FRAME_PICTURE_TYPE_LENGTH - description_size;
+
+        if (pic_size >= 0)
+        {
+            frame = ApicFrame_new(
+                header->flags,
+                description,
+                picture_type,
+                content,
+                pic_size,
+                description + description_size
+            );
+            frame->data->encoding = encoding;
+        }
+    }
+
+    free(content);
     FrameHeader_free(header); // we only needed the header to parse the data
 
     return frame;
-- 
2.43.0


From 9e704f1391f2c51f69bb56dd77b335b35e81142a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:45 +0000
Subject: [PATCH 09/32] fix: only treat COMM and APIC frames as comments and
 pictures

---
 src/modules/frame_header.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/modules/frame_header.c b/src/modules/frame_header.c
index 1e90469..79aee2d 100644
--- a/src/modules/frame_header.c
+++ b/src/modules/frame_header.c
@@ -13,6 +13,7 @@
 #include <string.h>
 
 #include "modules/char_stream.private.h"
+#include "modules/frame_ids.h"
 #include "modules/utils.private.h"
 
 #include "frame_header.private.h"
@@ -83,12 +84,12 @@ bool FrameHeader_isTextFrame(ID3v2_FrameHeader* header)
 
 bool FrameHeader_isCommentFrame(ID3v2_FrameHeader* header)
 {
-    return header->id[0] == 'C';
+    return memcmp(header->id, ID3v2_COMMENT_FRAME_ID, ID3v2_FRAME_HEADER_ID_LENGTH) == 0;
 }
 
 bool FrameHeader_isApicFrame(ID3v2_FrameHeader* header)
 {
-    return header->id[0] == 'A';
+    return memcmp(header->id, ID3v2_ALBUM_COVER_FRAME_ID, ID3v2_FRAME_HEADER_ID_LENGTH) == 0;
 }
 
 void FrameHeader_free(ID3v2_FrameHeader* header)
-- 
2.43.0


From c9943a734fe4fbc24494cc0a9d9c9423147b59f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:46 +0000
Subject: [PATCH 10/32] fix: memory leaks in frames of unknown type

---
 src/modules/frame.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/modules/frame.c b/src/modules/frame.c
index 29d775e..c2461fb 100644
--- a/src/modules/frame.c
+++ b/src/modules/frame.c
@@ -79,6 +79,7 @@ CharStream* Frame_to_char_stream(ID3v2_Frame* frame)
         CharStream* header_cs = FrameHeader_to_char_stream(frame->header);
         CharStream_write(frame_cs, header_cs->stream, ID3v2_FRAME_HEADER_LENGTH);
         CharStream_write(frame_cs, frame->data, frame->header->size);
+        CharStream_free(header_cs);
         return frame_cs;
     }
 }
@@ -104,5 +105,6 @@ void ID3v2_Frame_free(ID3v2_Frame* frame)
         // Unknown frame id, naively try our best to free it
         free(frame->header);
         free(frame->data);
+        free(frame);
     }
 }
-- 
2.43.0


From d157c76964de1940794577cdd517d41d0d314bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:46 +0000
Subject: [PATCH 11/32] fix: skip extended headers properly and do not announce
 one when writing

---
 src/modules/tag.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/modules/tag.c b/src/modules/tag.c
index 5350666..4950b9f 100644
--- a/src/modules/tag.c
+++ b/src/modules/tag.c
@@ -51,7 +51,13 @@ ID3v2_Tag* Tag_parse(CharStream* tag_cs)
     if (header->extended_header_size > 0)
     {
         // An extended header exists, skip it
-        CharStream_seek(tag_cs, header->extended_header_size, SEEK_SET);
+        // In id3v2.3 its size doesn't take into account the size field itself
+        const int size_length = header->major_version == 3 ? ID3v2_EXTENDED_HEADER_SIZE_LENGTH : 0;
+        CharStream_seek(
+            tag_cs,
+            ID3v2_TAG_HEADER_LENGTH + size_length + header->extended_header_size,
+            SEEK_SET
+        );
     }
 
     ID3v2_Frame* current_frame;
@@ -75,7 +81,8 @@ CharStream* Tag_to_char_stream(ID3v2_Tag* tag)
     CharStream_write(tag_cs, tag->header->identifier, ID3v2_TAG_HEADER_IDENTIFIER_LENGTH);
     CharStream_write(tag_cs, &tag->header->major_version, ID3v2_TAG_HEADER_MAJOR_VERSION_LENGTH);
     CharStream_write(tag_cs, &tag->header->minor_version, ID3v2_TAG_HEADER_MINOR_VERSION_LENGTH);
-    CharStream_write(tag_cs, &tag->header->flags, ID3v2_TAG_HEADER_FLAGS_LENGTH);
+    const char flags = tag->header->flags & ~(1 << 6); // the extended header isn't written
+    CharStream_write(tag_cs, &flags, ID3v2_TAG_HEADER_FLAGS_LENGTH);
 
     char* size_bytes = itob(syncint_encode(tag->header->tag_size));
     CharStream_write(tag_cs, size_bytes, ID3v2_TAG_HEADER_TAG_SIZE_LENGTH);
-- 
2.43.0


From 1c5adbe535f184e9792536985e0045c2be6381e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:46 +0000
Subject: [PATCH 12/32] fix: do not parse or count as padding what lies beyond
 the tag

---
 src/modules/tag.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/modules/tag.c b/src/modules/tag.c
index 4950b9f..f27e2f3 100644
--- a/src/modules/tag.c
+++ b/src/modules/tag.c
@@ -48,6 +48,9 @@ ID3v2_Tag* Tag_parse(CharStream* tag_cs)
 
     ID3v2_Tag* tag = ID3v2_Tag_new(header, 0);
 
+    // Ignore whatever comes after the tag
+    tag_cs->size = clamp_int(tag_cs->size, 0, header->tag_size + ID3v2_TAG_HEADER_LENGTH);
+
     if (header->extended_header_size > 0)
     {
         // An extended header exists, skip it
@@ -61,14 +64,16 @@ ID3v2_Tag* Tag_parse(CharStream* tag_cs)
     }
 
     ID3v2_Frame* current_frame;
+    int frames_end = tag_cs->cursor;
     while (tag_cs->cursor < tag->header->tag_size)
     {
         current_frame = Frame_parse(tag_cs, tag->header->major_version);
         if (current_frame == NULL) break;
         FrameList_add_frame(tag->frames, current_frame);
+        frames_end = tag_cs->cursor;
     }
 
-    tag->padding_size = tag_cs->size - tag_cs->cursor;
+    tag->padding_size = tag_cs->size - frames_end;
 
     return tag;
 }
-- 
2.43.0


From 33e6fe7d786d979b35ae27133549e747a02c0cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:47 +0000
Subject: [PATCH 13/32] fix: write id3v2.4 frame sizes as syncsafe integers

---
 src/modules/tag.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/modules/tag.c b/src/modules/tag.c
index f27e2f3..f428091 100644
--- a/src/modules/tag.c
+++ b/src/modules/tag.c
@@ -108,6 +108,15 @@ CharStream* Tag_to_char_stream(ID3v2_Tag* tag)
 
         if (frame_cs == NULL) exit(1);
 
+        if (tag->header->major_version == 4)
+        {
+            // Since id3v2.4 the size of the frames is also a syncsafe integer
+            size_bytes = itob(syncint_encode(frames->frame->header->size));
+            CharStream_seek(frame_cs, ID3v2_FRAME_HEADER_ID_LENGTH, SEEK_SET);
+            CharStream_write(frame_cs, size_bytes, ID3v2_FRAME_HEADER_SIZE_LENGTH);
+            free(size_bytes);
+        }
+
         CharStream_write(tag_cs, frame_cs->stream, frame_cs->size);
         CharStream_free(frame_cs);
 
-- 
2.43.0


From 5389f316f0748ba56037129750b23f852a3a665a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:47 +0000
Subject: [PATCH 14/32] fix: account for the frame header when adding a frame
 to a tag

---
 src/modules/tag.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/modules/tag.c b/src/modules/tag.c
index f428091..9e5aeb7 100644
--- a/src/modules/tag.c
+++ b/src/modules/tag.c
@@ -228,7 +228,7 @@ void ID3v2_Tag_set_text_frame(ID3v2_Tag* tag, ID3v2_TextFrameInput* input)
     if (existing_frame == NULL)
     {
         FrameList_add_frame(tag->frames, (ID3v2_Frame*) new_frame);
-        tag->header->tag_size += new_frame->header->size;
+        tag->header->tag_size += new_frame->header->size + ID3v2_FRAME_HEADER_LENGTH;
     }
     else
     {
@@ -362,7 +362,7 @@ void ID3v2_Tag_set_comment_frame(ID3v2_Tag* tag, ID3v2_CommentFrameInput* input)
     if (existing_frame == NULL)
     {
         FrameList_add_frame(tag->frames, (ID3v2_Frame*) new_frame);
-        tag->header->tag_size += new_frame->header->size;
+        tag->header->tag_size += new_frame->header->size + ID3v2_FRAME_HEADER_LENGTH;
     }
     else
     {
@@ -381,7 +381,7 @@ void ID3v2_Tag_add_comment_frame(ID3v2_Tag* tag, ID3v2_CommentFrameInput* input)
     ID3v2_CommentFrame* new_frame =
         CommentFrame_new(input->flags, input->language, input->short_description, input->comment);
     FrameList_add_frame(tag->frames, (ID3v2_Frame*) new_frame);
-    tag->header->tag_size += new_frame->header->size;
+    tag->header->tag_size += new_frame->header->size + ID3v2_FRAME_HEADER_LENGTH;
 }
 
 void ID3v2_Tag_set_comment(ID3v2_Tag* tag, const char* lang, const char* comment)
@@ -415,7 +415,7 @@ void ID3v2_Tag_set_apic_frame(ID3v2_Tag* tag, ID3v2_ApicFrameInput* input)
     if (existing_frame == NULL)
     {
         FrameList_add_frame(tag->frames, (ID3v2_Frame*) new_frame);
-        tag->header->tag_size += new_frame->header->size;
+        tag->header->tag_size += new_frame->header->size + ID3v2_FRAME_HEADER_LENGTH;
     }
     else
     {
@@ -440,7 +440,7 @@ void ID3v2_Tag_add_apic_frame(ID3v2_Tag* tag, ID3v2_ApicFrameInput* input)
         input->data
     );
     FrameList_add_frame(tag->frames, (ID3v2_Frame*) new_frame);
-    tag->header->tag_size += new_frame->header->size;
+    tag->header->tag_size += new_frame->header->size + ID3v2_FRAME_HEADER_LENGTH;
 }
 
 /**
-- 
2.43.0


From 2703b906b03d4ee654e0eaf3792188c0f48ccc95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:48 +0000
Subject: [PATCH 15/32] fix: removing the last frame of a list left an empty
 node behind

---
 src/modules/frame_list.c | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/modules/frame_list.c b/src/modules/frame_list.c
index 13e464f..3e93680 100644
--- a/src/modules/frame_list.c
+++ b/src/modules/frame_list.c
@@ -117,17 +117,27 @@ ID3v2_Frame* FrameList_remove_frame_by_id(ID3v2_FrameList* list, const char* fra
 {
     if (list == NULL) return NULL;
 
-    while (list != NULL)
+    ID3v2_FrameList* previous = NULL;
+    while (list != NULL && list->frame != NULL)
     {
         if (strncmp(list->frame->header->id, frame_id, 4) == 0)
         {
             ID3v2_Frame* removed = list->frame;
+
+            if (list->next == NULL && previous != NULL)
+            {
+                previous->next = NULL;
+                free(list);
+                return removed;
+            }
+
             ID3v2_FrameList* new_head_old_ptr = list->next != NULL ? list->next : FrameList_new();
             *list = *new_head_old_ptr;
             free(new_head_old_ptr);
             return removed;
         }
 
+        previous = list;
         list = list->next;
     }
 
@@ -138,16 +148,25 @@ ID3v2_Frame* FrameList_remove_frame(ID3v2_FrameList* list, ID3v2_Frame* to_remov
 {
     if (list == NULL) return NULL;
 
+    ID3v2_FrameList* previous = NULL;
     while (list != NULL)
     {
         if (list->frame == to_remove)
         {
+            if (list->next == NULL && previous != NULL)
+            {
+                previous->next = NULL;
+                free(list);
+                return to_remove;
+            }
+
             ID3v2_FrameList* new_head_old_ptr = list->next != NULL ? list->next : FrameList_new();
             *list = *new_head_old_ptr;
             free(new_head_old_ptr);
             return to_remove;
         }
 
+        previous = list;
         list = list->next;
     }
 
-- 
2.43.0


From bf28620349af13fbcbb7cf6951d15a30aa052573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:48 +0000
Subject: [PATCH 16/32] fix: crash when deleting a frame the tag does not have

---
 src/modules/tag.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/modules/tag.c b/src/modules/tag.c
index 9e5aeb7..e011da8 100644
--- a/src/modules/tag.c
+++ b/src/modules/tag.c
@@ -476,6 +476,7 @@ void ID3v2_Tag_free(ID3v2_Tag* tag)
 void ID3v2_Tag_delete_frame(ID3v2_Tag* tag, const char* frame_id)
 {
     ID3v2_Frame* deleted = FrameList_remove_frame_by_id(tag->frames, frame_id);
+    if (deleted == NULL) return;
     tag->header->tag_size -= deleted->header->size + ID3v2_FRAME_HEADER_LENGTH;
     // Maybe we should just return the frame instead of taking the responsibility
     // of freeing it?
-- 
2.43.0


From e7da32a0b51d3a7b2085fe68407b23fbc8c65af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:49 +0000
Subject: [PATCH 17/32] fix: tag size and leaks when deleting comment and
 picture frames by index

---
 src/modules/tag.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/modules/tag.c b/src/modules/tag.c
index e011da8..ad054bf 100644
--- a/src/modules/tag.c
+++ b/src/modules/tag.c
@@ -531,15 +531,17 @@ void ID3v2_Tag_delete_composer(ID3v2_Tag* tag)
 void ID3v2_Tag_delete_comment_frame(ID3v2_Tag* tag, const int index)
 {
     int i = 0;
-    ID3v2_FrameList* head = ID3v2_Tag_get_comment_frames(tag);
+    ID3v2_FrameList* frames = ID3v2_Tag_get_comment_frames(tag);
+    ID3v2_FrameList* head = frames;
 
-    while (head != NULL)
+    while (head != NULL && head->frame != NULL)
     {
         ID3v2_CommentFrame* to_delete = (ID3v2_CommentFrame*) head->frame;
 
         if (i == index)
         {
             FrameList_remove_frame(tag->frames, (ID3v2_Frame*) to_delete);
+            tag->header->tag_size -= to_delete->header->size + ID3v2_FRAME_HEADER_LENGTH;
             ID3v2_Frame_free((ID3v2_Frame*) to_delete);
             break;
         }
@@ -548,7 +550,7 @@ void ID3v2_Tag_delete_comment_frame(ID3v2_Tag* tag, const int index)
         head = head->next;
     }
 
-    ID3v2_FrameList_unlink(head);
+    ID3v2_FrameList_unlink(frames);
 }
 
 void ID3v2_Tag_delete_comment(ID3v2_Tag* tag)
@@ -559,15 +561,17 @@ void ID3v2_Tag_delete_comment(ID3v2_Tag* tag)
 void ID3v2_Tag_delete_apic_frame(ID3v2_Tag* tag, const int index)
 {
     int i = 0;
-    ID3v2_FrameList* head = ID3v2_Tag_get_apic_frames(tag);
+    ID3v2_FrameList* frames = ID3v2_Tag_get_apic_frames(tag);
+    ID3v2_FrameList* head = frames;
 
-    while (head != NULL)
+    while (head != NULL && head->frame != NULL)
     {
         ID3v2_ApicFrame* to_delete = (ID3v2_ApicFrame*) head->frame;
 
         if (i == index)
         {
             FrameList_remove_frame(tag->frames, (ID3v2_Frame*) to_delete);
+            tag->header->tag_size -= to_delete->header->size + ID3v2_FRAME_HEADER_LENGTH;
             ID3v2_Frame_free((ID3v2_Frame*) to_delete);
             break;
         }
@@ -576,7 +580,7 @@ void ID3v2_Tag_delete_apic_frame(ID3v2_Tag* tag, const int index)
         head = head->next;
     }
 
-    ID3v2_FrameList_unlink(head);
+    ID3v2_FrameList_unlink(frames);
 }
 
 void ID3v2_Tag_delete_album_cover(ID3v2_Tag* tag)
-- 
2.43.0


From abad9f7eb6163f838496015fd1e44d9c23a9c637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:49 +0000
Subject: [PATCH 18/32] fix: actually write the padding of a tag

---
 src/id3v2lib.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/id3v2lib.c b/src/id3v2lib.c
index b245bad..3541ef9 100644
--- a/src/id3v2lib.c
+++ b/src/id3v2lib.c
@@ -94,6 +94,7 @@ void ID3v2_write_tag(const char* file_name, ID3v2_Tag* tag)
         ID3v2_TAG_DEFAULT_PADDING_LENGTH
     );
     tag->padding_size += extra_padding_length;
+    tag->header->tag_size += extra_padding_length;
     CharStream* tag_cs = Tag_to_char_stream(tag);
 
     // Perform operations on a temp file in case things go wrong
-- 
2.43.0


From 8907ed2738661fc6d4f697f19eb5edfa4f19395a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:49 +0000
Subject: [PATCH 19/32] fix: only parse the part of the tag that could be read
 from the file

---
 src/id3v2lib.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/id3v2lib.c b/src/id3v2lib.c
index 3541ef9..4de6807 100644
--- a/src/id3v2lib.c
+++ b/src/id3v2lib.c
@@ -60,7 +60,8 @@ ID3v2_Tag* ID3v2_read_tag(const char* file_name)
         return NULL;
     }
 
-    fread(tag_buffer, buffer_length, 1, file);
+    // The file may end before the tag does
+    buffer_length = fread(tag_buffer, sizeof(char), buffer_length, file);
     fclose(file);
 
     ID3v2_Tag* tag = ID3v2_read_tag_from_buffer(tag_buffer, buffer_length);
-- 
2.43.0


From 14660cde843336c802914ab5ab09d54695ad6a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:00 +0000
Subject: [PATCH 20/32] fix: negative padding when the extended header does not
 fit in the tag

---
 src/modules/tag.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/tag.c b/src/modules/tag.c
index ad054bf..0acefe3 100644
--- a/src/modules/tag.c
+++ b/src/modules/tag.c
@@ -73,7 +73,7 @@ ID3v2_Tag* Tag_parse(CharStream* tag_cs)
         frames_end = tag_cs->cursor;
     }
 
-    tag->padding_size = tag_cs->size - frames_end;
+    tag->padding_size = clamp_int(tag_cs->size - frames_end, 0, tag_cs->size);
 
     return tag;
 }
-- 
2.43.0


From bbacbe1222541a1425e0418aa5ad20ba44e3d8b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:01 +0000
Subject: [PATCH 21/32] fix: crash when a file cannot be opened or a temporary
 file cannot be created

---
 src/id3v2lib.c | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/src/id3v2lib.c b/src/id3v2lib.c
index 4de6807..a35a3e5 100644
--- a/src/id3v2lib.c
+++ b/src/id3v2lib.c
@@ -49,6 +49,13 @@ ID3v2_Tag* ID3v2_read_tag(const char* file_name)
     if (tag_header == NULL) return NULL;
 
     FILE* file = fopen(file_name, "rb");
+
+    if (file == NULL)
+    {
+        ID3v2_TagHeader_free(tag_header);
+        return NULL;
+    }
+
     int buffer_length = tag_header->tag_size + ID3v2_TAG_HEADER_LENGTH;
     char* tag_buffer = (char*) malloc((buffer_length) * sizeof(char));
 
@@ -101,12 +108,26 @@ void ID3v2_write_tag(const char* file_name, ID3v2_Tag* tag)
     // Perform operations on a temp file in case things go wrong
     FILE* temp_fp = tmpfile();
 
+    if (temp_fp == NULL)
+    {
+        CharStream_free(tag_cs);
+        return;
+    }
+
     // First write the tag to the temp file
     fwrite(tag_cs->stream, sizeof(char), tag_cs->size, temp_fp);
 
     // And then, read the original audio data and copy it to
     // the temp file so it's located after the tag
     FILE* dest_fp = fopen(file_name, "r+b");
+
+    if (dest_fp == NULL)
+    {
+        fclose(temp_fp);
+        CharStream_free(tag_cs);
+        return;
+    }
+
     fseek(dest_fp, original_size, SEEK_SET); // move to the end of the original tag
 
     int c = 0;
@@ -141,6 +162,14 @@ void ID3v2_delete_tag(const char* file_name)
     FILE* file_fp = fopen(file_name, "rb");
     FILE* temp_fp = tmpfile();
 
+    if (file_fp == NULL || temp_fp == NULL)
+    {
+        if (file_fp != NULL) fclose(file_fp);
+        if (temp_fp != NULL) fclose(temp_fp);
+        ID3v2_TagHeader_free(tag_header);
+        return;
+    }
+
     fseek(file_fp, tag_header->tag_size + ID3v2_TAG_HEADER_LENGTH, SEEK_SET);
 
     int c = 0;
-- 
2.43.0


From 0ab5ac12d8250c328d98a658509b096f06aa4547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:01 +0000
Subject: [PATCH 22/32] fix: do not overwrite a file whose audio could not be
 saved to the temporary file

---
 src/id3v2lib.c | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/id3v2lib.c b/src/id3v2lib.c
index a35a3e5..f873f3f 100644
--- a/src/id3v2lib.c
+++ b/src/id3v2lib.c
@@ -137,9 +137,20 @@ void ID3v2_write_tag(const char* file_name, ID3v2_Tag* tag)
         putc(c, temp_fp);
     }
 
+    // Leave the destination file alone unless everything made it to the temp file
+    bool failed = ferror(dest_fp) || fflush(temp_fp) != 0 || ferror(temp_fp);
+
     // Finally copy the temp file back into the destination file
     fclose(dest_fp);
-    dest_fp = fopen(file_name, "w+b");
+    dest_fp = failed ? NULL : fopen(file_name, "w+b");
+
+    if (dest_fp == NULL)
+    {
+        fclose(temp_fp);
+        CharStream_free(tag_cs);
+        return;
+    }
+
     fseek(temp_fp, 0L, SEEK_SET);
 
     while ((c = getc(temp_fp)) != EOF)
@@ -179,9 +190,20 @@ void ID3v2_delete_tag(const char* file_name)
         putc(c, temp_fp);
     }
 
+    // Leave the file alone unless everything made it to the temp file
+    bool failed = ferror(file_fp) || fflush(temp_fp) != 0 || ferror(temp_fp);
+
     // Finally copy the temp file back into the destination file
     fclose(file_fp);
-    file_fp = fopen(file_name, "w+b");
+    file_fp = failed ? NULL : fopen(file_name, "w+b");
+
+    if (file_fp == NULL)
+    {
+        fclose(temp_fp);
+        ID3v2_TagHeader_free(tag_header);
+        return;
+    }
+
     fseek(temp_fp, 0L, SEEK_SET);
 
     while ((c = getc(temp_fp)) != EOF)
-- 
2.43.0


From 83ed4ae72563f24a98c6e7c3a5cff48d24251f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:02 +0000
Subject: [PATCH 23/32] fix: crash when loading a file without a tag through
 the compat layer

---
 src/id3v2lib.compat.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/id3v2lib.compat.c b/src/id3v2lib.compat.c
index cb16591..564e372 100644
--- a/src/id3v2lib.compat.c
+++ b/src/id3v2lib.compat.c
@@ -126,13 +126,22 @@ ID3v2_tag* new_tag()
 ID3v2_tag* load_tag(const char* file_name)
 {
     ID3v2_TagHeader* header = ID3v2_read_tag_header(file_name);
+    if (header == NULL) return NULL;
+
     FILE* fp = fopen(file_name, "rb");
+
+    if (fp == NULL)
+    {
+        ID3v2_TagHeader_free(header);
+        return NULL;
+    }
+
     const int buffer_size = header->tag_size + ID3v2_TAG_HEADER_LENGTH;
     char* buffer = (char*) malloc(buffer_size * sizeof(char));
-    fread(buffer, sizeof(char), buffer_size, fp);
+    const int bytes_read = fread(buffer, sizeof(char), buffer_size, fp);
     fclose(fp);
 
-    ID3v2_tag* tag = load_tag_with_buffer(buffer, buffer_size);
+    ID3v2_tag* tag = load_tag_with_buffer(buffer, bytes_read);
 
     free(buffer);
     ID3v2_TagHeader_free(header);
@@ -143,6 +152,8 @@ ID3v2_tag* load_tag(const char* file_name)
 ID3v2_tag* load_tag_with_buffer(const char* buffer, int length)
 {
     ID3v2_Tag* tag = ID3v2_read_tag_from_buffer(buffer, length);
+    if (tag == NULL) return NULL;
+
     ID3v2_tag* compat_tag = (ID3v2_tag*) malloc(sizeof(ID3v2_tag));
 
     compat_tag->tag_header = (ID3v2_header*) malloc(sizeof(ID3v2_header));
-- 
2.43.0


From 4a74c3cadebbb3fd07ecb1cbaadc0d210a7c7c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:02 +0000
Subject: [PATCH 24/32] fix: crash when loading or freeing a compat tag without
 frames

---
 src/id3v2lib.compat.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/id3v2lib.compat.c b/src/id3v2lib.compat.c
index 564e372..5f188c9 100644
--- a/src/id3v2lib.compat.c
+++ b/src/id3v2lib.compat.c
@@ -177,7 +177,7 @@ ID3v2_tag* load_tag_with_buffer(const char* buffer, int length)
     ID3v2_FrameList* head = tag->frames;
     ID3v2_frame_list* compat_frames = new_frame_list();
 
-    while (head != NULL)
+    while (head != NULL && head->frame != NULL)
     {
         ID3v2_frame* compat_frame = frame_to_compat_frame(head->frame);
         add_to_list(compat_frames, compat_frame);
@@ -201,6 +201,8 @@ void set_tag(const char* file_name, ID3v2_tag* tag)
 
 void free_frame(ID3v2_frame* frame)
 {
+    if (frame == NULL) return;
+
     free(frame->data);
     free(frame);
 }
-- 
2.43.0


From bf6bf1b62734c7a05468e28d1f27f87ed984297e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:03 +0000
Subject: [PATCH 25/32] fix: uninitialised fields in new compat tags

---
 src/id3v2lib.compat.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/id3v2lib.compat.c b/src/id3v2lib.compat.c
index 5f188c9..635d63e 100644
--- a/src/id3v2lib.compat.c
+++ b/src/id3v2lib.compat.c
@@ -119,6 +119,13 @@ ID3v2_tag* new_tag()
     tag->tag_header = header;
     tag->frames = new_frame_list();
     tag->tag = ID3v2_Tag_new_empty();
+    tag->raw = NULL;
+
+    header->major_version = tag->tag->header->major_version;
+    header->minor_version = tag->tag->header->minor_version;
+    header->flags = tag->tag->header->flags;
+    header->tag_size = tag->tag->header->tag_size;
+    header->extended_header_size = tag->tag->header->extended_header_size;
 
     return tag;
 }
-- 
2.43.0


From 239b26e806e6509bc2bb3929c74f8912acf4f0b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:03 +0000
Subject: [PATCH 26/32] fix: crash when setting through the compat layer a
 frame the tag does not have

---
 src/id3v2lib.compat.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/id3v2lib.compat.c b/src/id3v2lib.compat.c
index 635d63e..6f10bd2 100644
--- a/src/id3v2lib.compat.c
+++ b/src/id3v2lib.compat.c
@@ -78,7 +78,9 @@ void add_to_list(ID3v2_frame_list* main, ID3v2_frame* frame)
 
 void add_uniq_to_list(ID3v2_frame_list* head, ID3v2_frame* frame)
 {
-    while (head != NULL)
+    ID3v2_frame_list* list = head;
+
+    while (head != NULL && head->frame != NULL)
     {
         if (memcmp(head->frame->frame_id, frame->frame_id, 4) == 0)
         {
@@ -91,7 +93,7 @@ void add_uniq_to_list(ID3v2_frame_list* head, ID3v2_frame* frame)
     }
 
     // not found
-    add_to_list(head->start, frame);
+    add_to_list(list, frame);
 }
 
 ID3v2_frame* get_from_list(ID3v2_frame_list* list, const char* frame_id)
-- 
2.43.0


From 3a141857bc8a3f36e5f53c6c9fffa7ace4f180c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:04 +0000
Subject: [PATCH 27/32] fix: second flags byte of compat frames was never set

---
 src/id3v2lib.compat.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/id3v2lib.compat.c b/src/id3v2lib.compat.c
index 6f10bd2..ac24711 100644
--- a/src/id3v2lib.compat.c
+++ b/src/id3v2lib.compat.c
@@ -41,7 +41,7 @@ ID3v2_frame* frame_to_compat_frame(ID3v2_Frame* frame)
     // Frame header
     memcpy(compat_frame->frame_id, frame->header->id, ID3v2_FRAME_HEADER_ID_LENGTH);
     compat_frame->size = frame->header->size;
-    memcpy(compat_frame->flags, frame->header->flags, ID3v2_TAG_HEADER_FLAGS_LENGTH);
+    memcpy(compat_frame->flags, frame->header->flags, ID3v2_FRAME_HEADER_FLAGS_LENGTH);
 
     // Frame data
     CharStream* frame_cs = Frame_to_char_stream(frame);
-- 
2.43.0


From 4c4ccbf4fcb78772c2431ee792d56106ed0d445e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:04 +0000
Subject: [PATCH 28/32] fix: crash when parsing the content of a compat frame
 the tag does not have

---
 src/id3v2lib.compat.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/id3v2lib.compat.c b/src/id3v2lib.compat.c
index ac24711..18a79c5 100644
--- a/src/id3v2lib.compat.c
+++ b/src/id3v2lib.compat.c
@@ -292,6 +292,8 @@ ID3v2_frame* tag_get_album_cover(ID3v2_tag* tag)
 
 ID3v2_frame_text_content* parse_text_frame_content(ID3v2_frame* frame)
 {
+    if (frame == NULL) return NULL;
+
     ID3v2_frame_text_content* content =
         (ID3v2_frame_text_content*) malloc(sizeof(ID3v2_frame_text_content));
     ID3v2_TextFrame* text_frame = (ID3v2_TextFrame*) frame->frame;
@@ -306,6 +308,8 @@ ID3v2_frame_text_content* parse_text_frame_content(ID3v2_frame* frame)
 
 ID3v2_frame_comment_content* parse_comment_frame_content(ID3v2_frame* frame)
 {
+    if (frame == NULL) return NULL;
+
     ID3v2_frame_comment_content* content =
         (ID3v2_frame_comment_content*) malloc(sizeof(ID3v2_frame_comment_content));
     ID3v2_CommentFrame* comment_frame = (ID3v2_CommentFrame*) frame->frame;
@@ -322,6 +326,8 @@ ID3v2_frame_comment_content* parse_comment_frame_content(ID3v2_frame* frame)
 
 ID3v2_frame_apic_content* parse_apic_frame_content(ID3v2_frame* frame)
 {
+    if (frame == NULL) return NULL;
+
     ID3v2_frame_apic_content* content =
         (ID3v2_frame_apic_content*) malloc(sizeof(ID3v2_frame_apic_content));
     ID3v2_ApicFrame* apic_frame = (ID3v2_ApicFrame*) frame->frame;
-- 
2.43.0


From d075c2babc43cbab83fd132eadbec656e72ab5f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:05 +0000
Subject: [PATCH 29/32] fix: crash when setting a compat album cover from a
 missing file or one without extension

---
 src/id3v2lib.compat.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/id3v2lib.compat.c b/src/id3v2lib.compat.c
index 18a79c5..ce47d92 100644
--- a/src/id3v2lib.compat.c
+++ b/src/id3v2lib.compat.c
@@ -449,6 +449,8 @@ void tag_set_album_cover(const char* filename, ID3v2_tag* tag)
     int image_size;
     char* mimetype;
 
+    if (album_cover == NULL) return;
+
     fseek(album_cover, 0, SEEK_END);
     image_size = (int) ftell(album_cover);
     fseek(album_cover, 0, SEEK_SET);
@@ -458,8 +460,9 @@ void tag_set_album_cover(const char* filename, ID3v2_tag* tag)
 
     fclose(album_cover);
 
-    mimetype =
-        strcmp(strrchr(filename, '.') + 1, "png") == 0 ? ID3v2_MIME_TYPE_PNG : ID3v2_MIME_TYPE_JPG;
+    const char* extension = strrchr(filename, '.');
+    mimetype = extension != NULL && strcmp(extension + 1, "png") == 0 ? ID3v2_MIME_TYPE_PNG
+                                                                      : ID3v2_MIME_TYPE_JPG;
     tag_set_album_cover_from_bytes(album_cover_bytes, mimetype, image_size, tag);
 
     free(album_cover_bytes);
-- 
2.43.0


From a199531f9bbbfa65211cbb5acb9a4ebcdada220d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:49 +0000
Subject: [PATCH 30/32] fix: a frame without body at the very end of the tag
 was ignored

---
 src/modules/tag.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/tag.c b/src/modules/tag.c
index 0acefe3..c9ea1a7 100644
--- a/src/modules/tag.c
+++ b/src/modules/tag.c
@@ -65,7 +65,7 @@ ID3v2_Tag* Tag_parse(CharStream* tag_cs)
 
     ID3v2_Frame* current_frame;
     int frames_end = tag_cs->cursor;
-    while (tag_cs->cursor < tag->header->tag_size)
+    while (tag_cs->cursor < tag_cs->size)
     {
         current_frame = Frame_parse(tag_cs, tag->header->major_version);
         if (current_frame == NULL) break;
-- 
2.43.0


From 3360582d7c5cbfd50546f275cb81e99798520a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:29 +0000
Subject: [PATCH 31/32] fix: comments in ISO-8859-1 were stored with an utf-16
 description

---
 src/modules/tag.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/modules/tag.c b/src/modules/tag.c
index c9ea1a7..2b25182 100644
--- a/src/modules/tag.c
+++ b/src/modules/tag.c
@@ -391,7 +391,8 @@ void ID3v2_Tag_set_comment(ID3v2_Tag* tag, const char* lang, const char* comment
         &(ID3v2_CommentFrameInput){
             .flags = "\0\0",
             .language = lang,
-            .short_description = EMPTY_UNICODE_STR,
+            // Both strings of the frame share its encoding
+            .short_description = string_has_bom(comment) ? EMPTY_UNICODE_STR : "",
             .comment = comment,
         }
     );
-- 
2.43.0


From 25a77104d9ce976aee165ad642674e63e55badad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:25 +0000
Subject: [PATCH 32/32] fix: the extended header size was read from beyond a
 tag too small to hold one

---
 src/modules/tag_header.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/tag_header.c b/src/modules/tag_header.c
index 92cffe6..6cd6a31 100644
--- a/src/modules/tag_header.c
+++ b/src/modules/tag_header.c
@@ -72,7 +72,7 @@ ID3v2_TagHeader* TagHeader_parse(CharStream* header_cs)
 
     int extended_header_size = 0;
 
-    if ((flags & (1 << 6)) == (1 << 6))
+    if ((flags & (1 << 6)) == (1 << 6) && tag_size >= ID3v2_EXTENDED_HEADER_SIZE_LENGTH)
     {
         // An extended header exists, retrieve its size
         char raw_eh_size[ID3v2_EXTENDED_HEADER_SIZE_LENGTH] = {0};
-- 
2.43.0

