From f4b3cbaeb610c96f22182aa9276c72cb222a1b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:07 +0000
Subject: [PATCH 01/94] fix: axl_hash_string overflows a signed int

The accumulator is shifted and added as an int: for most keys longer than
seven characters the value no longer fits, which is undefined behaviour.
Do that step on unsigned values (same results, so same table order).
---
 src/axl_hash.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/axl_hash.c b/src/axl_hash.c
index 6cd21cf..c5b4509 100644
--- a/src/axl_hash.c
+++ b/src/axl_hash.c
@@ -123,7 +123,7 @@ unsigned int axl_hash_string (axlPointer _key)
 
 	/* hashing taken from the Red Dragon book!! */
 	while (*key) {
-		h = (h << 4) + *key;
+		h = (int) (((unsigned int) h << 4) + *key);
 		if ((g = h & 0xF0000000) != 0) {
 			h ^= g >> 24;
 			h ^= g;
-- 
2.43.0


From d622fbaff14a2acff9f2b06a5bb3e87417c7a0f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:34 +0000
Subject: [PATCH 02/94] fix: short standalone value makes the parser read past
 its buffer

memcmp always looks at three bytes, but the value between the quotes can
be shorter (standalone=''). Compare it as the string it is.
---
 src/axl_doc.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/axl_doc.c b/src/axl_doc.c
index 3e65744..5e63556 100644
--- a/src/axl_doc.c
+++ b/src/axl_doc.c
@@ -687,10 +687,7 @@ axl_bool __axl_doc_parse_xml_header (axlStream * stream, axlDoc * doc, axlError
 			}
 
 			/* set standalone configuration */
-			if (memcmp ("yes", string_aux, 3))
-				doc->standalone = axl_false;
-			else
-				doc->standalone = axl_true;
+			doc->standalone = axl_cmp ("yes", string_aux);
 		}
 		
 		/* check for an space */
-- 
2.43.0


From 46df5d1807e55a2b997abff46baba323f9f85bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:40 +0000
Subject: [PATCH 03/94] fix: processing instruction without content crashes
 dump and equality

<?target?> is stored with a NULL content: getting its size or dumping it
dereferenced that NULL, and two such instructions were never equal.
---
 src/axl_doc.c  |  8 ++++++++
 src/axl_node.c | 15 ++++++++-------
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/axl_doc.c b/src/axl_doc.c
index 5e63556..7f3c608 100644
--- a/src/axl_doc.c
+++ b/src/axl_doc.c
@@ -2880,6 +2880,10 @@ axl_bool      axl_pi_are_equal                 (axlPI * pi,
 	if (! axl_cmp (pi->name, pi2->name))
 		return axl_false;
 
+	/* content is optional: without it, both must lack it */
+	if (pi->content == NULL || pi2->content == NULL)
+		return (pi->content == pi2->content);
+
 	/* final check, both content must be equal */
 	return axl_cmp (pi->content, pi2->content);
 }
@@ -2947,6 +2951,10 @@ int       axl_pi_get_size                  (axlPI  * pi)
 {
 	axl_return_val_if_fail (pi, -1);
 
+	/* <?name?> */
+	if (pi->content == NULL)
+		return strlen (pi->name) + 4;
+
 	/* <?name content?> */
 	return strlen (pi->name) + strlen (pi->content) + 5;
 }
diff --git a/src/axl_node.c b/src/axl_node.c
index 0e3d890..4fa92b3 100644
--- a/src/axl_node.c
+++ b/src/axl_node.c
@@ -4900,14 +4900,15 @@ int __axl_node_dump_items (axlItem * item, char * content, int level, axl_bool p
 			memcpy (content + desp, string_aux, strlen (string_aux));
 			desp += strlen (string_aux);
 			
-			/* write pi start */
-			memcpy (content + desp, " ", 1);
-			desp += 1;
-			
-			/* write pi content */
+			/* write pi content, if defined */
 			string_aux = axl_pi_get_content (item->data);
-			memcpy (content + desp, string_aux, strlen (string_aux));
-			desp += strlen (string_aux);
+			if (string_aux != NULL) {
+				memcpy (content + desp, " ", 1);
+				desp += 1;
+
+				memcpy (content + desp, string_aux, strlen (string_aux));
+				desp += strlen (string_aux);
+			} /* end if */
 			
 			/* write pi start */
 			memcpy (content + desp, "?>", 2);
-- 
2.43.0


From 0db4e8a1c42107230b8d3ee144a406a44cd89f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:45 +0000
Subject: [PATCH 04/94] fix: text before the root node and </> accepted as a
 root node

The initial < was only required when the input had already ended, so
'text<a/>' gave a node called 'text<a', and '</>' gave a node without name.
---
 src/axl_doc.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/axl_doc.c b/src/axl_doc.c
index 7f3c608..535245a 100644
--- a/src/axl_doc.c
+++ b/src/axl_doc.c
@@ -783,8 +783,9 @@ axl_bool __axl_doc_parse_node (axlStream   * stream,
 	if (! axl_doc_consume_comments (doc, stream, error))
 		return axl_false;
 
-	/* check for initial < definition */
-	if (! (axl_stream_inspect (stream, "<", 1) > 0)  && ! axl_stream_remains (stream)) {
+	/* check for initial < definition: for a child node it was
+	 * already consumed by the caller */
+	if (! (axl_stream_inspect (stream, "<", 1) > 0)  && (doc->rootNode == NULL || ! axl_stream_remains (stream))) {
 		/* check if we are reading the first node node */
 		if (doc->rootNode == NULL)
 			axl_error_new (-2, "expected initial < for a root node definition, not found. An xml document must have, at least, one node definition.", 
@@ -833,6 +834,16 @@ axl_bool __axl_doc_parse_node (axlStream   * stream,
 			/* flag as matched /> */
 			matched_chunk          = 1;
 			string_aux[length - 1] = 0;
+
+			/* check the node still has a name */
+			if (string_aux[0] == 0) {
+				/* use alloc though string factory */
+				axl_stream_set_buffer_alloc (stream, NULL, NULL);
+
+				axl_error_new (-2, "expected an non empty content for the node name not found.", stream, error);
+				axl_stream_free (stream);
+				return axl_false;
+			} /* end if */
 		} /* end if */
 	} /* end if */
 
-- 
2.43.0


From 021e26eb5eb7a1e497c3f2469f2c6ba9dd8f1bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:29 +0000
Subject: [PATCH 05/94] fix: documents with an empty comment are rejected

The size of a result returned by reference was stored in the flag telling
that a reference was wanted: for an empty result (<!---->) the caller got
NULL. Keep the flag apart, and do not look at the byte before an empty
result when closing a node or dumping a comment.
---
 src/axl_doc.c    | 2 +-
 src/axl_node.c   | 6 ++++--
 src/axl_stream.c | 8 ++++++--
 3 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/axl_doc.c b/src/axl_doc.c
index 535245a..31b364b 100644
--- a/src/axl_doc.c
+++ b/src/axl_doc.c
@@ -1077,7 +1077,7 @@ axl_bool __axl_doc_parse_close_node (axlStream * stream, axlDoc * doc, axlNode *
 	}
 
 	/* check for optional white space inside the trailing result */
-	if (axl_stream_is_white_space (string + result_size - 1)) {
+	if (result_size > 0 && axl_stream_is_white_space (string + result_size - 1)) {
 		/* nullify to remove the optional white spaces */
 		string [result_size - 1] = 0;
 	} /* end if */
diff --git a/src/axl_node.c b/src/axl_node.c
index 4fa92b3..a2e5220 100644
--- a/src/axl_node.c
+++ b/src/axl_node.c
@@ -4692,7 +4692,9 @@ int       axl_node_get_flat_size            (axlNode * node, axl_bool pretty_pri
 			content = (axlNodeContent *) item->data;
 
 			/* check if the content has already defined white spaces */
-			if (content->content[0] == ' ' && content->content[content->content_size - 1] == ' ')
+			if (content->content_size == 0)
+				result += 9;
+			else if (content->content[0] == ' ' && content->content[content->content_size - 1] == ' ')
 				result += content->content_size + 7;
 			else if (content->content[0] != ' ' && content->content[content->content_size - 1] == ' ')
 				result += content->content_size + 8;
@@ -4942,7 +4944,7 @@ int __axl_node_dump_items (axlItem * item, char * content, int level, axl_bool p
 			
 			/* add an space if the content is found to not
 			 * have one */
-			if (nodeContent->content [nodeContent->content_size - 1] == ' ') {
+			if (nodeContent->content_size > 0 && nodeContent->content [nodeContent->content_size - 1] == ' ') {
 				memcpy (content + desp, "-->", 3);
 				desp += 3;
 			} else {
diff --git a/src/axl_stream.c b/src/axl_stream.c
index 854a34f..32605b7 100644
--- a/src/axl_stream.c
+++ b/src/axl_stream.c
@@ -1291,6 +1291,10 @@ char * __axl_stream_get_untilv_wide (axlStream * stream, va_list args)
 
 	/* get how many bytes remains to be read */
 	int          remains;
+
+	/* check if a reference was requested, before result_size is
+	 * used to hold the size found (which may be 0) */
+	axl_bool     by_reference = stream->result_size;
 	
 	/* set current matched value */
 	stream->chunk_matched = -1;
@@ -1485,7 +1489,7 @@ char * __axl_stream_get_untilv_wide (axlStream * stream, va_list args)
 			}
 			
 			/* get a copy to the chunk to be returned */
-			if (! stream->result_size) {
+			if (! by_reference) {
 				if (stream->alloc != NULL)
 					stream->last_chunk = stream->alloc (index + 1, stream->alloc_data);
 				else 
@@ -1513,7 +1517,7 @@ char * __axl_stream_get_untilv_wide (axlStream * stream, va_list args)
 			
 			
 			/* return allocated result */
-			if (! stream->result_size)
+			if (! by_reference)
 				return stream->last_chunk;
 
 			/* return reference result */
-- 
2.43.0


From 58a9e66c03d2446fb23aeb523349574bdae11a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:20 +0000
Subject: [PATCH 06/94] fix: xml:space lost or leaked by attributes, empty
 nodes and comments

The preserve flag was pushed once per attribute and never for a node
without them, while it is popped once per closing tag: the scope of
xml:space="preserve" ended at the first inner closing tag or was leaked
to the following siblings, and spaces after a comment or a processing
instruction were dropped even inside it. Push it once per node that has
content, and keep those spaces while it is in force.
---
 src/axl_doc.c | 37 +++++++++++++++++++++++--------------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/src/axl_doc.c b/src/axl_doc.c
index 31b364b..2a560d3 100644
--- a/src/axl_doc.c
+++ b/src/axl_doc.c
@@ -778,11 +778,16 @@ axl_bool __axl_doc_parse_node (axlStream   * stream,
 	int       matched_chunk;
 	int       length;
 	axl_bool  delim;
+	axl_bool  preserve;
 	
 	/* consume a possible comment */
 	if (! axl_doc_consume_comments (doc, stream, error))
 		return axl_false;
 
+	/* make the node to inherit xml:space configuration from its
+	 * parent */
+	preserve = axl_binary_stack_peek (doc->xmlPreserve);
+
 	/* check for initial < definition: for a child node it was
 	 * already consumed by the caller */
 	if (! (axl_stream_inspect (stream, "<", 1) > 0)  && (doc->rootNode == NULL || ! axl_stream_remains (stream))) {
@@ -933,6 +938,10 @@ axl_bool __axl_doc_parse_node (axlStream   * stream,
 			/* flag that the node is an empty definition */
 			*is_empty = axl_false;
 
+			/* install xml:space configuration for the
+			 * node content: removed once it is closed */
+			axl_binary_stack_push (doc->xmlPreserve, preserve);
+
 			/* this node is ended */
 			return axl_true;
 		}
@@ -1005,7 +1014,7 @@ axl_bool __axl_doc_parse_node (axlStream   * stream,
 			/* set a new attribute for the given node */
 			axl_node_set_attribute_from_factory (doc->attr_factory, node, string_aux, string_aux2);
 
-			/* check xml:space configuration and update binary stack */
+			/* check xml:space configuration */
 			if (axl_cmp (string_aux, "xml:space")) {
 				if (axl_cmp (string_aux2, "preserve")) {
 					__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "found xml:space=preseve, notifying..");
@@ -1013,7 +1022,7 @@ axl_bool __axl_doc_parse_node (axlStream   * stream,
 					/* 1: xml:space=preserve (found)
 					 * make current node and all its childs to preserve (by
 					 * default) all white spaces found */
-					axl_binary_stack_push (doc->xmlPreserve, axl_true);
+					preserve = axl_true;
 
 				} else if (axl_cmp (string_aux2, "default")) {
 					__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "found xml:space=default, notifying..");
@@ -1021,7 +1030,7 @@ axl_bool __axl_doc_parse_node (axlStream   * stream,
 					/* 2: xml:space=default  (found)
 					 * make current node and all its childs to not
 					 * preserve white spaces (by default) */
-					axl_binary_stack_push (doc->xmlPreserve, axl_false);
+					preserve = axl_false;
 				} else {
 					/* parse error */
 					axl_error_new (-2, "xml:space attribute found with other value than 'preserve' or 'default', this is not allowed.", stream, error);
@@ -1029,14 +1038,6 @@ axl_bool __axl_doc_parse_node (axlStream   * stream,
 					return axl_false;
 
 				} /* end if */
-			} else {
-				/* 3: xml:space (not found) 
-				 * make the current node to inherint
-				 * default from parent */
-				if (axl_binary_stack_is_empty (doc->xmlPreserve))
-					axl_binary_stack_push (doc->xmlPreserve, axl_false);
-				else
-					axl_binary_stack_push_the_same (doc->xmlPreserve);
 			} /* end if */
 
 			__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "attribute installed..");
@@ -3344,12 +3345,16 @@ axl_bool      axl_doc_consume_comments         (axlDoc * doc, axlStream * stream
 {
 
 	axl_bool     found_item;
+	axl_bool     keep_spaces;
 	char       * content;
 	int          size;
 
 	/* get current parent node */
 	axlNode * parent = (doc != NULL) ? axl_stack_peek (doc->parentNode) : NULL;
 
+	/* check if spaces are content of the parent (xml:space) */
+	keep_spaces = (parent != NULL) && axl_binary_stack_peek (doc->xmlPreserve);
+
 	__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "checking for comemnts");
 
 	/* know, try to read comments a process instructions.  Do this
@@ -3361,7 +3366,9 @@ axl_bool      axl_doc_consume_comments         (axlDoc * doc, axlStream * stream
 		found_item = axl_false;
 		
 		/* get rid from spaces */
-		AXL_CONSUME_SPACES(stream);
+		if (! keep_spaces) {
+			AXL_CONSUME_SPACES(stream);
+		} /* end if */
 
 		/* check for comments */
 		if (axl_stream_inspect (stream, "<!--", 4) > 0) {
@@ -3385,7 +3392,9 @@ axl_bool      axl_doc_consume_comments         (axlDoc * doc, axlStream * stream
 		__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "now see for process instructions");
 	
 		/* get rid from spaces */
-		AXL_CONSUME_SPACES(stream);
+		if (! keep_spaces) {
+			AXL_CONSUME_SPACES(stream);
+		} /* end if */
 
 		/* check for PI, only once the xml header have been processed */
 		if ((doc != NULL) && doc->headerProcess && (axl_stream_peek (stream, "<?", 2) > 0)) {
@@ -3397,7 +3406,7 @@ axl_bool      axl_doc_consume_comments         (axlDoc * doc, axlStream * stream
 		
 		/* do not consume spaces if an item was found because
 		 * it is done again at the begin of the loop */
-		if (! found_item) {
+		if (! found_item && ! keep_spaces) {
 			/* get rid from spaces */
 			AXL_CONSUME_SPACES(stream);
 		}
-- 
2.43.0


From 5ec65fc5f1bbf3765eae21d933010861f3291d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:44 +0000
Subject: [PATCH 07/94] fix: attribute names hold whatever is found before the
 =

Spaces around the = are legal, but were kept inside the name (before it)
or made the document to be rejected (after it), and an attribute without
value swallowed the markup that follows: <a b><c d="x"/></a> was accepted
with an attribute called 'b><c d'.
---
 src/axl_doc.c | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/axl_doc.c b/src/axl_doc.c
index 2a560d3..7d0bfae 100644
--- a/src/axl_doc.c
+++ b/src/axl_doc.c
@@ -962,6 +962,13 @@ axl_bool __axl_doc_parse_node (axlStream   * stream,
 			 * name */
 			axl_stream_nullify (stream, LAST_CHUNK);
 
+			/* remove spaces between the name and the = */
+			length = strlen (string_aux);
+			while (length > 0 && axl_stream_is_white_space (string_aux + length - 1)) {
+				length--;
+				string_aux [length] = 0;
+			} /* end while */
+
 			/* check for empty values at the attribute definition */
 			if (string_aux [0] == 0) {
 				axl_error_new (-5, "Expected to find an attribute name (but found an empty value)", stream, error);
@@ -969,8 +976,18 @@ axl_bool __axl_doc_parse_node (axlStream   * stream,
 				return axl_false;
 			} /* end if */
 
+			/* check that what was found before the = is a name */
+			if (strpbrk (string_aux, " \n\t\r<>\"'") != NULL) {
+				axl_error_new (-5, "Expected to find an attribute name followed by = (but found other content)", stream, error);
+				axl_stream_free (stream);
+				return axl_false;
+			} /* end if */
+
 			__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "attribute found: [%s]", string_aux);
 
+			/* get rid from spaces between the = and the value */
+			AXL_CONSUME_SPACES (stream);
+
 			/* remove next " and ' if defined */
 			/* flag the we are looking for a " */
 			delim = axl_true;
-- 
2.43.0


From 83ebddb881e7ff391152352cd7e55238e4fd3ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:05 +0000
Subject: [PATCH 08/94] fix: terminators missed when a file is read in several
 blocks

Looking for a chunk on a file stream went one position back after reading
the next block, so three-byte terminators (]]>, -->) with two bytes in the
previous block were not seen, and the last byte of the file was not always
inspected. Have the longest chunk available before comparing at every
position. As the end of the stream is now found at one place, do not move
the index over a terminator that was not found there either.
---
 src/axl_stream.c | 86 +++++++++++++-----------------------------------
 1 file changed, 22 insertions(+), 64 deletions(-)

diff --git a/src/axl_stream.c b/src/axl_stream.c
index 32605b7..7445611 100644
--- a/src/axl_stream.c
+++ b/src/axl_stream.c
@@ -1283,15 +1283,12 @@ char * __axl_stream_get_untilv_wide (axlStream * stream, va_list args)
 	int          index       = 0;
 	int          _index      = 0;
 	int          length      = 0;
-	int          max_length  = 0;
+	int          max_length  = 1;
 	axl_bool     matched;
 	char       * string      = NULL;
 	axl_bool     match_empty = axl_false;
 	int          empty_index = 0;
 
-	/* get how many bytes remains to be read */
-	int          remains;
-
 	/* check if a reference was requested, before result_size is
 	 * used to hold the size found (which may be 0) */
 	axl_bool     by_reference = stream->result_size;
@@ -1330,74 +1327,35 @@ char * __axl_stream_get_untilv_wide (axlStream * stream, va_list args)
 		iterator ++;
 	}
 
-	/* calculate how many bytes ara available */
-	remains = stream->stream_size - stream->stream_index;
-
-	__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "remaining data to be inspected: %d bytes (stream->stream-size=%d, stream->stream-index=%d)",
-		   remains, stream->stream_size, stream->stream_index);
-
 	/* now we have chunks to lookup, stream until get the stream
 	 * limited by the chunks received. */
 	do {
 
-		/* decrease remain bytes to be read until perform a
-		 * prebuffer operation */
-		remains--;
-
-		/* only prebuffer for this type of stream */
-		if (stream->type == STREAM_FD) {
-			
-			/* check if the index is falling out side the buffer boundaries */
-			if (remains < 0) {
-
-				if (! axl_stream_prebuffer (stream)) {
-					/* check if a call to zero was found */
-					if (stream->zero) {
-						/* flag that chunk matched
-						 * will be -2 */
-						stream->chunk_matched = -2;
-						goto matched_return_result;
-					} /* end if */
-					__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "failed while prebuffer (stream->type = %d)", stream->type);
+		/* make available (if possible) enough content to
+		 * check the longest chunk at the current index */
+		while ((stream->stream_index + index + max_length) > stream->stream_size) {
+			if (! axl_stream_prebuffer (stream))
+				break;
+		} /* end while */
 
-					return NULL;
-				}
-				
-				/* update remains value but this time removing
-				 * one unit (the unit to be consumed at the
-				 * next sentence) */
-				remains = stream->stream_size - index - 1;
-
-				/* work around: because the index is updated
-				 * at the end of the loop, it is required to
-				 * decrease the index in one unit in the case
-				 * a prebuffer operation happens */
-				if (index > 0) {
-					index--;
-				}
-				
+		/* check we don't get out side the content */
+		if ((stream->stream_index + index) >= stream->stream_size) {
+
+			/* check for zero stream ended
+			 * support */
+			if (stream->zero) {
+				/* flag that chunk matched
+				 * will be -2: there is no terminator
+				 * to accept */
+				stream->chunk_matched = -2;
+				length                = 0;
+				goto matched_return_result;
 			} /* end if */
-		}
 
-		/* check we don't get out side the memory */
-		if (stream->type == STREAM_MEM) {
-			if (remains < 0) {
-
-				/* check for zero stream ended
-				 * support */
-				if (stream->zero) {
-					/* flag that chunk matched
-					 * will be -2 */
-					stream->chunk_matched = -2;
-					goto matched_return_result;
-				}
-
-				/* seems there is no more room to
-				 * read */
-				return NULL;
-			} /* end if */
+			/* seems there is no more room to
+			 * read */
+			return NULL;
 		} /* end if */
-
 		
 		/* compare chunks received for each index increased
 		 * one step */
-- 
2.43.0


From c186a681c31866d1510174f065630f50cc7bd66f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:43 +0000
Subject: [PATCH 09/94] fix: markup compared with stale data after a short read

axl_stream_fall_outside read one block more and took the requested size
for available, but read() can return less than that (a pipe, a terminal or
a signal): keep reading until there is enough or the content ends.
---
 src/axl_stream.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/axl_stream.c b/src/axl_stream.c
index 7445611..0a86894 100644
--- a/src/axl_stream.c
+++ b/src/axl_stream.c
@@ -2051,10 +2051,12 @@ axl_bool        axl_stream_casecmp           (const char * chunk1, const char *
  */
 axl_bool axl_stream_fall_outside (axlStream * stream, int inspected_size)
 {
-	/* if the content is inside memory, check it */
-	if (fall_out_side_checking (stream, inspected_size)) {
-		return (! axl_stream_prebuffer (stream));
-	}
+	/* if the content is inside memory, check it: one read can
+	 * return less content than requested */
+	while (fall_out_side_checking (stream, inspected_size)) {
+		if (! axl_stream_prebuffer (stream))
+			return axl_true;
+	} /* end while */
 	
 	/* otherwise, axl_false is returned */
 	return axl_false;
-- 
2.43.0


From 4cadce4cffb6d5cc1aaf3ab385258e818e81d6d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:48 +0000
Subject: [PATCH 10/94] fix: failed read() corrupts the file stream

The -1 returned by read() (a directory, an I/O error) was added to the
size of the content available, and made the decoding loop never end. Take
it for the end of the content, which makes the document to be rejected.
---
 src/axl_stream.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/axl_stream.c b/src/axl_stream.c
index 0a86894..b97640f 100644
--- a/src/axl_stream.c
+++ b/src/axl_stream.c
@@ -390,8 +390,8 @@ axl_bool axl_stream_prebuffer (axlStream * stream)
 				/* update the amount of data available tat the decode temp */
 				if (bytes_read > 0)
 					stream->decode_temp_last += bytes_read;
-				else if (bytes_read == 0 && stream->fd > 0) {
-					__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "end of file reached");
+				else if (stream->fd > 0) {
+					__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "end of file reached (or failed to read it)");
 					close (stream->fd);
 					stream->fd = -1;
 				} /* end if */
@@ -421,7 +421,7 @@ axl_bool axl_stream_prebuffer (axlStream * stream)
 		__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "   bytes read from the file, size %d", bytes_read);
 
 		/* call to check */
-		if (stream->check_f) {
+		if (stream->check_f && bytes_read > 0) {
 			/* call to check */
 			if (! axl_stream_content_check (stream, stream->stream + stream->stream_size, bytes_read, NULL)) {
 				__axl_log (LOG_DOMAIN, AXL_LEVEL_CRITICAL, "failed to prebuffer, content check function have failed");
@@ -429,8 +429,8 @@ axl_bool axl_stream_prebuffer (axlStream * stream)
 			}
 		} /* end if */
 		
-		/* check for end of file reached */
-		if (bytes_read == 0) {
+		/* check for end of file reached or a read error */
+		if (bytes_read <= 0) {
 			__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "end of file reached");
 			close (stream->fd);
 			stream->fd = -1;
-- 
2.43.0


From 9e1624318078fa2f6123a9b919cb2d418a969666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:54 +0000
Subject: [PATCH 11/94] fix: leading spaces of content lost at the file buffer
 boundary

Spaces before content were consumed and then the stream was moved back to
the index it had before: when the next block of the file was read in
between, that index was a position of another block. Look at what follows
the spaces before consuming them.
---
 src/axl_doc.c | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/src/axl_doc.c b/src/axl_doc.c
index 7d0bfae..3e36b4a 100644
--- a/src/axl_doc.c
+++ b/src/axl_doc.c
@@ -1189,16 +1189,23 @@ axlDoc * __axl_doc_parse_common (const char * entity, int entity_size,
 		/* while the stream have data */
 		while (axl_stream_remains (stream)) {
 
-			/* get current index */
-			index = axl_stream_get_index (stream);
-
-			__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "current index: %d (global: %d)", index,
+			__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "current index: %d (global: %d)", axl_stream_get_index (stream),
 				   axl_stream_get_global_index (stream));
 			
 			/* get rid from spaces according to the
-			 * xml:space configuration */
+			 * xml:space configuration, but only if they
+			 * are not the begin of the node content */
 			if (! axl_binary_stack_peek (doc->xmlPreserve)) {
-				AXL_CONSUME_SPACES(stream);
+				index = 0;
+				while (! axl_stream_fall_outside (stream, index + 1) && 
+				       (axl_stream_inspect_code (stream, ' ', index)  ||
+					axl_stream_inspect_code (stream, '\n', index) ||
+					axl_stream_inspect_code (stream, '\t', index) ||
+					axl_stream_inspect_code (stream, '\r', index)))
+					index++;
+				if (axl_stream_fall_outside (stream, index + 1) || axl_stream_inspect_code (stream, '<', index)) {
+					AXL_CONSUME_SPACES(stream);
+				} /* end if */
 			} /* end if */
 
 			/* consume a possible comment and process instructions */
@@ -1286,12 +1293,6 @@ axlDoc * __axl_doc_parse_common (const char * entity, int entity_size,
 				continue;
 			}
 			
-			/* restore index position previous to the axl
-			 * space consuming */
-			if (axl_stream_get_index (stream) > index) {
-				axl_stream_move (stream, index);
-			}
-			
 			/* found node content */
 			axl_stream_set_buffer_alloc (stream, (axlStreamAlloc)__axl_doc_alloc, doc);
 			string = axl_stream_get_until (stream, NULL, NULL, axl_false, 1, "<");
-- 
2.43.0


From 342e726377689b9966b74d7de622fb172c7dd49e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:43 +0000
Subject: [PATCH 12/94] fix: content starting with /> taken for the end of an
 empty node

Once the > of a node without attributes was read, the text that follows
was still checked to be a />: <a>/> text</a> gave an empty node.
---
 src/axl_doc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/axl_doc.c b/src/axl_doc.c
index 3e36b4a..1e8ffb8 100644
--- a/src/axl_doc.c
+++ b/src/axl_doc.c
@@ -898,7 +898,7 @@ axl_bool __axl_doc_parse_node (axlStream   * stream,
 		 * the value 0 or 1 was matched, this means that we
 		 * are on "/>" case */
 		if ((matched_chunk == 1) ||
-		    axl_stream_inspect (stream, "/>", 2) > 0) {
+		    (matched_chunk != 0 && axl_stream_inspect (stream, "/>", 2) > 0)) {
 			/* use alloc though string factory */
 			axl_stream_set_buffer_alloc (stream, NULL, NULL);
 
-- 
2.43.0


From 6b2f9a3aa0e5c7f81d59c95431120b513c652aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:49 +0000
Subject: [PATCH 13/94] fix: attribute value without closing quote accepted

The value was installed as NULL and parsing went on from the first byte of
the value, so <a b=' /> was accepted (and crashed later if dumped).
---
 src/axl_doc.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/axl_doc.c b/src/axl_doc.c
index 1e8ffb8..f80ad80 100644
--- a/src/axl_doc.c
+++ b/src/axl_doc.c
@@ -1020,6 +1020,16 @@ axl_bool __axl_doc_parse_node (axlStream   * stream,
 			 * inside string_aux2 */
 			axl_stream_nullify (stream, LAST_CHUNK);
 
+			/* check the value was found */
+			if (string_aux2 == NULL) {
+				/* use alloc though string factory */
+				axl_stream_set_buffer_alloc (stream, NULL, NULL);
+
+				axl_error_new (-2, "Expected to find the end of an attribute value, but it was not found", stream, error);
+				axl_stream_free (stream);
+				return axl_false;
+			} /* end if */
+
 			if (axl_node_has_attribute (node, string_aux)) {
 				/* parse error */
 				axl_error_report (error, -3, "Unable to add attribute '%s' to node <%s> which already has this attribute. Duplicate attribute error. Error was found near to: %s", 
-- 
2.43.0


From fe4c2b25915ebf4ab887fb96c0d3b990681c4a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:44 +0000
Subject: [PATCH 14/94] fix: utf-8 files rejected or cut at the read buffer
 boundary

The utf-8 check looked at every block read from a file on its own, so a
valid character split between two blocks made the document to be rejected.
And once a block was wrong, it was dropped and the next one was read as if
it followed. Let the check tell how many bytes wait for the next block,
stop reading after a wrong one, and report an error.
---
 babel/axl_babel.c | 23 ++++++++++++++++++++++-
 src/axl_decl.h    |  4 +++-
 src/axl_stream.c  | 32 ++++++++++++++++++++++++++++----
 3 files changed, 53 insertions(+), 6 deletions(-)

diff --git a/babel/axl_babel.c b/babel/axl_babel.c
index e3e3e16..72fdc2e 100644
--- a/babel/axl_babel.c
+++ b/babel/axl_babel.c
@@ -325,8 +325,29 @@ int axl_babel_utf8_check (const char  * source,
 			  axlPointer    user_data,
 			  axlError   ** error)
 {
+	int           index;
+	int           length;
+	int           iterator;
+	unsigned char value;
+
 	__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "received notification to check content size=%d to have valid utf-8: %s", source_size, source);
-	return axl_babel_check_utf8_content (source, source_size, NULL) ? 1 : 0;
+	if (axl_babel_check_utf8_content (source, source_size, &index))
+		return 1;
+
+	/* check if what was found is a character cut at the end of
+	 * the content: get its length from the first byte, and check
+	 * that what is available is right */
+	value  = source[index];
+	length = (value >= 240 && value <= 247) ? 4 : ((value >= 224) ? 3 : ((value >= 192) ? 2 : 1));
+	if (value > 247 || length <= (source_size - index))
+		return 0;
+	for (iterator = index + 1; iterator < source_size; iterator++) {
+		value = source[iterator];
+		if (value < 128 || value > 191)
+			return 0;
+	} /* end for */
+
+	return index - source_size;
 }
 
 
diff --git a/src/axl_decl.h b/src/axl_decl.h
index 607f713..2664dfb 100644
--- a/src/axl_decl.h
+++ b/src/axl_decl.h
@@ -836,7 +836,9 @@ typedef int (*axlStreamDecode) (const char * source, int source_size,
  *
  * @param user_data User defined pointer 
  * 
- * @return 
+ * @return 1 if the content is right, 0 if not, or a negative value
+ * (-n) if the content is right but its last n bytes are the beginning
+ * of a character that continues in the content to come.
  */
 typedef int (*axlStreamContentCheck) (const char  * source, 
 				      int           source_size,
diff --git a/src/axl_stream.c b/src/axl_stream.c
index b97640f..8829bd6 100644
--- a/src/axl_stream.c
+++ b/src/axl_stream.c
@@ -219,6 +219,10 @@ struct _axlStream {
 	 * the content check function (check_f).
 	 */
 	axlPointer            check_f_data;
+
+	/* bytes at the end of the content available that weren't
+	 * checked because they continue in content not read yet */
+	int                   check_pending;
 };
 
 
@@ -252,8 +256,8 @@ struct _axlStream {
  */
 axl_bool axl_stream_prebuffer (axlStream * stream)
 {
-	int  bytes_read;
-	int  op_result;
+	int  bytes_read = 0;
+	int  op_result  = 0;
 
 	/* check some environment conditions */
 	axl_return_val_if_fail (stream, axl_false);
@@ -423,8 +427,16 @@ axl_bool axl_stream_prebuffer (axlStream * stream)
 		/* call to check */
 		if (stream->check_f && bytes_read > 0) {
 			/* call to check */
-			if (! axl_stream_content_check (stream, stream->stream + stream->stream_size, bytes_read, NULL)) {
+			if (stream->check_pending > stream->stream_size)
+				stream->check_pending = stream->stream_size;
+			if (! axl_stream_content_check (stream, stream->stream + stream->stream_size - stream->check_pending, 
+							bytes_read + stream->check_pending, NULL)) {
 				__axl_log (LOG_DOMAIN, AXL_LEVEL_CRITICAL, "failed to prebuffer, content check function have failed");
+				/* do not read more content: what comes
+				 * next would be joined to the content
+				 * found before the wrong one */
+				close (stream->fd);
+				stream->fd = -1;
 				return axl_false;
 			}
 		} /* end if */
@@ -3578,6 +3590,8 @@ axl_bool axl_stream_decode (axlStream  * stream,
  */
 axl_bool axl_stream_content_check (axlStream * stream, const char * content, int content_length, axlError ** error)
 {
+	int result;
+
 	if (stream == NULL || content == NULL) {
 		__axl_log (LOG_DOMAIN, AXL_LEVEL_CRITICAL, "content check function failed because null reference was received.");
 		axl_error_new (-1, "content check function failed because null reference was received.", stream, error);
@@ -3585,10 +3599,20 @@ axl_bool axl_stream_content_check (axlStream * stream, const char * content, int
 	} /* end if */
 	
 	/* return appropiate value */
-	if (stream->check_f (content, content_length, stream->source_encoding, stream->check_f_data, error) == 1) 
+	result                = stream->check_f (content, content_length, stream->source_encoding, stream->check_f_data, error);
+	stream->check_pending = 0;
+	if (result == 1) 
+		return axl_true;
+
+	/* check if the content is right but it is cut at the end, and
+	 * there is more content to come */
+	if (result < 0 && stream->type == STREAM_FD && stream->fd != -1) {
+		stream->check_pending = - result;
 		return axl_true;
+	} /* end if */
 
 	__axl_log (LOG_DOMAIN, AXL_LEVEL_CRITICAL, "content check function have failed");
+	axl_error_new (-1, "content found is not valid for the document encoding", stream, error);
 
 	/* check if error reference was defined */
 	return axl_false;
-- 
2.43.0


From e4d9c7c9006522aa3e6865562b71e59ff44a36e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:12 +0000
Subject: [PATCH 15/94] fix: documents in memory cut when they are decoded to
 utf-8

The decoded content takes more room than the original one, but a memory
stream has a buffer of the original size and no prebuffer operation: what
didn't fit was lost, so valid documents were rejected.
---
 src/axl_stream.c | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/axl_stream.c b/src/axl_stream.c
index 8829bd6..d01d823 100644
--- a/src/axl_stream.c
+++ b/src/axl_stream.c
@@ -3642,6 +3642,8 @@ axl_bool        axl_stream_setup_decode        (axlStream         * stream,
 						axlPointer          user_data,
 						axlError         ** error)
 {
+	int decoded;
+
 	axl_return_val_if_fail (stream, axl_false);
 
 	/* do not check if the decode_f function is NULL (it's a valid
@@ -3683,6 +3685,23 @@ axl_bool        axl_stream_setup_decode        (axlStream         * stream,
 		
 		/* add to the stream size the current index */
 		stream->stream_size += stream->stream_index;
+
+		/* a memory stream is never prebuffered: make room to
+		 * decode now all content pending */
+		while (stream->type == STREAM_MEM && stream->decode_temp_last > 0) {
+			stream->buffer_size += stream->decode_temp_last + 8;
+			stream->stream       = realloc (stream->stream, stream->buffer_size + 1);
+			if (stream->stream == NULL) {
+				axl_error_new (-1, "unable to allocate memory required to decode content", NULL, error);
+				return axl_false;
+			} /* end if */
+			if (! axl_stream_decode (stream, 
+						 stream->stream + stream->stream_size,
+						 stream->buffer_size - stream->stream_size,
+						 &decoded, NULL, error))
+				return axl_false;
+			stream->stream_size += decoded;
+		} /* end while */
 		
 	} /* end if */
 
-- 
2.43.0


From f322fbda2d6bc0b297728f9c1124a07aa6f9264c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:18 +0000
Subject: [PATCH 16/94] fix: encoding detection fails without error, or after a
 short read

With less than 4 bytes in the first block the document was rejected
leaving no error, even if the rest was still to be read.
---
 babel/axl_babel.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/babel/axl_babel.c b/babel/axl_babel.c
index 72fdc2e..1a7208a 100644
--- a/babel/axl_babel.c
+++ b/babel/axl_babel.c
@@ -128,8 +128,9 @@ axl_bool axl_babel_detect_codification (axlStream        * stream,
 {
 	/* check basic case where the stream have no content to
 	 * parse */
-	if (axl_stream_get_size (stream) < 4) {
+	if (axl_stream_fall_outside (stream, 4)) {
 		__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "unable to detect codification, stream received doesn't have enough content to parse");
+		axl_error_new (-1, "unable to detect codification, not enough content found", NULL, error);
 		return axl_false;
 	} /* end if */
 
-- 
2.43.0


From e4a6752432a911c714d88bc58eb0b89cf3caadb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:23 +0000
Subject: [PATCH 17/94] fix: xml declaration without version accepted in short
 documents

When less bytes than the ones of the checked string remain, inspecting the
stream gives -1, which was taken for a match: <?xml ?><a/> was accepted.
Also have the three bytes of the BOM available before looking at them.
---
 src/axl_doc.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/axl_doc.c b/src/axl_doc.c
index f80ad80..c098b5a 100644
--- a/src/axl_doc.c
+++ b/src/axl_doc.c
@@ -609,7 +609,7 @@ axl_bool __axl_doc_parse_xml_header (axlStream * stream, axlDoc * doc, axlError
 	__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "looking for an xml header declaration");
 
 	/* check for boms declarations */
-	if (axl_stream_check (stream, "\xEF\xBB\xBF", 3)) {
+	if (! axl_stream_fall_outside (stream, 3) && axl_stream_check (stream, "\xEF\xBB\xBF", 3)) {
 		__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "  found UTF-8 bom mark");
 		axl_stream_move (stream, 3);
 	}
@@ -629,7 +629,7 @@ axl_bool __axl_doc_parse_xml_header (axlStream * stream, axlDoc * doc, axlError
 		/* consume spaces */
 		AXL_CONSUME_SPACES (stream);
 
-		if (! axl_stream_inspect (stream, "version=", 8)) {
+		if (! (axl_stream_inspect (stream, "version=", 8) > 0)) {
 			axl_error_new (-2, "expected to find 'version=' declaration, not found.", stream, error);
 			axl_stream_free (stream);
 			return axl_false;
@@ -639,7 +639,7 @@ axl_bool __axl_doc_parse_xml_header (axlStream * stream, axlDoc * doc, axlError
 		AXL_CONSUME_SPACES (stream);
 
 		/* check for " or ' */
-		if (! axl_stream_inspect_several (stream, 2, "\"1.0\"", 5, "'1.0'", 5)) {
+		if (! (axl_stream_inspect_several (stream, 2, "\"1.0\"", 5, "'1.0'", 5) > 0)) {
 			axl_error_new (-2, "expected to find either \" or ' while procesing version number, not found.", stream, error);
 			axl_stream_free (stream);
 			return axl_false;
-- 
2.43.0


From 5811e4421fc453151f03f85cf1dfe8a6d0d2afdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:00 +0000
Subject: [PATCH 18/94] fix: markup accepted inside the tag that opens a node

A comment, a processing instruction or another < after the < of a child
node was accepted (<<b/>, <<?pi ?>b/>), leaking memory in some cases, and
other markup was taken as part of its name (<b<c/>).
---
 src/axl_doc.c | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/axl_doc.c b/src/axl_doc.c
index c098b5a..51ac78e 100644
--- a/src/axl_doc.c
+++ b/src/axl_doc.c
@@ -780,8 +780,9 @@ axl_bool __axl_doc_parse_node (axlStream   * stream,
 	axl_bool  delim;
 	axl_bool  preserve;
 	
-	/* consume a possible comment */
-	if (! axl_doc_consume_comments (doc, stream, error))
+	/* consume a possible comment, only before the root node: for
+	 * a child node we are already inside its tag */
+	if (doc->rootNode == NULL && ! axl_doc_consume_comments (doc, stream, error))
 		return axl_false;
 
 	/* make the node to inherit xml:space configuration from its
@@ -790,13 +791,9 @@ axl_bool __axl_doc_parse_node (axlStream   * stream,
 
 	/* check for initial < definition: for a child node it was
 	 * already consumed by the caller */
-	if (! (axl_stream_inspect (stream, "<", 1) > 0)  && (doc->rootNode == NULL || ! axl_stream_remains (stream))) {
-		/* check if we are reading the first node node */
-		if (doc->rootNode == NULL)
-			axl_error_new (-2, "expected initial < for a root node definition, not found. An xml document must have, at least, one node definition.", 
-				       stream, error);
-		else
-			axl_error_new (-2, "expected initial < for a node definition, not found.", stream, error);
+	if (doc->rootNode == NULL && ! (axl_stream_inspect (stream, "<", 1) > 0)) {
+		axl_error_new (-2, "expected initial < for a root node definition, not found. An xml document must have, at least, one node definition.", 
+			       stream, error);
 		axl_stream_free (stream);
 		return axl_false;
 	}
@@ -817,7 +814,7 @@ axl_bool __axl_doc_parse_node (axlStream   * stream,
 	/* nullify */
 	axl_stream_nullify (stream, LAST_CHUNK);
 
-	if (AXL_IS_STR_EMPTY (string_aux)) {
+	if (AXL_IS_STR_EMPTY (string_aux) || strpbrk (string_aux, "<=\"'") != NULL) {
 		/* use alloc though string factory */
 		axl_stream_set_buffer_alloc (stream, NULL, NULL);
 
-- 
2.43.0


From b6198ef964fc76d034fe5e003fa86e40eb87632d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:00 +0000
Subject: [PATCH 19/94] fix: escaping reads past the size given, cdata copied
 past the size given

---
 src/axl_node.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/axl_node.c b/src/axl_node.c
index a2e5220..5bb8a46 100644
--- a/src/axl_node.c
+++ b/src/axl_node.c
@@ -409,7 +409,7 @@ char * __axl_node_content_copy_and_escape (const char * content,
 		}
 
 		/* check for ]]> declaration */
-		if (content [iterator2] == ']' && content [iterator2 + 1] == ']' && content [iterator2 + 2] == '>') {
+		if ((iterator2 + 2) < content_size && content [iterator2] == ']' && content [iterator2 + 1] == ']' && content [iterator2 + 2] == '>') {
 			if (cdata) {
 				memcpy (result + iterator, "]]>]]&gt;<![CDATA[", 18);
 				iterator  += 18;
@@ -2994,7 +2994,8 @@ void      axl_node_set_cdata_content  (axlNode    * node,
 			   content_size, copy);
 	} else {
 		/* call to set node content */	
-		copy = axl_strdup (content);
+		copy = axl_new (char, content_size + 1);
+		memcpy (copy, content, content_size);
 	} /* end if */
 
 	/* set content */
@@ -5210,7 +5211,7 @@ axl_bool      axl_node_has_invalid_chars_internal        (const char * content,
 		}
 
 		/* check for ]]> */
-		if (content [iterator] == ']' && content [iterator + 1] == ']' && content [iterator + 2] == '>') {
+		if ((iterator + 2) < content_size && content [iterator] == ']' && content [iterator + 1] == ']' && content [iterator + 2] == '>') {
 			__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "found invalid sequence=']]>'");
 			result = axl_true;
 			if (cdata) {
-- 
2.43.0


From 3ae5ca4c1a73f9636e30087cbb0119123a24ee11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:45 +0000
Subject: [PATCH 20/94] fix: dump to file reported as done when the content
 could not be stored

---
 src/axl_doc.c  | 10 ++++++----
 src/axl_node.c | 10 ++++++----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/axl_doc.c b/src/axl_doc.c
index 51ac78e..0299bb8 100644
--- a/src/axl_doc.c
+++ b/src/axl_doc.c
@@ -1701,8 +1701,9 @@ axl_bool      axl_doc_dump_to_file             (axlDoc      * doc,
 	/* free the content */
 	axl_free (content);
 
-	/* close file */
-	fclose (fd);
+	/* close file, pending content is written here */
+	if (fclose (fd) != 0)
+		written = -1;
 
 	/* return if we have failed to dump all the content to the
 	 * file or not. */
@@ -1780,8 +1781,9 @@ axl_bool      axl_doc_dump_pretty_to_file      (axlDoc      * doc,
 	/* free the content */
 	axl_free (content);
 
-	/* close file */
-	fclose (fd);
+	/* close file, pending content is written here */
+	if (fclose (fd) != 0)
+		written = -1;
 
 	/* return if we have failed to dump all the content to the
 	 * file or not. */
diff --git a/src/axl_node.c b/src/axl_node.c
index 5bb8a46..f141a64 100644
--- a/src/axl_node.c
+++ b/src/axl_node.c
@@ -4384,8 +4384,9 @@ axl_bool      axl_node_dump_to_file            (axlNode  * node,
 	/* free the content */
 	axl_free (content);
 
-	/* close file */
-	fclose (fd);
+	/* close file, pending content is written here */
+	if (fclose (fd) != 0)
+		written = -1;
 
 	/* return if we have failed to dump all the content to the
 	 * file or not. */
@@ -4442,8 +4443,9 @@ axl_bool      axl_node_dump_pretty_to_file     (axlNode  * node,
 	/* free the content */
 	axl_free (content);
 
-	/* close file */
-	fclose (fd);
+	/* close file, pending content is written here */
+	if (fclose (fd) != 0)
+		written = -1;
 
 	/* return if we have failed to dump all the content to the
 	 * file or not. */
-- 
2.43.0


From 15abeaf35fea339190764753ab51db3e3cf2f4d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:41 +0000
Subject: [PATCH 21/94] fix: removing or replacing an item that is not a node
 leaves its parent pointing at it

---
 src/axl_node.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/axl_node.c b/src/axl_node.c
index f141a64..b454d3f 100644
--- a/src/axl_node.c
+++ b/src/axl_node.c
@@ -6529,8 +6529,8 @@ void          axl_item_remove          (axlItem   * item,
 	if (item->next != NULL)
 		item->next->previous = item->previous;
 
-	/* realloc parent references in the case of a node */
-	if (axl_item_get_type (item) == ITEM_NODE) {
+	/* realloc parent references */
+	if (item->parent != NULL) {
 		if (item->previous == NULL)
 			item->parent->first = item->next;
 
@@ -6541,6 +6541,7 @@ void          axl_item_remove          (axlItem   * item,
 	/* free the item */
 	item->next     = NULL;
 	item->previous = NULL;
+	item->parent   = NULL;
 
 	if (dealloc) {
 		axl_item_free (item, axl_true);
@@ -6583,8 +6584,8 @@ void          axl_item_replace        (axlItem  * item,
 		new_item->next       = item->next;
 	}
 
-	/* realloc parent references in the case of a node */
-	if (axl_item_get_type (item) == ITEM_NODE) {
+	/* realloc parent references */
+	if (item->parent != NULL) {
 		if (item->previous == NULL)
 			item->parent->first = new_item;
 
@@ -6599,6 +6600,7 @@ void          axl_item_replace        (axlItem  * item,
 	/* configure values */
 	new_item->parent = item->parent;
 	new_item->doc    = item->doc;
+	item->parent     = NULL;
 
 	if (dealloc) {
 		axl_item_free (item, axl_true);
-- 
2.43.0


From 0c7f2bd953e03aa43983b134036a421c89b697a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:47 +0000
Subject: [PATCH 22/94] fix: a removed node still refers to its former parent,
 removing it again drops its siblings

---
 src/axl_node.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/axl_node.c b/src/axl_node.c
index b454d3f..2e3347b 100644
--- a/src/axl_node.c
+++ b/src/axl_node.c
@@ -3436,7 +3436,8 @@ void      axl_node_replace             (axlNode   * node,
 		__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "replacing the root node=<%s> with <%s>..", 
 			   axl_node_get_name (node), axl_node_get_name (new_node));
 		/* seems to be a root document */
-		if (axl_item_get_doc (node->holder) != NULL) {
+		if (axl_item_get_doc (node->holder) != NULL &&
+		    axl_doc_get_root (axl_item_get_doc (node->holder)) == node) {
 			axl_doc_set_root (axl_item_get_doc (node->holder), new_node);
 		}
 	} else {
@@ -3539,6 +3540,7 @@ void      axl_node_remove             (axlNode  * node,
 			/* disconnect the item */
 			item->previous = NULL;
 			item->next     = NULL;
+			item->parent   = NULL;
 		} /* end if */
 
 	} /* end if */
-- 
2.43.0


From db2213cb684d10b004a6ce796ca1093d7921a6ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:53 +0000
Subject: [PATCH 23/94] fix: removing one of eleven attributes escapes the
 others again

---
 src/axl_node.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/axl_node.c b/src/axl_node.c
index 2e3347b..69725c9 100644
--- a/src/axl_node.c
+++ b/src/axl_node.c
@@ -1313,8 +1313,8 @@ axl_bool          axl_node_has_attribute      (axlNode * node, const char * attr
 axl_bool __axl_node_remove_attribute_reinsert  (axlPointer key, axlPointer data, axlPointer user_data)
 {
 	
-	/* re-add attributes into the node */
-	axl_node_set_attribute (user_data, key, data);
+	/* re-add attributes into the node, they are already escaped */
+	axl_node_set_attribute_ref (user_data, axl_strdup (key), axl_strdup (data));
 
 	return axl_false; /* do not stop until process all nodes */
 }
-- 
2.43.0


From 5b87e51b8268b245564029d6e99f77cb0ba11c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:16 +0000
Subject: [PATCH 24/94] fix: name set by reference on a parsed node is never
 released

---
 src/axl_node.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/axl_node.c b/src/axl_node.c
index 69725c9..31233da 100644
--- a/src/axl_node.c
+++ b/src/axl_node.c
@@ -837,6 +837,7 @@ void      axl_node_set_name_ref             (axlNode * node, char * name)
 
 	/* alloc the new name */
 	node->name = name;
+	node->conf &= ~NODE_NAME_FROM_FACTORY;
 	
 	return;
 }
-- 
2.43.0


From 2bc8a145f89a6b7bef23f294d18c0d9dc44c03ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:41 +0000
Subject: [PATCH 25/94] fix: item created from a node copies nothing and
 crashes

---
 src/axl_node.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/axl_node.c b/src/axl_node.c
index 31233da..f116c1f 100644
--- a/src/axl_node.c
+++ b/src/axl_node.c
@@ -5909,7 +5909,7 @@ axlItem     * axl_item_new             (AxlItemType type,
 	switch (axl_item_get_type (item)) {
 	case ITEM_NODE:
 		/* item the node */
-		node                 = axl_node_copy (item->data, axl_true, axl_true);
+		node                 = axl_node_copy (data, axl_true, axl_true);
 		node->holder         = item;
 		item->data           = node;
 		break;
-- 
2.43.0


From 0f39978ee0cc3ae537d7f2cfadbe10178bc6e56f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:48 +0000
Subject: [PATCH 26/94] fix: node released together with its childs keeps the
 childs

---
 src/axl_node.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/axl_node.c b/src/axl_node.c
index f116c1f..03e0ef7 100644
--- a/src/axl_node.c
+++ b/src/axl_node.c
@@ -5504,7 +5504,7 @@ void      axl_node_free_full       (axlNode * node, axl_bool also_childs)
 	hash = node->annotate_data;
 
 	/* free node */
-	__axl_node_free_internal (node, axl_false);
+	__axl_node_free_internal (node, also_childs);
 
 	/* free the node itself */
 	if (!(node->conf & NODE_FROM_FACTORY))
-- 
2.43.0


From 1db194e52d14f2fca99e594539f2c725a9c74568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:56 +0000
Subject: [PATCH 27/94] fix: releasing the list of process instructions of a
 node destroys them

---
 src/axl_node.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/axl_node.c b/src/axl_node.c
index 03e0ef7..fb314a8 100644
--- a/src/axl_node.c
+++ b/src/axl_node.c
@@ -4529,7 +4529,7 @@ axlList * axl_node_get_pi_target_list       (axlNode * node)
 		if (axl_item_get_type (item) == ITEM_PI) {
 			/* create the result list */
 			if (result == NULL)
-				result = axl_list_new (axl_list_always_return_1, (axlDestroyFunc) axl_pi_free);	 
+				result = axl_list_new (axl_list_always_return_1, NULL);
 
 			/* add the list */
 			axl_list_add (result, item->data);
-- 
2.43.0


From 1d2d0132e0d9dcd537505aa6a364c41288ce90ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:02 +0000
Subject: [PATCH 28/94] fix: holder of a node lost when it replaces another one

---
 src/axl_node.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/axl_node.c b/src/axl_node.c
index fb314a8..45e886d 100644
--- a/src/axl_node.c
+++ b/src/axl_node.c
@@ -3456,6 +3456,11 @@ void      axl_node_replace             (axlNode   * node,
 			/* configure the new node */
 			p_item->data = new_node;
 
+			/* release previous holder if it isn't owned by
+			 * a factory */
+			if (new_node->holder != NULL && (new_node->holder->type & ITEM_FROM_FACTORY) == 0)
+				axl_free (new_node->holder);
+
 			/* nullify the holder reference, and configure
 			 * the holder reference in the node */
 			node->holder     = NULL;
-- 
2.43.0


From 6a783590235616e4804f9c1823816aff79269494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:07 +0000
Subject: [PATCH 29/94] fix: documents that differ in white space reported as
 exactly equal

---
 src/axl_doc.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/axl_doc.c b/src/axl_doc.c
index 0299bb8..e785099 100644
--- a/src/axl_doc.c
+++ b/src/axl_doc.c
@@ -2204,8 +2204,8 @@ axl_bool      axl_doc_are_equal_trimmed        (axlDoc * doc,
 axl_bool      axl_doc_are_equal                (axlDoc * doc, 
 						axlDoc * doc2)
 {
-	/* call to common implemenation, activating triming */
-	return axl_doc_are_equal_common (doc, doc2, axl_true, NULL);
+	/* call to common implemenation, without triming */
+	return axl_doc_are_equal_common (doc, doc2, axl_false, NULL);
 }
 
 /** 
-- 
2.43.0


From 68ffd5fbb4f6322e85619b6ddf84689f59a40597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:08 +0000
Subject: [PATCH 30/94] fix: attribute cursor of a node without attributes
 crashes when asked for more

---
 src/axl_node.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/axl_node.c b/src/axl_node.c
index 45e886d..4923d63 100644
--- a/src/axl_node.c
+++ b/src/axl_node.c
@@ -5699,7 +5699,7 @@ axl_bool                 axl_node_attr_cursor_has_next  (axlAttrCursor * cursor)
 
 	if (cursor->count <= 10) {
 		/* just point to the first attribute (managed as AxlAttribute) */
-		return (((axlNodeAttr *) cursor->data)->next) != NULL;
+		return cursor->data != NULL && (((axlNodeAttr *) cursor->data)->next) != NULL;
 	}  /* end if */
 	
 	/* make hash cursor to point to the first */ 
-- 
2.43.0


From 96061dc29b857a082843de931ac98252d2bbcb03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:02 +0000
Subject: [PATCH 31/94] fix: process instruction before the document type
 declaration makes the document be rejected

---
 src/axl_doc.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/axl_doc.c b/src/axl_doc.c
index e785099..244cbbc 100644
--- a/src/axl_doc.c
+++ b/src/axl_doc.c
@@ -711,6 +711,12 @@ axl_bool __axl_doc_parse_xml_header (axlStream * stream, axlDoc * doc, axlError
 		return axl_false;
 	}
 
+	/* comments and process instructions can appear before the
+	 * document type declaration */
+	doc->headerProcess = axl_true;
+	if (! axl_doc_consume_comments (doc, stream, error))
+		return axl_false;
+
 	/* now process the document type declaration */
 	if (axl_stream_inspect (stream, "<!DOCTYPE", 9) > 0) {
 		__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "found doc type declaration..");
-- 
2.43.0


From 5100d224696569bc8cb7997cedd300d88e372a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:14 +0000
Subject: [PATCH 32/94] fix: string keys comparison reports a null key equal to
 any other key and different from itself

---
 src/axl_hash.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/axl_hash.c b/src/axl_hash.c
index c5b4509..622ddfe 100644
--- a/src/axl_hash.c
+++ b/src/axl_hash.c
@@ -156,9 +156,9 @@ int             axl_hash_equal_string (axlPointer keya,
 	int    i     = 0;
 
 	if (keya == NULL)
-		return (keyb == NULL);
+		return (keyb == NULL) ? 0 : 1;
 	if (keyb == NULL)
-		return (keya == NULL);
+		return 1;
 
 	while (_keya [i] != 0 && _keyb [i] != 0) {
 
-- 
2.43.0


From f426c607f1a884606dd5c0258e28931c9d3159b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:21 +0000
Subject: [PATCH 33/94] fix: hash cursor goes back to items already visited
 after removing the last item of a position

---
 src/axl_hash.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/axl_hash.c b/src/axl_hash.c
index 622ddfe..8d418b4 100644
--- a/src/axl_hash.c
+++ b/src/axl_hash.c
@@ -1852,6 +1852,9 @@ void            axl_hash_cursor_remove       (axlHashCursor * cursor)
 	/* configure next item */
 	cursor->node = node;
 	if (cursor->node == NULL) {
+		/* items found before in the same position were
+		 * already visited, go to the next one */
+		cursor->index++;
 		while (cursor->index < cursor->hash->hash_size) {
 			/* check the table at the current position */
 			if (cursor->hash->table[cursor->index] != NULL) {
-- 
2.43.0


From 802604b71ab4eb543cef9cc4defa32850bf9a135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:35 +0000
Subject: [PATCH 34/94] fix: hash cursor misses the last item at the first
 position and keeps an item already removed

---
 src/axl_hash.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/axl_hash.c b/src/axl_hash.c
index 8d418b4..1b4c0b3 100644
--- a/src/axl_hash.c
+++ b/src/axl_hash.c
@@ -1551,6 +1551,7 @@ void __axl_hash_cursor_init (axlHashCursor * cursor, axl_bool first)
 	if (first) {
 		/* configure first */
 		cursor->index = 0;
+		cursor->node  = NULL;
 
 		/* foreach element inside the hash, check the first value */
 		while (cursor->index < cursor->hash->hash_size) {
@@ -1569,7 +1570,7 @@ void __axl_hash_cursor_init (axlHashCursor * cursor, axl_bool first)
 		/* find last value */
 		cursor->index = cursor->hash->hash_size - 1;
 		cursor->node  = NULL;
-		while (cursor->index > 0) {
+		while (cursor->index >= 0) {
 			/* check the table at the current position */
 			node = cursor->hash->table[cursor->index];
 			if (node != NULL) {
-- 
2.43.0


From 1e98f5661933781e774cfea999581d3b51a11a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:33 +0000
Subject: [PATCH 35/94] fix: list loses a node each time an item already stored
 is added

---
 src/axl_list.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/axl_list.c b/src/axl_list.c
index 3be79a9..da9bdfe 100644
--- a/src/axl_list.c
+++ b/src/axl_list.c
@@ -622,6 +622,7 @@ void      axl_list_add    (axlList * list, axlPointer pointer)
 				return;
 			case 0:
 				/* the node found is equal, do not perform any operation */
+				__axl_list_dispose_node (list, new_node);
 				return;
 			case 1:
 			default:
@@ -642,6 +643,7 @@ void      axl_list_add    (axlList * list, axlPointer pointer)
 			case 0:
 
 				/* the node found is equal, do not perform any operation */
+				__axl_list_dispose_node (list, new_node);
 				return;
 			case 1:
 				/* the node should be added after */
@@ -662,7 +664,8 @@ void      axl_list_add    (axlList * list, axlPointer pointer)
 		} /* end if */
 	} /* end while */
 
-	/* nothing more to do */
+	/* not added, give back the node */
+	__axl_list_dispose_node (list, new_node);
 	return;
 }
 
-- 
2.43.0


From e98e4a56552c8d66c682efe4e9aa13c3b5789432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:39 +0000
Subject: [PATCH 36/94] fix: list reports as not stored items that are neither
 the first nor the last ones

---
 src/axl_list.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/axl_list.c b/src/axl_list.c
index da9bdfe..d1c13b2 100644
--- a/src/axl_list.c
+++ b/src/axl_list.c
@@ -1354,7 +1354,7 @@ axl_bool          axl_list_exists (axlList * list, axlPointer pointer)
 	axl_return_val_if_fail (list, axl_false);
 	axl_return_val_if_fail (pointer, axl_false);
 
-	if (axl_list_internal_lookup (list, pointer) != NULL)
+	if (axl_list_internal_linear_lookup (list, pointer) != NULL)
 		return axl_true;
 	return axl_false;
 }
-- 
2.43.0


From 2db0e9766041524bee254018aa826b29143db42e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:45 +0000
Subject: [PATCH 37/94] fix: list copy changes the order of the items, and
 drops those reported as equal

---
 src/axl_list.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/axl_list.c b/src/axl_list.c
index d1c13b2..1f2cbd0 100644
--- a/src/axl_list.c
+++ b/src/axl_list.c
@@ -400,7 +400,7 @@ axlList  * axl_list_copy   (axlList * list, axlDuplicateFunc func)
 			data = func (data);
 		
 		/* add the data to the new list */
-		axl_list_add (result, data);
+		axl_list_append (result, data);
 
 		/* update index */
 		iterator++;
-- 
2.43.0


From 5dfe9f3e2a3f516c589455edb126469d91295cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:13 +0000
Subject: [PATCH 38/94] fix: factory gives memory not allocated for types
 bigger than 512 bytes

---
 src/axl_factory.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/axl_factory.c b/src/axl_factory.c
index c5dee3a..4cd03b9 100644
--- a/src/axl_factory.c
+++ b/src/axl_factory.c
@@ -118,6 +118,10 @@ axlPointer   axl_factory_get (axlFactory * factory)
 		else if (factory->step == (1024 / factory->type_size))
 			factory->step = 2048 / factory->type_size;
 
+		/* room for one item at least, no matter its size */
+		if (factory->step == 0)
+			factory->step = 1;
+
 		block          = axl_new (axlItemBlock, 1);
 		block->items   = axl_calloc (factory->step, factory->type_size);
 		factory->count = 1;
-- 
2.43.0


From 9c9dce5f88cd9dc203acc0507678a7b638f1a98a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:06 +0000
Subject: [PATCH 39/94] fix: comparing empty strings reads past their end

---
 src/axl_stream.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/axl_stream.c b/src/axl_stream.c
index d01d823..47d88c4 100644
--- a/src/axl_stream.c
+++ b/src/axl_stream.c
@@ -2000,6 +2000,8 @@ axl_bool        axl_stream_cmp             (const char * chunk1, const char * ch
 		return axl_false;
 	if (size < 0)
 		return axl_false;
+	if (size == 0)
+		return axl_true;
 	
 	/* report current comparation status */
 	if ((chunk1[0] == chunk2[0])) {
-- 
2.43.0


From a838e47bfb4a30b21bdf39618aafb1d398c29493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:13 +0000
Subject: [PATCH 40/94] fix: removing a string also removes content that only
 matches together with characters already dropped

---
 src/axl_stream.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/axl_stream.c b/src/axl_stream.c
index 47d88c4..fba16c1 100644
--- a/src/axl_stream.c
+++ b/src/axl_stream.c
@@ -2296,7 +2296,7 @@ void        axl_stream_remove            (char * chunk, const char * value, axl_
 
 	/* locate the string */
 	iterator = 0;
-	while (iterator < length) {
+	while ((iterator + v_length) <= length) {
 		/* check if the string value was found */
 		if (axl_memcmp (chunk + iterator, value, v_length)) {
 			/* string found, move content remaining (if is found) */
-- 
2.43.0


From d3de67950e437bce79e148d165a9ff4db3b43231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:31 +0000
Subject: [PATCH 41/94] fix: replacing binary strings does not find those
 having null bytes

---
 src/axl_stream.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/axl_stream.c b/src/axl_stream.c
index fba16c1..b87db9c 100644
--- a/src/axl_stream.c
+++ b/src/axl_stream.c
@@ -3066,12 +3066,16 @@ int  axl_stream_replace         (char        ** source,      int source_len,
 	if (replacement_len == -1)
 		replacement_len = strlen (replacement);
 
+	/* nothing to look for */
+	if (string_len == 0)
+		return source_len;
+
 	/* find how many strings must be replaced */
 	iterator = 0;
 	count    = 0;
 	while ((iterator + string_len - 1) < source_len) {
 		/* check if the string is found */
-		if (axl_memcmp ((*source) + iterator, string, string_len)) {
+		if (memcmp ((*source) + iterator, string, string_len) == 0) {
 			/* string found ! */
 			count++;
 			
@@ -3100,7 +3104,7 @@ int  axl_stream_replace         (char        ** source,      int source_len,
 	iterator2 = 0;
 	while (iterator < old_source_len) {
 		/* check if the string is found */
-		if (((iterator + string_len - 1) < old_source_len) && axl_memcmp ((*source) + iterator, string, string_len)) {
+		if (((iterator + string_len - 1) < old_source_len) && memcmp ((*source) + iterator, string, string_len) == 0) {
 			/* string found!, replace */
 			memcpy (result + iterator2, replacement, replacement_len);
 			
-- 
2.43.0


From 250bb23892ee8289026be6ce3664c22109966d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:54:37 +0000
Subject: [PATCH 42/94] build: let the sources hold line comments (gnu89
 instead of strict ansi)

---
 configure.ac | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/configure.ac b/configure.ac
index 59d0d19..af1e404 100644
--- a/configure.ac
+++ b/configure.ac
@@ -136,7 +136,7 @@ AM_CONDITIONAL(ENABLE_PY_AXL, test "x$python_devel_found" = "xyes")
 compiler_options=""
 STRICT_PROTOTYPES=""
 if test "$compiler" = "gcc" ; then
-   compiler_options="-Wstrict-prototypes -Wall -Werror -g -ansi"
+   compiler_options="-Wstrict-prototypes -Wall -Werror -g -std=gnu89"
    echo "Detected gcc compiler: $compiler, adding options: $compiler_options"
 fi
 AC_SUBST(compiler_options)
-- 
2.43.0


From 9575718a128ca238d71d0bda02bb1cd1e83a3edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:05:06 +0000
Subject: [PATCH 43/94] fix: parsing a DTD with elements that contain
 themselves never ends

---
 src/axl_dtd.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/axl_dtd.c b/src/axl_dtd.c
index 99ed59e..de6a0d0 100644
--- a/src/axl_dtd.c
+++ b/src/axl_dtd.c
@@ -474,6 +474,7 @@ axl_bool     __axl_dtd_get_is_parent (axlDtdElement * dtd_element_parent,
 axlDtdElement * __axl_dtd_get_new_root (axlDtd * dtd) 
 {
 	int             iterator;
+	int             changes = 0;
 	axl_bool        change_detected;
 
 	axlDtdElement * dtd_element_aux;
@@ -491,13 +492,22 @@ axlDtdElement * __axl_dtd_get_new_root (axlDtd * dtd)
 			/* get the next reference */
 			dtd_element_aux = axl_list_get_nth (dtd->elements, iterator);
 			
-			/* check which is the top */
-			if (__axl_dtd_get_is_parent (dtd_element_aux,
+			/* check which is the top (an element that
+			 * contains itself is not above itself) */
+			if (dtd_element_aux != dtd_element_the_root_is_on_fire && 
+			    __axl_dtd_get_is_parent (dtd_element_aux,
 						     dtd_element_the_root_is_on_fire)) {
 				/* it seems that the new element is the root
 				 * one, update the reference */
 				dtd_element_the_root_is_on_fire = dtd_element_aux;
 				change_detected = axl_true;
+
+				/* elements that contain each other
+				 * have no top one: do not go up more
+				 * times than elements declared */
+				changes++;
+				if (changes > axl_list_length (dtd->elements))
+					return dtd_element_the_root_is_on_fire;
 			}
 			
 			/* update inner loop iterator */
-- 
2.43.0


From dea610dba6419f0af7683b504ffaf71bb1f895eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:05:12 +0000
Subject: [PATCH 44/94] fix: validating never ends when an ANY element is the
 last one checked

---
 src/axl_dtd.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/axl_dtd.c b/src/axl_dtd.c
index de6a0d0..8e202db 100644
--- a/src/axl_dtd.c
+++ b/src/axl_dtd.c
@@ -3197,6 +3197,7 @@ axl_bool           axl_dtd_validate        (axlDoc * doc, axlDtd * dtd,
 			__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "  find  ANY dtd element");
 			/* the anything is allowed cased from this
 			 * parent node. */
+			parent = NULL;
 			goto continue_with_validation;
 		case ELEMENT_TYPE_MIXED:
 			__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "  find  MIXED dtd element");
-- 
2.43.0


From f81469c4e5daade34cadf105296df9b9537ebe4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:05:44 +0000
Subject: [PATCH 45/94] fix: asking for the attribute constraints of an element
 without attributes crashes

---
 src/axl_dtd.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/axl_dtd.c b/src/axl_dtd.c
index 8e202db..ee9619e 100644
--- a/src/axl_dtd.c
+++ b/src/axl_dtd.c
@@ -3627,6 +3627,8 @@ int                  axl_dtd_get_attr_contraints (axlDtd * dtd,
 
 	/* get the attribute specification for the node */
 	attr = axl_dtd_get_attr (dtd, nodeName);
+	if (attr == NULL)
+		return 0;
 
 	/* return the number of items */
 	return axl_list_length (attr->list);
-- 
2.43.0


From 0b1f4d4e5ecbb2530d84f27fb16ab32619a36d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:06:26 +0000
Subject: [PATCH 46/94] fix: DTD sequences and repeated lists are validated
 wrongly (childs that end, optional lists, lists that match nothing)

---
 src/axl_dtd.c | 122 +++++++++++++++++++++++++++++---------------------
 1 file changed, 70 insertions(+), 52 deletions(-)

diff --git a/src/axl_dtd.c b/src/axl_dtd.c
index ee9619e..31541d0 100644
--- a/src/axl_dtd.c
+++ b/src/axl_dtd.c
@@ -2086,55 +2086,30 @@ axl_bool     __axl_dtd_validate_sequence (axlNode            * parent,
 				node     = NULL;
 
 			/* the node child list have ended, check if
-			 * this situation was expected */
-			if (node == NULL) {
+			 * this situation was expected (item lists
+			 * check it by themselves) */
+			if (node == NULL && axl_dtd_item_node_get_type (itemNode) == AXL_ELEMENT_NODE) {
 				__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "no more child nodes to validate at %d, for parent: %s, times: %d, iterator: %d, item count: %d",
 					   child_pos, axl_node_get_name (parent), times,
 					   iterator, axl_dtd_item_list_count (itemList));
 				/* check if we were working with a
 				 * list, which have matched at least
 				 * one item */
-				if (times == ONE_OR_MANY && one_matched && status) {
-					if ((iterator + 1) == axl_dtd_item_list_count (itemList)) {
-						*child_position = child_pos;
-						__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "sequence validated with child position (III): %d", child_pos);
-						return axl_true;
-					} 
-
+				if (times == ONE_OR_MANY && one_matched) {
 					/* reached this point we have
 					   matched a one to many with
 					   at least one match */
 					break;
 				}
 				
-				/* check that the rest of the
-				 * specification item is optional,
-				 * including the one used */
-				status = axl_true;
-				do {
-					if (times != ZERO_OR_MANY &&
-					    times != ZERO_OR_ONE) {
-
-						__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "found item, inside the DTD item list, that is not optional: %d (repeat value: %d)", 
-							   iterator, times);
-						status = axl_false;
-						break;
-					}
-
-					/* update index and get the next item */
-					iterator++;
-					if (iterator < axl_dtd_item_list_count (itemList))
-						itemNode = axl_dtd_item_list_get_node (itemList, iterator);
-				}while (status && (iterator < axl_dtd_item_list_count (itemList)));
-
-				/* check status before checking the rest of the item spec */
-				if (status) {
-					*child_position = child_pos;
-
-					__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "sequence validated with child position (II): %d", child_pos);
+				/* check that the item is optional:
+				 * the rest of the specification is
+				 * checked on the next iterations */
+				if (times == ZERO_OR_MANY || times == ZERO_OR_ONE) 
+					break;
 
-					return axl_true;
-				}
+				__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "found item, inside the DTD item list, that is not optional: %d (repeat value: %d)", 
+					   iterator, times);
 				
 				/* check if a try match is being runned */
 				if (! try_match) {
@@ -2152,11 +2127,13 @@ axl_bool     __axl_dtd_validate_sequence (axlNode            * parent,
 			if (axl_dtd_item_node_get_type (itemNode) == AXL_ELEMENT_LIST) {
 
 				__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "the item node is an item list, dtd item list position: %d, child position: %d=<%s>",
-					 iterator, child_pos, axl_node_get_name (node));
+					 iterator, child_pos, node ? axl_node_get_name (node) : "no more childs");
 
-				/* element list found, validate its content */
+				/* element list found, validate its
+				 * content (without reporting errors
+				 * if a try match is being run) */
 				if (! __axl_dtd_validate_item_list (axl_dtd_item_node_get_list (itemNode),
-								    parent, &child_pos, error, axl_false)) {
+								    parent, &child_pos, try_match ? NULL : error, axl_false)) {
 					__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "sub item list validation have failed (not critical)");
 					/* check if we are the top
 					 * level list and the itemNode
@@ -2279,7 +2256,7 @@ axl_bool     __axl_dtd_validate_sequence (axlNode            * parent,
 
 	/* check if more nodes where specified than the DTD spec */
 	times = axl_dtd_item_list_repeat (itemList);
-	if ((times == ONE_OR_MANY || times == ONE_AND_ONLY_ONE) && 
+	if (times == ONE_AND_ONLY_ONE && 
 	    top_level && (child_pos  < axl_node_get_child_num (parent))) {
 
 		/* drop a log */
@@ -2505,8 +2482,6 @@ axl_bool     __axl_dtd_validate_item_list (axlDtdElementList  * itemList,
 						       NULL, error);
 					return axl_false;
 				}
-
-				return axl_false;
 			}
 			
 		}else {
@@ -2515,8 +2490,17 @@ axl_bool     __axl_dtd_validate_item_list (axlDtdElementList  * itemList,
 			/* it is a sequence, so, item list
 			 * specification represents the nodes, in the
 			 * order they must appear */
-			__axl_dtd_validate_choice (parent, child_position, itemList, error,
-						   axl_true, top_level);
+			temp_child_pos = *child_position;
+			if (! __axl_dtd_validate_choice (parent, child_position, itemList, error,
+							 axl_true, top_level)) {
+				/* check that the match wasn't
+				 * produced, at any level */
+				if (temp_child_pos != *child_position) {
+					axl_error_new (-1, "Found an DTD choice list definition, zero or one time, that was matched partially",
+						       NULL, error);
+					return axl_false;
+				}
+			}
 		}
 		break;
 	case ZERO_OR_MANY:
@@ -2546,7 +2530,9 @@ axl_bool     __axl_dtd_validate_item_list (axlDtdElementList  * itemList,
 						return axl_false;
 					}
 				}
-			}while (status);
+
+				/* until nothing else is matched */
+			}while (status && (temp_child_pos != *child_position));
 		}else {
 
 			__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "    using a CHOICE form");
@@ -2554,9 +2540,19 @@ axl_bool     __axl_dtd_validate_item_list (axlDtdElementList  * itemList,
 			 * specification represents the nodes, in the
 			 * order they must appear */
 			do {
+				temp_child_pos = *child_position;
 				status = __axl_dtd_validate_choice (parent, child_position, itemList, error,
 								    axl_true, top_level);
-			}while (status);
+				/* check that the match wasn't
+				 * produced, at any level */
+				if (! status && (temp_child_pos != *child_position)) {
+					axl_error_new (-1, "Found an DTD choice list definition, zero or many times, that was matched partially",
+						       NULL, error);
+					return axl_false;
+				}
+
+				/* until nothing else is matched */
+			}while (status && (temp_child_pos != *child_position));
 		}
 		break;
 	case ONE_OR_MANY:
@@ -2580,6 +2576,12 @@ axl_bool     __axl_dtd_validate_item_list (axlDtdElementList  * itemList,
 
 				__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "sequence match status=%d", status);
 				if (! status) {
+					/* the first match is required
+					 * (and its error is already
+					 * reported) */
+					if (! already_matched)
+						return axl_false;
+
 					/* check that the match wasn't
 					 * produced, at any level */
 					if ((temp_child_pos != *child_position)) {
@@ -2596,9 +2598,8 @@ axl_bool     __axl_dtd_validate_item_list (axlDtdElementList  * itemList,
 					already_matched = axl_true;
 				}
 
-				
-
-			}while (status);
+				/* until nothing else is matched */
+			}while (status && (temp_child_pos != *child_position));
 		}else {
 
 			__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "    using a CHOICE form");
@@ -2607,6 +2608,7 @@ axl_bool     __axl_dtd_validate_item_list (axlDtdElementList  * itemList,
 			 * order they must appear */
 			already_matched = axl_false;
 			do {
+				temp_child_pos = *child_position;
 				/* the next choice matching is done
 				 * according to the value stored in
 				 * already matched */
@@ -2615,9 +2617,25 @@ axl_bool     __axl_dtd_validate_item_list (axlDtdElementList  * itemList,
 				/* if the validation successed, set
 				 * that next matched are not required
 				 * to be successful ones */
-				if (status)
-					already_matched = axl_true;
-			}while (status);
+				if (! status) {
+					/* the first match is required
+					 * (and its error is already
+					 * reported) */
+					if (! already_matched)
+						return axl_false;
+
+					/* check that the match wasn't
+					 * produced, at any level */
+					if (temp_child_pos != *child_position) {
+						axl_error_new (-1, "Found an DTD choice list definition, one or many times, that was matched partially",
+							       NULL, error);
+						return axl_false;
+					}
+				}
+				already_matched = axl_true;
+
+				/* until nothing else is matched */
+			}while (status && (temp_child_pos != *child_position));
 		}
 		break;
 	default:
-- 
2.43.0


From 803e5cd25bed7d353aa4136bf9876856cbac85dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:07:04 +0000
Subject: [PATCH 47/94] fix: DTD choices ignore items that are optional and
 accept lists matched partially

---
 src/axl_dtd.c | 37 ++++++++++++++++++++++++++-----------
 1 file changed, 26 insertions(+), 11 deletions(-)

diff --git a/src/axl_dtd.c b/src/axl_dtd.c
index 31541d0..cdc4bc8 100644
--- a/src/axl_dtd.c
+++ b/src/axl_dtd.c
@@ -2302,6 +2302,8 @@ axl_bool     __axl_dtd_validate_choice (axlNode             * parent,
 	axl_bool                status;
 	AxlDtdTimes             times;
 	axl_bool                one_match;
+	axl_bool                optional = axl_false;
+	int                     initial_pos = *child_position;
 
 	
 	if (*child_position < axl_node_get_child_num (parent)) {
@@ -2309,13 +2311,9 @@ axl_bool     __axl_dtd_validate_choice (axlNode             * parent,
 		node = axl_node_get_child_nth (parent, *child_position);
 		__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "validated choice list at position: %d=<%s>", *child_position, axl_node_get_name (node));
 	} else {
-		/* tried to match a choice list with a child index
-		 * outside the maximum number of childs */
-		if (! try_match) {
-			axl_error_new (-1, "Unable to match choice list, it seems that the are not enough childs to validate the choice list",
-				       NULL, error);
-		}
-		return axl_false;
+		/* no more childs: only an optional item could be
+		 * matched */
+		node = NULL;
 	}
 
 	iterator = 0; 
@@ -2329,7 +2327,7 @@ axl_bool     __axl_dtd_validate_choice (axlNode             * parent,
 			one_match = axl_false;
 		repeat_for_node:
 			/* a node was found */
-			status    = NODE_CMP_NAME (node, axl_dtd_item_node_get_value (itemNode));
+			status    = (node != NULL) && NODE_CMP_NAME (node, axl_dtd_item_node_get_value (itemNode));
 
 			/* know, if the node was matched check it
 			 * repetition configuration */
@@ -2373,20 +2371,37 @@ axl_bool     __axl_dtd_validate_choice (axlNode             * parent,
 				return axl_true;
 			}
 
+			/* the item could also match nothing */
+			if (times == ZERO_OR_ONE || times == ZERO_OR_MANY)
+				optional = axl_true;
+
 		} else if (axl_dtd_item_node_get_type (itemNode) == AXL_ELEMENT_LIST) {
 			/* an element list was found, call to validate it */
 			/* element list found, validate its content */
-			if (__axl_dtd_validate_item_list (axl_dtd_item_node_get_list (itemNode),
-							  parent, child_position, error, axl_false)) {
+			status = __axl_dtd_validate_item_list (axl_dtd_item_node_get_list (itemNode),
+							       parent, child_position, NULL, axl_false);
+			if (*child_position != initial_pos) {
 				/* item list matched */
-				return axl_true;
+				if (status)
+					return axl_true;
+
+				/* item list matched partially */
+				break;
 			}
+
+			/* the item list could also match nothing */
+			if (status)
+				optional = axl_true;
 		}
 
 		/* no item was matched, update iterator indexes */
 		iterator++;
 	}
 
+	/* no item was matched, but some of them is optional */
+	if (optional && *child_position == initial_pos)
+		return axl_true;
+
 	/* seems that the choice list wasn't matched */
 	if (! try_match) {
 		axl_error_new (-1, "Unable to match choice list, after checking all posibilities, choice list wasn't validated", 
-- 
2.43.0


From 39c7488a105ddd0ca986011a5b53247f6484156b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:07:12 +0000
Subject: [PATCH 48/94] fix: the minimum number of childs of a DTD choice is
 the one of its first item

---
 src/axl_dtd.c | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/src/axl_dtd.c b/src/axl_dtd.c
index cdc4bc8..e5e9c28 100644
--- a/src/axl_dtd.c
+++ b/src/axl_dtd.c
@@ -1103,7 +1103,9 @@ axl_bool     __axl_dtd_read_element_spec (axlStream * stream, axlDtdElement * dt
 int __axl_dtd_parse_element_get_compulsory_num (axlDtdElementList * list)
 {
 	axlDtdElementListNode * itemNode;
+	AxlDtdTimes             times;
 	int                     count    = 0;
+	int                     required;
 	int                     iterator = 0;
 
 	/* check for null parameters */
@@ -1121,26 +1123,29 @@ int __axl_dtd_parse_element_get_compulsory_num (axlDtdElementList * list)
 			
 			/* check if the repetitiong patter is
 			 * compulsory */
-			if (itemNode->times == ONE_OR_MANY ||
-			    itemNode->times == ONE_AND_ONLY_ONE) {
+			times    = axl_dtd_item_node_get_repeat (itemNode);
+			required = 0;
+			if (times == ONE_OR_MANY ||
+			    times == ONE_AND_ONLY_ONE) {
 				/* check if we have an itemNode that has an
 				 * Node or a list */
 				if (itemNode->type == AXL_ELEMENT_NODE) {
 					/* we have an item node */
-					count++;
-					if (list->type == CHOICE) {
-						/* because we have a
-						 * choice list, once
-						 * validated one item,
-						 * it is the minimum
-						 * requirement. */
-						return count;
-					}
+					required = 1;
 				} else {
 					/* we have a list */
-					count += __axl_dtd_parse_element_get_compulsory_num (itemNode->data);
+					required = __axl_dtd_parse_element_get_compulsory_num (itemNode->data);
 				}
 			}
+
+			if (list->type == CHOICE) {
+				/* because we have a choice list, once
+				 * validated one item, it is the
+				 * minimum requirement. */
+				if (iterator == 0 || required < count)
+					count = required;
+			} else
+				count += required;
 			
 			/* update the index */
 			iterator++;
-- 
2.43.0


From 9d80631a04a895858ba922d6bc60f4ee63b58a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:08:01 +0000
Subject: [PATCH 49/94] fix: a DTD list is read as a sequence when its choice
 separators come after nested lists

---
 src/axl_dtd.c | 71 ++++++++++++++++++++++++++++++++++++---------------
 1 file changed, 50 insertions(+), 21 deletions(-)

diff --git a/src/axl_dtd.c b/src/axl_dtd.c
index e5e9c28..e17b439 100644
--- a/src/axl_dtd.c
+++ b/src/axl_dtd.c
@@ -836,6 +836,43 @@ char * __axl_dtd_read_content_particule (axlStream  * stream,
 	return string_aux;
 }
 
+/** 
+ * @internal
+ *
+ * @brief Sets the type of the item list provided according to the
+ * separator found (1 for ',', 2 for '|', nothing is done for the
+ * rest).
+ *
+ * @return axl_false (having reported the error) if the separator
+ * can't be mixed with the ones already found for the same list.
+ */
+axl_bool     __axl_dtd_element_spec_set_list_type (axlDtdElementList  * dtd_item_list, 
+						   int                  chunk_matched, 
+						   axlStream          * stream, 
+						   axlError          ** error)
+{
+	switch (chunk_matched) {
+	case 1:
+		if (dtd_item_list->type == CHOICE) {
+			axl_error_new (-1, "Detected that the DTD definition is mixing content particules separators at the same level ('|' and ','). First detected a sequence spec (,) but then detected a choice element (|)",
+				       stream, error);
+			return axl_false;
+		}
+		dtd_item_list->type = SEQUENCE;
+		break;
+	case 2:
+		if (dtd_item_list->type == SEQUENCE) {
+			axl_error_new (-1, "Detected that the DTD definition is mixing content particules separators at the same level ('|' and ','). First detected a choice spec (|) but then detected a sequence element (,)",
+				       stream, error);
+			return axl_false;
+		}
+		dtd_item_list->type = CHOICE;
+		break;
+	}
+
+	return axl_true;
+}
+
 /** 
  * @internal
  *
@@ -988,27 +1025,10 @@ axl_bool     __axl_dtd_read_element_spec (axlStream * stream, axlDtdElement * dt
 
 		/* set current sequence type accoring to separators
 		 * used */
-		switch (chunk_matched) {
-		case 1:
-			if (dtd_item_list->type == CHOICE) {
-				axl_error_new (-1, "Detected that the DTD definition is mixing content particules separators at the same level ('|' and ','). First detected a sequence spec (,) but then detected a choice element (|)",
-					       stream, error);
-				axl_stack_free (dtd_item_stack);
-				axl_stream_free (stream);		
-				return axl_false;
-			}
-			dtd_item_list->type = SEQUENCE;
-			break;
-		case 2:
-			if (dtd_item_list->type == SEQUENCE) {
-				axl_error_new (-1, "Detected that the DTD definition is mixing content particules separators at the same level ('|' and ','). First detected a choice spec (|) but then detected a sequence element (,)",
-					       stream, error);
-				axl_stack_free (dtd_item_stack);
-				axl_stream_free (stream);		
-				return axl_false;
-			}
-			dtd_item_list->type = CHOICE;
-			break;
+		if (! __axl_dtd_element_spec_set_list_type (dtd_item_list, chunk_matched, stream, error)) {
+			axl_stack_free (dtd_item_stack);
+			axl_stream_free (stream);		
+			return axl_false;
 		}
 
 		/* set element type if a element list terminator was
@@ -1049,6 +1069,15 @@ axl_bool     __axl_dtd_read_element_spec (axlStream * stream, axlDtdElement * dt
 					dtd_item_list = axl_stack_pop (dtd_item_stack);
 					__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "getting the next item list in the stack, stack status: %d",
 						   axl_stack_size (dtd_item_stack));
+
+					/* the separator found after
+					 * the list closed belongs to
+					 * the list that holds it */
+					if (! __axl_dtd_element_spec_set_list_type (dtd_item_list, chunk_matched, stream, error)) {
+						axl_stack_free (dtd_item_stack);
+						axl_stream_free (stream);		
+						return axl_false;
+					}
 				}
 
 				/* special case: check if the next element to
-- 
2.43.0


From 5eb341ad8d3c568c61ec89fd19f29d81dd58e349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:08:08 +0000
Subject: [PATCH 50/94] fix: mixed content is only recognised with #PCDATA as
 the last particule, and then its childs are not validated

---
 src/axl_dtd.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/axl_dtd.c b/src/axl_dtd.c
index e17b439..122592a 100644
--- a/src/axl_dtd.c
+++ b/src/axl_dtd.c
@@ -1038,6 +1038,9 @@ axl_bool     __axl_dtd_read_element_spec (axlStream * stream, axlDtdElement * dt
 				dtd_element->type = ELEMENT_TYPE_PCDATA;
 			else if (axl_list_length (dtd_item_list->itemList) > 1)
 				dtd_element->type = ELEMENT_TYPE_MIXED;
+		} else if (is_pcdata) {
+			/* character data with more particules */
+			dtd_element->type = ELEMENT_TYPE_MIXED;
 		}
 
 		/* pop current element list header */
@@ -3225,6 +3228,10 @@ axl_bool           axl_dtd_validate        (axlDoc * doc, axlDtd * dtd,
 				return axl_false;
 			}
 			break;
+		case ELEMENT_TYPE_MIXED:
+			/* the mixed case, where nodes and PC data
+			 * could be mixed: childs must be the ones
+			 * declared */
 		case ELEMENT_TYPE_CHILDREN:
 
 			__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "  find  CHILDREN dtd element");
@@ -3266,12 +3273,6 @@ axl_bool           axl_dtd_validate        (axlDoc * doc, axlDtd * dtd,
 			 * parent node. */
 			parent = NULL;
 			goto continue_with_validation;
-		case ELEMENT_TYPE_MIXED:
-			__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "  find  MIXED dtd element");
-
-			/* the mixed case, where nodes and PC data
-			 * could be mixed */
-			break;
 		default:
 			/* do not do any thing on this case */
 			break;
-- 
2.43.0


From 6bdd6068b45a030aaf787efddce565bfb66ad740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:08:15 +0000
Subject: [PATCH 51/94] fix: a root that should be empty is rejected without an
 error, and attribute errors leak if not asked for

---
 src/axl_dtd.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/axl_dtd.c b/src/axl_dtd.c
index 122592a..f4d5b7c 100644
--- a/src/axl_dtd.c
+++ b/src/axl_dtd.c
@@ -2938,6 +2938,8 @@ axl_bool axl_dtd_attr_validate (axlNode * node, axlDtd * dtd, axlError ** error,
 		/* reconfigure error returned */
 		if (error != NULL)
 			*error = _error;
+		else
+			axl_error_free (_error);
 		return axl_false;
 	} /* end if */
 		
@@ -3160,7 +3162,7 @@ axl_bool           axl_dtd_validate        (axlDoc * doc, axlDtd * dtd,
 	/* check empty content spec */
 	if (axl_dtd_get_element_type (element) == ELEMENT_TYPE_EMPTY) {
 		/* check if the document provided have only one node */
-		result = axl_node_is_empty (parent) && !axl_node_have_childs (parent) && axl_dtd_attr_validate (parent, dtd, error, id_validation, idref_validation);
+		result = __axl_dtd_validate_element_type_empty (element, parent, NULL, error) && axl_dtd_attr_validate (parent, dtd, error, id_validation, idref_validation);
 
 		/* check references */
 		if (result)
-- 
2.43.0


From 8490588557164dd00f23058ea1a049727b5b4b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:08:22 +0000
Subject: [PATCH 52/94] fix: elements without its optional ID attribute are
 rejected as having it repeated

---
 src/axl_dtd.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/axl_dtd.c b/src/axl_dtd.c
index f4d5b7c..9ff9b3c 100644
--- a/src/axl_dtd.c
+++ b/src/axl_dtd.c
@@ -2967,8 +2967,8 @@ axl_bool axl_dtd_attr_validate (axlNode * node, axlDtd * dtd, axlError ** error,
 		/* check if the node have TOKENIZED_TYPE_ID */
 		decl = axl_list_lookup (attribute->list, __find_id_decl, NULL);
 		
-		/* if we have a tokenized */
-		if (decl != NULL) {
+		/* if we have a tokenized (and it is defined) */
+		if (decl != NULL && HAS_ATTR (node, decl->name)) {
 
 			__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "found ID unique attribute declaration %s=\"%s\"..",
 				   decl->name, ATTR_VALUE (node, decl->name));
-- 
2.43.0


From a45e8600eaeefca743438bd1170930c80b9b080a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:09:43 +0000
Subject: [PATCH 53/94] fix: DTDs are compared without its nested content,
 names of childs and default values (crashing if the number of childs differs)

---
 src/axl_dtd.c | 85 ++++++++++++++++++++++++++++++++++++---------------
 1 file changed, 60 insertions(+), 25 deletions(-)

diff --git a/src/axl_dtd.c b/src/axl_dtd.c
index 9ff9b3c..d3a3d9f 100644
--- a/src/axl_dtd.c
+++ b/src/axl_dtd.c
@@ -3356,6 +3356,59 @@ axl_bool           axl_dtd_validate        (axlDoc * doc, axlDtd * dtd,
 	return result;
 }
 
+/** 
+ * @internal Function used by axl_dtd_are_equal to compare optional
+ * values (equal if both are not defined).
+ */
+axl_bool __axl_dtd_are_equal_values (const char * value, const char * value2)
+{
+	if (value == NULL && value2 == NULL)
+		return axl_true;
+	return axl_cmp (value, value2);
+}
+
+/** 
+ * @internal Function used by axl_dtd_are_equal to compare content
+ * specifications, including the ones nested.
+ */
+axl_bool __axl_dtd_are_equal_item_lists (axlDtdElementList * list, axlDtdElementList * list2)
+{
+	axlDtdElementListNode * node, * node2;
+	int                     iterator = 0;
+
+	/* check internal values */
+	if (list->type != list2->type)
+		return axl_false;
+	if (list->times != list2->times)
+		return axl_false;
+	if (axl_list_length (list->itemList) != axl_list_length (list2->itemList))
+		return axl_false;
+
+	while (iterator < axl_list_length (list->itemList)) {
+
+		/* get references */
+		node  = axl_list_get_nth (list->itemList, iterator);
+		node2 = axl_list_get_nth (list2->itemList, iterator);
+
+		if (node->type != node2->type)
+			return axl_false;
+		if (node->times != node2->times)
+			return axl_false;
+
+		if (node->type == AXL_ELEMENT_LIST) {
+			if (! __axl_dtd_are_equal_item_lists (node->data, node2->data))
+				return axl_false;
+		} else if (! axl_cmp (node->data, node2->data))
+			return axl_false;
+
+		/* next value */
+		iterator++;
+
+	} /* end while */
+
+	return axl_true;
+}
+
 /** 
  * @brief Allows to check if the provided two references represents
  * DTD documents with the same rules. 
@@ -3379,7 +3432,6 @@ axl_bool                 axl_dtd_are_equal        (axlDtd * dtd,
 	int iterator3;
 	axlDtdEntity          * entity,      * entity2;
 	axlDtdElement         * element,     * element2;
-	axlDtdElementListNode * node,        * node2;
 	axlDtdAttribute       * attribute,   * attribute2;
 	axlDtdAttributeDecl   * attr_decl,   * attr_decl2;
 
@@ -3417,7 +3469,7 @@ axl_bool                 axl_dtd_are_equal        (axlDtd * dtd,
 			return axl_false;
 
 		/* check content */
-		if (! axl_cmp (entity->content, entity2->content))
+		if (! __axl_dtd_are_equal_values (entity->content, entity2->content))
 			return axl_false;
 
 		/* check external data */
@@ -3426,11 +3478,11 @@ axl_bool                 axl_dtd_are_equal        (axlDtd * dtd,
 		if (entity->data != NULL && entity2->data == NULL)
 			return axl_false;
 		if (entity->data != NULL && entity2->data != NULL) {
-			if (! axl_cmp (entity->data->system_literal, entity2->data->system_literal))
+			if (! __axl_dtd_are_equal_values (entity->data->system_literal, entity2->data->system_literal))
 				return axl_false;
-			if (! axl_cmp (entity->data->public_literal, entity2->data->public_literal))
+			if (! __axl_dtd_are_equal_values (entity->data->public_literal, entity2->data->public_literal))
 				return axl_false;
-			if (! axl_cmp (entity->data->ndata, entity2->data->ndata))
+			if (! __axl_dtd_are_equal_values (entity->data->ndata, entity2->data->ndata))
 				return axl_false;
 		} /* end if */
 
@@ -3465,27 +3517,8 @@ axl_bool                 axl_dtd_are_equal        (axlDtd * dtd,
 		if (element->list != NULL && element2->list != NULL) {
 
 			/* check internal values */
-			if (element->list->type != element2->list->type)
-				return axl_false;
-			if (element->list->times != element2->list->times)
+			if (! __axl_dtd_are_equal_item_lists (element->list, element2->list))
 				return axl_false;
-
-			iterator2 = 0;
-			while (iterator2 < axl_list_length (element->list->itemList)) {
-				
-				/* get references */
-				node  = axl_list_get_nth (element->list->itemList, iterator2);
-				node2 = axl_list_get_nth (element2->list->itemList, iterator2);
-
-				if (node->type != node2->type)
-					return axl_false;
-				if (node->times != node2->times)
-					return axl_false;
-				
-				/* next value */
-				iterator2++;
-
-			} /* end while */
 			
 		} /* end if */
 
@@ -3529,6 +3562,8 @@ axl_bool                 axl_dtd_are_equal        (axlDtd * dtd,
 					return axl_false;
 				if (! axl_cmp (attr_decl->name, attr_decl2->name))
 					return axl_false;
+				if (! __axl_dtd_are_equal_values (attr_decl->default_value, attr_decl2->default_value))
+					return axl_false;
 				
 				if (attr_decl->enumvalues == NULL && attr_decl2->enumvalues != NULL)
 					return axl_false;
-- 
2.43.0


From b2a86d2b79e4dadc0aa9669987cd898227864a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:10:59 +0000
Subject: [PATCH 54/94] fix: an element declaration that fails to be parsed is
 never released

---
 src/axl_dtd.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/axl_dtd.c b/src/axl_dtd.c
index d3a3d9f..f3df9b3 100644
--- a/src/axl_dtd.c
+++ b/src/axl_dtd.c
@@ -1278,13 +1278,19 @@ axl_bool     __axl_dtd_parse_element (axlDtd * dtd, axlStream * stream, axlError
 		 * which leads to the two possible values: Mixed and
 		 * PcData */
 		element->type = ELEMENT_TYPE_CHILDREN;
-		if (!__axl_dtd_read_element_spec (stream, element, error))
+		if (!__axl_dtd_read_element_spec (stream, element, error)) {
+			/* not added to the dtd: release it */
+			axl_dtd_element_free (element);
 			return axl_false;
+		}
 	}
 
 	/* add element found */
-	if (! __axl_dtd_add_element (dtd, element, stream, error))
+	if (! __axl_dtd_add_element (dtd, element, stream, error)) {
+		/* not added to the dtd: release it */
+		axl_dtd_element_free (element);
 		return axl_false;
+	}
 	
 	/* consume previous white spaces */
 	AXL_CONSUME_SPACES (stream);
-- 
2.43.0


From 79c6606df82f9c6b61d7bfa808f4639b0dc71252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:11:06 +0000
Subject: [PATCH 55/94] fix: a DTD that ends before its last element
 declaration does is accepted

---
 src/axl_dtd.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/axl_dtd.c b/src/axl_dtd.c
index f3df9b3..d0dc880 100644
--- a/src/axl_dtd.c
+++ b/src/axl_dtd.c
@@ -924,7 +924,7 @@ axl_bool     __axl_dtd_read_element_spec (axlStream * stream, axlDtdElement * dt
 	AXL_CONSUME_SPACES (stream);
 
 	/* check that the content specification have an ( */
-	if (! (axl_stream_inspect (stream, "(", 1))) {
+	if (! (axl_stream_inspect (stream, "(", 1) > 0)) {
 		axl_error_new (-1, "Expected to find a element content specification opener \"(\", but it wasn't found",
 			       stream, error);
 		axl_stack_free (dtd_item_stack);
@@ -1296,7 +1296,7 @@ axl_bool     __axl_dtd_parse_element (axlDtd * dtd, axlStream * stream, axlError
 	AXL_CONSUME_SPACES (stream);
 
 	/* check for the last DTD declaration */
-	if (! (axl_stream_inspect (stream, ">", 1))) {
+	if (! (axl_stream_inspect (stream, ">", 1) > 0)) {
 		axl_error_new (-1, "Unable to find last, > terminator for the DTD <!ELEMENT declaration", stream, error);
 		axl_stream_free (stream);
 		return axl_false;
-- 
2.43.0


From f520f4482f9e77f399ef5242bfdb9ad4048ddca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:18:18 +0000
Subject: [PATCH 56/94] fix: an entity whose value is not terminated is
 accepted without value

---
 src/axl_dtd.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/axl_dtd.c b/src/axl_dtd.c
index d0dc880..748e27f 100644
--- a/src/axl_dtd.c
+++ b/src/axl_dtd.c
@@ -1873,6 +1873,14 @@ axl_bool __axl_dtd_parse_entity (axlDtd * dtd, axlStream * stream, axlError ** e
 			string_aux = axl_stream_get_until (stream, NULL, &matched_chunk, axl_true, 1, "\"");
 		}
 
+		/* check the value was found */
+		if (string_aux == NULL) {
+			axl_error_new (-2, "Expected to find entity value terminator (\") or ('), but it wasn't found", 
+				       stream, error);
+			axl_stream_free (stream);
+			return axl_false;
+		}
+
 		__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "entity value found: [%s]", string_aux);
 		
 		/* nullify internal reference so we have the
-- 
2.43.0


From 3a59f3fb4e227aec8c00e17d8b0bb1bc5962e534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:18:45 +0000
Subject: [PATCH 57/94] fix: an attribute default value that is not terminated
 is accepted without value

---
 src/axl_dtd.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/axl_dtd.c b/src/axl_dtd.c
index 748e27f..352fed7 100644
--- a/src/axl_dtd.c
+++ b/src/axl_dtd.c
@@ -1706,13 +1706,23 @@ axl_bool __axl_dtd_parse_attlist (axlDtd * dtd, axlStream * stream, axlError **
 		AXL_CONSUME_SPACES (stream);
 
 		/* nullify to check this value later */
-		string_aux = NULL;
+		string_aux    = NULL;
+		matched_chunk = -1;
 		if (axl_stream_inspect (stream, "\"", 1) > 0) {
 			/* get until */
 			string_aux = axl_stream_get_until (stream, NULL, NULL, axl_true, 1, "\"");
+			matched_chunk = 0;
 		} else if (axl_stream_inspect (stream, "'", 1) > 0) {
 			/* get until */
 			string_aux = axl_stream_get_until (stream, NULL, NULL, axl_true, 1, "\'");
+			matched_chunk = 0;
+		} /* end if */
+
+		/* check the default value started is terminated */
+		if (matched_chunk == 0 && string_aux == NULL) {
+			axl_error_new (-1, "Expected to find default attribute value terminator (\") or ('), but it wasn't found", stream, error);
+			axl_stream_free (stream);
+			return axl_false;
 		} /* end if */
 
 		/* check if default value was found */
-- 
2.43.0


From f7af1f9bff7526d11a09f4ae73321458b84a671b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:20:21 +0000
Subject: [PATCH 58/94] fix: attributes whose name only starts with xmlns are
 taken as namespace declarations

---
 ns/axl_ns_doc.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ns/axl_ns_doc.c b/ns/axl_ns_doc.c
index 91e0772..140ad30 100644
--- a/ns/axl_ns_doc.c
+++ b/ns/axl_ns_doc.c
@@ -96,7 +96,7 @@ axl_bool __axl_ns_node_check_and_install_ns_decls (axlNode * node, axlAttrCursor
 
 		/* get the key */
 		attr = axl_node_attr_cursor_get_key (cursor);
-		if (! axl_memcmp (attr, "xmlns", 5)) {
+		if (! axl_memcmp (attr, "xmlns", 5) || (attr[5] != 0 && attr[5] != ':')) {
 			/* no xml namespace declaration found, go next */
 			axl_node_attr_cursor_next (cursor);
 			continue;
@@ -257,7 +257,7 @@ axl_bool __axl_ns_node_validate (axlNode * node, axlError ** error)
 			
 			/* get the key */
 			name = (char*) axl_node_attr_cursor_get_key (cursor);
-			if (axl_memcmp (name, "xmlns", 5)) {
+			if (axl_memcmp (name, "xmlns", 5) && (name[5] == 0 || name[5] == ':')) {
 				/* skip namespace declarations */
 				axl_node_attr_cursor_next (cursor);
 				continue;
-- 
2.43.0


From a36097c0e9f629284d9707b644886822d32dcb91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:20:25 +0000
Subject: [PATCH 59/94] fix: documents using the prefix xml (xml:space,
 xml:lang) are rejected by the namespace validation

---
 ns/axl_ns_doc.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/ns/axl_ns_doc.c b/ns/axl_ns_doc.c
index 140ad30..d0a645d 100644
--- a/ns/axl_ns_doc.c
+++ b/ns/axl_ns_doc.c
@@ -216,6 +216,12 @@ axl_bool __axl_ns_node_validate (axlNode * node, axlError ** error)
 		iterator++;
 	} /* end if */
 	
+	/* the prefix xml is declared by definition */
+	if (found && axl_cmp (name, "xml")) {
+		name[iterator] = ':';
+		found          = axl_false;
+	} /* end if */
+
 	if (found) {
 		/* namespace declaration found (this supposes that the
 		 * default ns is not used) */
@@ -282,6 +288,12 @@ axl_bool __axl_ns_node_validate (axlNode * node, axlError ** error)
 				/* get next position */
 				iterator++;
 			} /* end while */
+
+			/* the prefix xml is declared by definition */
+			if (found && axl_cmp (name, "xml")) {
+				name[iterator] = ':';
+				found          = axl_false;
+			} /* end if */
 			
 			if (found) {
 				parent = node;
-- 
2.43.0


From 6be3e0c5e2c46517a7607ee1b75c55fade7fd9ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:00 +0000
Subject: [PATCH 60/94] fix: documents with an utf-8 mark and no encoding
 declared are not checked to be utf-8

---
 babel/axl_babel.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/babel/axl_babel.c b/babel/axl_babel.c
index 1a7208a..516186c 100644
--- a/babel/axl_babel.c
+++ b/babel/axl_babel.c
@@ -385,7 +385,7 @@ axl_bool axl_babel_configure_encoding (axlStream  * stream,
 	/* check case were a encoding was detected (the entity content
 	 * is encoded as detected due to marks or other means) */
 	if (detected && encoding == NULL)
-		detected = encoding;
+		encoding = detected;
 
 	/* check encoding found (either detected or defined) */
 	if (axl_cmp (encoding, "iso88591")) {
-- 
2.43.0


From 330703e87c7eb61d4ae16bf714fecca7a71310d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:07 +0000
Subject: [PATCH 61/94] fix: bytes not defined by the document encoding are
 decoded into NUL, which cuts the content

---
 babel/axl_babel.c | 8 ++++++++
 src/axl_stream.c  | 4 ++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/babel/axl_babel.c b/babel/axl_babel.c
index 516186c..b3546b1 100644
--- a/babel/axl_babel.c
+++ b/babel/axl_babel.c
@@ -276,6 +276,14 @@ int axl_babel_single_to_utf8 (const char * source, int source_size,
 
 		/* __axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "translating value=%c (%d)", source[iterator], value); */
 
+		/* check the encoding defines the value received (those
+		 * that aren't defined are translated into 0) */
+		if (value != 0 && table[value].size == 1 && table[value].buffer[0] == 0) {
+			__axl_log (LOG_DOMAIN, AXL_LEVEL_CRITICAL, "found value=%d which is not defined by encoding %s", value, source_encoding);
+			*output_converted = 0;
+			return 0;
+		} /* end if */
+
 		/* check if we are able to place all the encoded item */
 		if ((iterator2 + table[value].size) > output_size) {
 			/* __axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "unable to completely decode following sequence (%d size, on remain: %d)",
diff --git a/src/axl_stream.c b/src/axl_stream.c
index b87db9c..9685a19 100644
--- a/src/axl_stream.c
+++ b/src/axl_stream.c
@@ -3683,14 +3683,14 @@ axl_bool        axl_stream_setup_decode        (axlStream         * stream,
 					 /* output max size */
 					 stream->buffer_size - stream->stream_index,
 					 /* output decoded */
-					 &(stream->stream_size),
+					 &decoded,
 					 /* do not define op result */
 					 NULL,
 					 error))
 			return axl_false;
 		
 		/* add to the stream size the current index */
-		stream->stream_size += stream->stream_index;
+		stream->stream_size = decoded + stream->stream_index;
 
 		/* a memory stream is never prebuffered: make room to
 		 * decode now all content pending */
-- 
2.43.0


From 0abd023b91e02e7386967b39c391a6a2cc14dda8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:10 +0000
Subject: [PATCH 62/94] fix: overlong forms, surrogates and values beyond
 U+10FFFF are accepted as utf-8

---
 babel/axl_babel.c | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/babel/axl_babel.c b/babel/axl_babel.c
index b3546b1..05978ec 100644
--- a/babel/axl_babel.c
+++ b/babel/axl_babel.c
@@ -506,6 +506,7 @@ axl_bool        axl_babel_check_utf8_content  (const char  * content,
 {
 	int           iterator = 0;
 	unsigned char value;
+	unsigned char next;
 
 
 	if (index_error)
@@ -519,8 +520,23 @@ axl_bool        axl_babel_check_utf8_content  (const char  * content,
 		content_length = strlen (content);
 
 	while (iterator < content_length) {
-		/* utf with 4 octects */
 		value = content[iterator];
+
+		/* forms that are no character: overlong ones, surrogates
+		 * and those beyond U+10FFFF */
+		next = ((iterator + 1) < content_length) ? content[iterator + 1] : 0;
+		if (value == 192 || value == 193 || value > 244 || 
+		    (next >= 128 && ((value == 224 && next < 160) || (value == 237 && next > 159) ||
+				     (value == 240 && next < 144) || (value == 244 && next > 143)))) {
+			__axl_log (LOG_DOMAIN, AXL_LEVEL_CRITICAL, "found utf-8 form that is not allowed, value=%d..", value);
+
+			/* found error */
+			if (index_error)
+				*index_error = iterator;
+			return axl_false;
+		} /* end if */
+
+		/* utf with 4 octects */
 		if (value >= 240 && value <= 247 && (iterator + 1) < content_length ) {
 			
 			/* get next value */
-- 
2.43.0


From b3697d44a2e5d81b0c3ce28d14011a42b3589aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:31 +0000
Subject: [PATCH 63/94] fix: comments right after the xml declaration are read
 before the encoding is configured

---
 src/axl_doc.c | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/axl_doc.c b/src/axl_doc.c
index 244cbbc..9177b23 100644
--- a/src/axl_doc.c
+++ b/src/axl_doc.c
@@ -699,10 +699,6 @@ axl_bool __axl_doc_parse_xml_header (axlStream * stream, axlDoc * doc, axlError
 			axl_stream_free (stream);
 			return axl_false;
 		}
-
-		/* consume a possible comment */
-		if (! axl_doc_consume_comments (doc, stream, error))
-			return axl_false;
 	}
 
 	/* configure encoding again, now we could have more data */
-- 
2.43.0


From 302f753072dbd056defbdae6604b4993195d2def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:01 +0000
Subject: [PATCH 64/94] fix: threads using the library for the first time race
 on the log configuration

---
 src/axl.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/axl.c b/src/axl.c
index a1bbf89..530e8f2 100644
--- a/src/axl.c
+++ b/src/axl.c
@@ -1079,7 +1079,11 @@
  */
 axl_bool axl_init (void)
 {
-	/* nothing to initialize dude */
+	/* read now the log configuration: otherwise it would be
+	 * written by the first threads using the library */
+	axl_log_is_enabled ();
+	axl_log_color_is_enabled ();
+
 	return axl_true;
 }
 
-- 
2.43.0


From b277f0052af3460ee47680578523d955b3e4940d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:59 +0000
Subject: [PATCH 65/94] fix: axl-knife exits with success for documents and
 DTDs that fail, and with failure for --version

---
 knife/axl-knife.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/knife/axl-knife.c b/knife/axl-knife.c
index ee64115..7884fa4 100644
--- a/knife/axl-knife.c
+++ b/knife/axl-knife.c
@@ -687,6 +687,7 @@ int main (int argc, char ** argv)
 
 	axlDoc   * doc = NULL;
 	axlError * err = NULL;
+	int        result = 0;
 
 	/* init the axl library */
 	if (! axl_init ()) {
@@ -756,7 +757,8 @@ int main (int argc, char ** argv)
 
 	/* normal operations */
 	if (exarg_is_defined ("version")) {
-		return printf ("%s\n", VERSION);
+		printf ("%s\n", VERSION);
+		return 0;
 	}
 
 	/* check ifnewer option */
@@ -798,6 +800,7 @@ int main (int argc, char ** argv)
 			error ("Failed to open document (%s), error found: %s",
 			       exarg_get_string ("input"), axl_error_get (err));
 			axl_error_free (err);
+			result = -1;
 			goto finish;
 		} /* end if */
 		msg ("document loaded properly: %s", exarg_get_string ("input"));
@@ -807,12 +810,14 @@ int main (int argc, char ** argv)
 	/* check process options */
 	if (exarg_is_defined ("htmlize")) {
 		/* call to htmlize the content received */
-		axl_knife_htmlize (doc);
+		if (! axl_knife_htmlize (doc))
+			result = -1;
 	} else if (exarg_is_defined ("dtd-to-c")) {
 
 		/* call to produce a C representation from the DTD
 		 * provided */
-		axl_knife_dtd_to_c ();
+		if (! axl_knife_dtd_to_c ())
+			result = -1;
 	} else if (exarg_is_defined ("check-xml")) {
 		/* do nothing because if reached this code, document
 		 * was loadedd properly */
@@ -830,7 +835,7 @@ int main (int argc, char ** argv)
 	/* terminate exarg */
 	exarg_end ();
 
-	return 0;
+	return result;
 }
 
 /** 
-- 
2.43.0


From 32c09751e41f19d1be9d08a1a6fdafc0f92394b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:03 +0000
Subject: [PATCH 66/94] fix: axl-knife goes on when options that exclude each
 other are given

---
 knife/exarg.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/knife/exarg.c b/knife/exarg.c
index 9b3bfe6..6ae383b 100644
--- a/knife/exarg.c
+++ b/knife/exarg.c
@@ -1117,9 +1117,8 @@ void __exarg_parse_check_depends (void)
 			
 			/* check that the dependency is defined */
 			if (dep->node->is_defined) {
-				printf ("You can't define argument (--%s) if used (--%s). Try %s --help.\n", 
-					node->arg_name, dep->node->arg_name, exarg_exec_name);
-				fflush (stdout);
+				exarg_msg ("You can't define argument (--%s) if used (--%s). Try %s --help.\n", 
+					   node->arg_name, dep->node->arg_name, exarg_exec_name);
 				return;
 			} /* end if */
 
-- 
2.43.0


From 46cf27759ec718b5a6e5a01ffae68b3ef23c8ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:07 +0000
Subject: [PATCH 67/94] fix: axl-knife --htmlize shows empty nodes without
 attributes as if they were open

---
 knife/axl-knife.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/knife/axl-knife.c b/knife/axl-knife.c
index 7884fa4..2ca8eac 100644
--- a/knife/axl-knife.c
+++ b/knife/axl-knife.c
@@ -426,8 +426,9 @@ axl_bool axl_knife_htmlize_iterator_node (FILE * fstream, axlNode * node, int le
 		/* printf ("Defined? %d\n", exarg_is_defined ("htmlize-skip-first-enter-for-content"));
 		   printf ("Status? %d\n", (axl_node_have_childs (node) && ! exarg_is_defined ("htmlize-skip-first-enter-for-content"))); */
 
-		ref = axl_strdup_printf ("&lt;<span class=\"node\">%s</span>>%s",
+		ref = axl_strdup_printf ("&lt;<span class=\"node\">%s</span>%s>%s",
 					 axl_node_get_name (node),
+					 (axl_item_get_first_child (node) == NULL) ? " /" : "",
 					 (axl_node_have_childs (node) && ! exarg_is_defined ("htmlize-skip-first-enter-for-content")) ? "\n" : "");
 		
 		/* printf (" Node: [%s]\n", ref); */
-- 
2.43.0


From 505882227f31202b611cb71796613a58df348db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:10 +0000
Subject: [PATCH 68/94] fix: axl-knife reports success when the output can't be
 written

---
 knife/axl-knife.c | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/knife/axl-knife.c b/knife/axl-knife.c
index 2ca8eac..2891a9e 100644
--- a/knife/axl-knife.c
+++ b/knife/axl-knife.c
@@ -516,6 +516,20 @@ axl_bool axl_knife_htmlize_iterator_node (FILE * fstream, axlNode * node, int le
 	return axl_true;
 }
 
+axl_bool axl_knife_close_output (FILE * fstream)
+{
+	axl_bool result = (ferror (fstream) == 0);
+
+	/* close the stream (or flush it) to check that all content
+	 * was written */
+	if ((fstream == stdout ? fflush (fstream) : fclose (fstream)) != 0)
+		result = axl_false;
+	if (! result) 
+		error ("unable to write output document, errno=%d:%s", errno, strerror (errno));
+
+	return result;
+}
+
 axl_bool axl_knife_htmlize (axlDoc * doc)
 {
 	FILE       * fstream = stdout;
@@ -542,7 +556,7 @@ axl_bool axl_knife_htmlize (axlDoc * doc)
 	axl_knife_htmlize_iterator_node (fstream, axl_doc_get_root (doc), 0);
 	fprintf (fstream, "</pre>\n");
 
-	return axl_true;
+	return axl_knife_close_output (fstream);
 }
 
 axl_bool axl_knife_dtd_to_c (void)
@@ -651,11 +665,7 @@ axl_bool axl_knife_dtd_to_c (void)
 	axl_free (file);
 	axl_free (format);
 
-	/* check output argument */
-	if (exarg_is_defined ("output"))
-		fclose (fstream);
-
-	return axl_true;
+	return axl_knife_close_output (fstream);
 }
 
 /** 
-- 
2.43.0


From 4f12428d0e7529779bc321ee43473cb2c529f583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:25 +0000
Subject: [PATCH 69/94] fix: axl-knife --dtd-to-c breaks values holding both
 kinds of quotes, or backslashes

---
 knife/axl-knife.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/knife/axl-knife.c b/knife/axl-knife.c
index 2891a9e..9529c07 100644
--- a/knife/axl-knife.c
+++ b/knife/axl-knife.c
@@ -642,16 +642,19 @@ axl_bool axl_knife_dtd_to_c (void)
 				/* update blank */
 				if (ref[iterator] == '\t')
 					ref[iterator] = ' ';
-				if (ref[iterator] == '\"')
-					ref[iterator] = '\'';
 
 				/* next iterator */
 				iterator++;
 			} /* end while */
 		} /* end if */
 
-		/* get lenght and update */
+		/* write the line, with the characters that have a
+		 * meaning inside a C string quoted */
+		ref = axl_strdup (ref ? ref : "");
+		axl_replace (ref, "\\", "\\\\");
+		axl_replace (ref, "\"", "\\\"");
 		fprintf (fstream, format, ref);
+		axl_free (ref);
 
 	} while (chunk_matched != -2);
 
-- 
2.43.0


From 1fdb397588c7016b9fb1404654a686fecc7f2c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:59 +0000
Subject: [PATCH 70/94] fix: a DTD whose file cannot be read until its end was
 accepted with the declarations found so far

---
 src/axl_dtd.c    |  7 +++++++
 src/axl_stream.c | 21 +++++++++++++++++++++
 src/axl_stream.h |  2 ++
 src/libaxl.def   |  1 +
 4 files changed, 31 insertions(+)

diff --git a/src/axl_dtd.c b/src/axl_dtd.c
index 352fed7..7ccf56d 100644
--- a/src/axl_dtd.c
+++ b/src/axl_dtd.c
@@ -1987,6 +1987,13 @@ axlDtd * __axl_dtd_parse_common (const char * entity, int entity_size,
 	}
 
 
+	/* do not accept the first part of a file as the DTD */
+	if (axl_stream_read_failed (stream)) {
+		axl_error_new (-1, "unable to read DTD content, read operation failed", stream, error);
+		axl_stream_free (stream);
+		return NULL;
+	}
+
 	__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "DTD elements totally loaded, building references..");
 
 	/* update current root reference, the DTD root for the DTD
diff --git a/src/axl_stream.c b/src/axl_stream.c
index 9685a19..9dfe7e8 100644
--- a/src/axl_stream.c
+++ b/src/axl_stream.c
@@ -208,6 +208,9 @@ struct _axlStream {
 	 */
 	axl_bool        needs_expansion;
 
+	/* signals that the content could not be read until its end */
+	axl_bool        read_failed;
+
 	/** 
 	 * @internal Reference to the content check function
 	 * installed.
@@ -392,6 +395,8 @@ axl_bool axl_stream_prebuffer (axlStream * stream)
 						   stream->decode_temp_size - stream->decode_temp_last);
 				
 				/* update the amount of data available tat the decode temp */
+				if (bytes_read < 0)
+					stream->read_failed = axl_true;
 				if (bytes_read > 0)
 					stream->decode_temp_last += bytes_read;
 				else if (stream->fd > 0) {
@@ -443,6 +448,8 @@ axl_bool axl_stream_prebuffer (axlStream * stream)
 		
 		/* check for end of file reached or a read error */
 		if (bytes_read <= 0) {
+			if (bytes_read < 0)
+				stream->read_failed = axl_true;
 			__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "end of file reached");
 			close (stream->fd);
 			stream->fd = -1;
@@ -2126,6 +2133,20 @@ axl_bool        axl_stream_remains         (axlStream * stream)
 	return axl_true;
 }
 
+/** 
+ * @brief Allows to check if the content of the stream could not be
+ * read until its end because the read operation failed.
+ * 
+ * @param stream The stream that is being checked.
+ * 
+ * @return axl_true if a read operation failed, otherwise axl_false.
+ */
+axl_bool        axl_stream_read_failed     (axlStream * stream)
+{
+	axl_return_val_if_fail (stream, axl_false);
+	return stream->read_failed;
+}
+
 
 /* @} */
 
diff --git a/src/axl_stream.h b/src/axl_stream.h
index 4557f28..3beba64 100644
--- a/src/axl_stream.h
+++ b/src/axl_stream.h
@@ -164,6 +164,8 @@ void        axl_stream_consume_white_spaces (axlStream * stream);
 
 axl_bool    axl_stream_remains         (axlStream * stream);
 
+axl_bool    axl_stream_read_failed     (axlStream * stream);
+
 /* @} */
 
 /* string handling interface */
diff --git a/src/libaxl.def b/src/libaxl.def
index fb84987..1ede128 100644
--- a/src/libaxl.def
+++ b/src/libaxl.def
@@ -451,6 +451,7 @@ axl_stream_printf_buffer
 axl_stream_printf_len
 axl_stream_printf_limit
 axl_stream_push
+axl_stream_read_failed
 axl_stream_remains
 axl_stream_remove
 axl_stream_replace
-- 
2.43.0


From 7987fb805e9bdd42e689b89f703e731c2134ee4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:11:52 +0000
Subject: [PATCH 71/94] fix: the cost of storing items in a hash (attributes of
 a node, namespaces) grows with the square of their number

---
 src/axl_hash.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/axl_hash.c b/src/axl_hash.c
index 1b4c0b3..9b3a034 100644
--- a/src/axl_hash.c
+++ b/src/axl_hash.c
@@ -329,7 +329,8 @@ axlHash * axl_hash_new       (axlHashFunc    hash, axlEqualFunc equal)
  * that two stored items are equal (using the key value)
  *
  * @param step The number of empty new slots to allocate once the hash
- * must be resized.
+ * must be resized (more are allocated once the hash stores more than
+ * four times this number).
  * 
  * @return A newly created hash table that is deallocated by using \ref axl_hash_free.
  */
@@ -451,6 +452,7 @@ void       axl_hash_insert_full (axlHash        * hash,
 	axlHashNode  * node      = NULL;
 	axlHashNode  * aux       = NULL;
 	int            iterator  = 0;
+	int            step;
 	axlHashNode ** temp;
 
 	/* check incoming data */
@@ -530,8 +532,12 @@ void       axl_hash_insert_full (axlHash        * hash,
 		}
 	
 		/* now we have in node a complete list of items
-		 * stored, allocate more memory and rehash */
-		hash->hash_size += hash->step;
+		 * stored, allocate more memory and rehash: as many
+		 * slots as configured, but in proportion to what is
+		 * stored for big tables, so the cost of storing an
+		 * item does not depend on how many are there */
+		step             = (hash->hash_size / 4) > hash->step ? (hash->hash_size / 4) : hash->step;
+		hash->hash_size += step;
 		temp             = hash->table;
 		hash->table      = realloc (hash->table, sizeof (axlHashNode *) * (hash->hash_size));
 
@@ -539,7 +545,7 @@ void       axl_hash_insert_full (axlHash        * hash,
 		if (hash->table == NULL) {
 			/* alloc failed, restore and cleanup */
 			hash->table = temp;
-			hash->hash_size -= hash->step;
+			hash->hash_size -= step;
 			return;
 		} /* end if */
 
-- 
2.43.0


From 34e1219d66fb44bfc2ca2ace1a502a6ad2f22c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:14:45 +0000
Subject: [PATCH 72/94] fix: the cost of copying a list grows with the square
 of its length

---
 src/axl_list.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/axl_list.c b/src/axl_list.c
index 1f2cbd0..0d80086 100644
--- a/src/axl_list.c
+++ b/src/axl_list.c
@@ -375,9 +375,9 @@ void       axl_list_set_destroy_func (axlList * list, axlDestroyFunc destroy_dat
  */
 axlList  * axl_list_copy   (axlList * list, axlDuplicateFunc func)
 {
-	axlList   * result;
-	int         iterator;
-	axlPointer  data;
+	axlList     * result;
+	axlListNode * node;
+	axlPointer    data;
 
 	axl_return_val_if_fail (list, NULL);
 
@@ -390,10 +390,10 @@ axlList  * axl_list_copy   (axlList * list, axlDuplicateFunc func)
 		result->destroy_data = NULL;
 
 	/* add all elements */
-	iterator = 0;
-	while (iterator < axl_list_length (list)) {
+	node = list->first_node;
+	while (node != NULL) {
 		/* get data pointer from the list */
-		data = axl_list_get_nth (list, iterator);
+		data = node->data;
 
 		/* try to make a copy */
 		if (func != NULL)
@@ -402,8 +402,8 @@ axlList  * axl_list_copy   (axlList * list, axlDuplicateFunc func)
 		/* add the data to the new list */
 		axl_list_append (result, data);
 
-		/* update index */
-		iterator++;
+		/* next item */
+		node = node->next;
 	}
 
 	return result;
-- 
2.43.0


From 3d545b1a0f9fd4c76f620852f05439b896be2a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:14:50 +0000
Subject: [PATCH 73/94] fix: the cost of validating a document grows with the
 square of its references

---
 src/axl_dtd.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/axl_dtd.c b/src/axl_dtd.c
index 7ccf56d..f562ea7 100644
--- a/src/axl_dtd.c
+++ b/src/axl_dtd.c
@@ -3039,7 +3039,7 @@ axl_bool axl_dtd_attr_validate (axlNode * node, axlDtd * dtd, axlError ** error,
 				if (ATTR_VALUE (node, decl->name)) {
 					/* store the id ref reference
 					 * if defined */
-					axl_list_add (idref_validation, (axlPointer) ATTR_VALUE (node, decl->name));
+					axl_list_append (idref_validation, (axlPointer) ATTR_VALUE (node, decl->name));
 				}
 			} /* end if */
 
-- 
2.43.0


From a71a37c98dcf5c67d381a484378c9af7f1aae402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:14:56 +0000
Subject: [PATCH 74/94] fix: the cost of removing a string from another grows
 with the square of its length

---
 src/axl_stream.c | 35 ++++++++++++++---------------------
 1 file changed, 14 insertions(+), 21 deletions(-)

diff --git a/src/axl_stream.c b/src/axl_stream.c
index 9dfe7e8..71cf0c8 100644
--- a/src/axl_stream.c
+++ b/src/axl_stream.c
@@ -2315,37 +2315,30 @@ void        axl_stream_remove            (char * chunk, const char * value, axl_
 	} /* end if */
 		
 
-	/* locate the string */
-	iterator = 0;
-	while ((iterator + v_length) <= length) {
+	/* locate the string: iterator is the next position to read,
+	 * iterator2 the next one to write */
+	iterator  = 0;
+	iterator2 = 0;
+	while (iterator < length) {
 		/* check if the string value was found */
-		if (axl_memcmp (chunk + iterator, value, v_length)) {
-			/* string found, move content remaining (if is found) */
-			if ((length - iterator - v_length) > 0) {
-				iterator2 = 0;
-				while (iterator2 < (length - iterator - v_length)) {
-					chunk [iterator + iterator2] = chunk [iterator + iterator2 + v_length];
-					iterator2++;
-				} /* end while */
-			} /* end if */
-			
-			/* update length to the new value */
-			length -= v_length;
+		if (v_length > 0 && (iterator + v_length) <= length && axl_memcmp (chunk + iterator, value, v_length)) {
+			/* skip the string found */
+			iterator += v_length;
 
 			/* check to terminate for first ocurrence */
-			if (first) {
-				chunk [length] = 0;
-				return;
-			}
+			if (first)
+				v_length = 0;
 			continue;
 		} /* end if */
 
-		/* next position */
+		/* keep the content and go to the next position */
+		chunk [iterator2] = chunk [iterator];
 		iterator++;
+		iterator2++;
 	} /* end while */
 
 	/* nullify and terminate */
-	chunk [length] = 0;
+	chunk [iterator2] = 0;
 	return;
 }
 
-- 
2.43.0


From 7575e8e185109840b330da5222e11e73bca65dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:09 +0000
Subject: [PATCH 75/94] fix: deep iteration takes time proportional to the
 nodes visited

The children of a node were placed into the pending list by position, walking
all the siblings already placed for each of them.
---
 src/axl_doc.c | 50 ++++++++++++++++++++++++--------------------------
 1 file changed, 24 insertions(+), 26 deletions(-)

diff --git a/src/axl_doc.c b/src/axl_doc.c
index 9177b23..86ec3fd 100644
--- a/src/axl_doc.c
+++ b/src/axl_doc.c
@@ -3013,7 +3013,6 @@ axl_bool __axl_doc_iterate_common (axlDoc            * doc,
 				   axlPointer          ptr, 
 				   axlPointer          ptr2)
 {
-	int        iterator;
 	axl_bool   was_removed = axl_false;
 
 	axlNode  * node;
@@ -3068,35 +3067,34 @@ axl_bool __axl_doc_iterate_common (axlDoc            * doc,
 		/* add all its childs */
 		if (!was_removed && axl_node_have_childs (node)) {
 			
-			/* get first child */
-			nodeAux = axl_node_get_first_child (node);
-
 			/* get all items of the next level and add
 			 * them properly */
-			iterator = 0;
-			while (nodeAux != NULL) {
-
-				/* add to the pending list */
-				switch (mode) {
-				case DEEP_ITERATION:
-					/* add the element */
-					axl_list_add_at (pending, nodeAux, iterator);
-					
-					/* update the iterator */
-					iterator++;
-					break;
-
-				case WIDE_ITERATION:
-					/* add to the pending list */
+			switch (mode) {
+			case DEEP_ITERATION:
+				/* add the elements before the ones
+				 * already pending, from the last to
+				 * the first one */
+				nodeAux = axl_node_get_last_child (node);
+				while (nodeAux != NULL) {
+					axl_list_prepend (pending, nodeAux);
+
+					/* update to the previous */
+					nodeAux = axl_node_get_previous (nodeAux);
+				} /* end while */
+				break;
+
+			case WIDE_ITERATION:
+				/* add the elements after the ones
+				 * already pending */
+				nodeAux = axl_node_get_first_child (node);
+				while (nodeAux != NULL) {
 					axl_list_add (pending, nodeAux);
-					break;
-				} /* end switch */
-	
 
-				/* update to the next */
-				nodeAux = axl_node_get_next (nodeAux);
-				
-			} /* end while */
+					/* update to the next */
+					nodeAux = axl_node_get_next (nodeAux);
+				} /* end while */
+				break;
+			} /* end switch */
 		} /* end if */
 
 		
-- 
2.43.0


From 47ff2ea1b97f485d3b708d6527ced5567cc87049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:17 +0000
Subject: [PATCH 76/94] fix: axl_doc_parse_strings and axl_node_parse_strings
 work without an error reference

The error reference is documented as optional, but without it both functions
returned NULL for any content.
---
 src/axl_doc.c  | 3 ---
 src/axl_node.c | 3 ---
 2 files changed, 6 deletions(-)

diff --git a/src/axl_doc.c b/src/axl_doc.c
index 86ec3fd..ad725f9 100644
--- a/src/axl_doc.c
+++ b/src/axl_doc.c
@@ -2009,9 +2009,6 @@ axlDoc  * axl_doc_parse_strings            (axlError ** error,
 	char     * stream     = NULL;
 	char     * stream_aux = NULL;
 	
-	/* check incoming data */
-	axl_return_val_if_fail (error, NULL);
-	
 	/* open the stdargs */
 	va_start (args, error);
 	
diff --git a/src/axl_node.c b/src/axl_node.c
index 4923d63..e1cc811 100644
--- a/src/axl_node.c
+++ b/src/axl_node.c
@@ -630,9 +630,6 @@ axlNode * axl_node_parse_strings      (axlError ** error, ...)
 	char     * stream     = NULL;
 	char     * stream_aux = NULL;
 	
-	/* check incoming data */
-	axl_return_val_if_fail (error, NULL);
-	
 	/* open the stdargs */
 	va_start (args, error);
 	
-- 
2.43.0


From e81aa038a61958df7eaeb0e152c26e1536febed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:28 +0000
Subject: [PATCH 77/94] fix: the log does not read past the end of the content
 it shows

Content that has a size and no terminator was printed as a string.
---
 babel/axl_babel.c | 15 ++++++++-------
 src/axl_node.c    |  4 ++--
 src/axl_stream.c  |  8 ++++----
 3 files changed, 14 insertions(+), 13 deletions(-)

diff --git a/babel/axl_babel.c b/babel/axl_babel.c
index 05978ec..5461305 100644
--- a/babel/axl_babel.c
+++ b/babel/axl_babel.c
@@ -231,8 +231,8 @@ int axl_babel_identity_utf8 (const char * source, int source_size,
 			     int  * remain_source_index,
 			     axlPointer user_data)
 {
-	__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "received request to translate source code from iso-8859-15 to utf-8: source size=%d: %s",
-		   source_size, source);
+	__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "received request to translate source code from iso-8859-15 to utf-8: source size=%d: %.*s",
+		   source_size, source_size, source);
 
 	/* identity operation */
 	memcpy (output, source, source_size);
@@ -264,8 +264,8 @@ int axl_babel_single_to_utf8 (const char * source, int source_size,
 	unsigned char   value;
 
 	
-	__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "received request to translate source code from %s to utf-8: source size=%d on output size=%d: %s",
-		   source_encoding, source_size, output_size, source);
+	__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "received request to translate source code from %s to utf-8: source size=%d on output size=%d: %.*s",
+		   source_encoding, source_size, output_size, source_size, source);
 	
 	iterator  = 0;
 	iterator2 = 0;
@@ -308,8 +308,8 @@ int axl_babel_single_to_utf8 (const char * source, int source_size,
 
 	/* update output converted */
 	*output_converted = iterator2;
-	__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "output converted=%d: %s (iterator:%d == source_size:%d)", 
-		   iterator2, output, iterator, source_size);
+	__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "output converted=%d: %.*s (iterator:%d == source_size:%d)", 
+		   iterator2, iterator2, output, iterator, source_size);
 
 	/* check exit condition (if all output was converted) */
 	if (iterator == source_size) 
@@ -339,7 +339,8 @@ int axl_babel_utf8_check (const char  * source,
 	int           iterator;
 	unsigned char value;
 
-	__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "received notification to check content size=%d to have valid utf-8: %s", source_size, source);
+	__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "received notification to check content size=%d to have valid utf-8: %.*s",
+		   source_size, source_size, source);
 	if (axl_babel_check_utf8_content (source, source_size, &index))
 		return 1;
 
diff --git a/src/axl_node.c b/src/axl_node.c
index e1cc811..0f8716b 100644
--- a/src/axl_node.c
+++ b/src/axl_node.c
@@ -2984,8 +2984,8 @@ void      axl_node_set_cdata_content  (axlNode    * node,
 
 	if (axl_node_has_invalid_chars_cdata (content, content_size, &additional_size)) {
 		/* call to get escaped version */
-		__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "CDATA found content to scape (content size: %d): '%s'",
-			   content_size, content);
+		__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "CDATA found content to scape (content size: %d): '%.*s'",
+			   content_size, content_size, content);
 		copy          = __axl_node_content_copy_and_escape (content, content_size, additional_size, axl_true);
 		content_size += additional_size;
 		__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "CDATA content escaped        (content size: %d): '%s'",
diff --git a/src/axl_stream.c b/src/axl_stream.c
index 71cf0c8..c9aaef9 100644
--- a/src/axl_stream.c
+++ b/src/axl_stream.c
@@ -276,9 +276,9 @@ axl_bool axl_stream_prebuffer (axlStream * stream)
 	/* displace memory only if there were data already consumed */
 	if (stream->stream_index > 0 && ((stream->stream_size - stream->stream_index) > 0)) {
 
-		__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "   moving previous content at the begining of the buffer, current index: %d, size: %d, current status: %s",
+		__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "   moving previous content at the begining of the buffer, current index: %d, size: %d, current status: %.*s",
 			   stream->stream_index, stream->stream_size - stream->stream_index,
-			   stream->stream + stream->stream_index);
+			   stream->stream_size - stream->stream_index, stream->stream + stream->stream_index);
 
 		/* displace memory already read to be at the begining
 		 * of the stream */
@@ -464,8 +464,8 @@ axl_bool axl_stream_prebuffer (axlStream * stream)
 	__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "   (before read) current buffer size: %d",
 		   stream->stream_size);
 	
-	__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "   prebuffered data: stream size: %d, new content: %s",
-		   bytes_read, stream->stream + stream->stream_index);
+	__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "   prebuffered data: stream size: %d, new content: %.*s",
+		   bytes_read, stream->stream_size - stream->stream_index, stream->stream + stream->stream_index);
 
 	return axl_true;
 }
-- 
2.43.0


From d42fd09c6e8688b22a6a1c9ff07bfe13241c6b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:33:38 +0000
Subject: [PATCH 78/94] fix: a document that starts with a process instruction
 and has no xml declaration is rejected

---
 src/axl_doc.c | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/axl_doc.c b/src/axl_doc.c
index ad725f9..6b5ef96 100644
--- a/src/axl_doc.c
+++ b/src/axl_doc.c
@@ -614,17 +614,18 @@ axl_bool __axl_doc_parse_xml_header (axlStream * stream, axlDoc * doc, axlError
 		axl_stream_move (stream, 3);
 	}
 
-	/* check for initial XMLDec (production 23) */
-	if (axl_stream_inspect (stream, "<?", 2)) {
+	/* check for initial XMLDec (production 23): other process
+	 * instructions are handled after it */
+	if (axl_stream_peek (stream, "<?xml", 5) > 0 && ! axl_stream_fall_outside (stream, 6) &&
+	    (axl_stream_inspect_code (stream, ' ', 5) ||
+	     axl_stream_inspect_code (stream, '\n', 5) ||
+	     axl_stream_inspect_code (stream, '\t', 5) ||
+	     axl_stream_inspect_code (stream, '\r', 5))) {
 		
 		__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "found xml declaration");
 
-		/* check initial <?xml xml header */
-		if (! (axl_stream_inspect (stream, "xml", 3) > 0)) {
-			axl_error_new (-2, "expected initial <?xml declaration, not found.", stream, error);
-			axl_stream_free (stream);
-			return axl_false;
-		}
+		/* accept initial <?xml xml header */
+		axl_stream_accept (stream);
 		
 		/* consume spaces */
 		AXL_CONSUME_SPACES (stream);
-- 
2.43.0


From bdaca76a99538eb0b90ccc7054a3b557c8923008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:20 +0000
Subject: [PATCH 79/94] fix: xml declarations with spaces around the equal
 signs are rejected, and those with an unknown standalone value accepted

---
 src/axl_doc.c | 42 +++++++++++++++++++++++++++++++++---------
 1 file changed, 33 insertions(+), 9 deletions(-)

diff --git a/src/axl_doc.c b/src/axl_doc.c
index 6b5ef96..9a16d0a 100644
--- a/src/axl_doc.c
+++ b/src/axl_doc.c
@@ -574,6 +574,26 @@ axl_bool axl_doc_configure_encoding (axlDoc * doc, axlStream * stream, axlError
 	return result;
 }
 
+/** 
+ * @internal Accepts the name of an item of the xml declaration, and
+ * the equal sign that follows it (production 25).
+ *
+ * @return 1 if the item was found, 0 if not, and -1 if it is not
+ * followed by the equal sign.
+ */
+int __axl_doc_parse_xml_header_item (axlStream * stream, const char * name)
+{
+	if (! (axl_stream_inspect (stream, name, strlen (name)) > 0))
+		return 0;
+
+	AXL_CONSUME_SPACES (stream);
+	if (! (axl_stream_inspect (stream, "=", 1) > 0))
+		return -1;
+
+	AXL_CONSUME_SPACES (stream);
+	return 1;
+}
+
 /** 
  * @internal
  * 
@@ -598,6 +618,7 @@ axl_bool __axl_doc_parse_xml_header (axlStream * stream, axlDoc * doc, axlError
 {
 	char      * string_aux;
 	int         size;
+	int         found;
 
 	/* check if the user is defining the header many times */
 	if (doc->headerProcess) {
@@ -630,15 +651,12 @@ axl_bool __axl_doc_parse_xml_header (axlStream * stream, axlDoc * doc, axlError
 		/* consume spaces */
 		AXL_CONSUME_SPACES (stream);
 
-		if (! (axl_stream_inspect (stream, "version=", 8) > 0)) {
+		if (__axl_doc_parse_xml_header_item (stream, "version") != 1) {
 			axl_error_new (-2, "expected to find 'version=' declaration, not found.", stream, error);
 			axl_stream_free (stream);
 			return axl_false;
 		}
 
-		/* consume spaces */
-		AXL_CONSUME_SPACES (stream);
-
 		/* check for " or ' */
 		if (! (axl_stream_inspect_several (stream, 2, "\"1.0\"", 5, "'1.0'", 5) > 0)) {
 			axl_error_new (-2, "expected to find either \" or ' while procesing version number, not found.", stream, error);
@@ -650,12 +668,15 @@ axl_bool __axl_doc_parse_xml_header (axlStream * stream, axlDoc * doc, axlError
 		AXL_CONSUME_SPACES(stream);
 
 		/* now check for encoding */
-		if (axl_stream_inspect_several (stream, 2, "encoding=\"", 10, "encoding='", 10) > 0) {
+		found = __axl_doc_parse_xml_header_item (stream, "encoding");
+		if (found != 0) {
 
 			__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "found encoding declaration");
 
 			/* found encoding instruction */
-			string_aux = axl_stream_get_until (stream, NULL, NULL, axl_true, 2, "'", "\"");
+			string_aux = NULL;
+			if (found > 0 && axl_stream_inspect_several (stream, 2, "\"", 1, "'", 1) > 0)
+				string_aux = axl_stream_get_until (stream, NULL, NULL, axl_true, 2, "'", "\"");
 			if (string_aux == NULL) {
 				axl_error_new (-2, "expected encoding value, not found.", stream, error);
 				axl_stream_free (stream);
@@ -677,11 +698,14 @@ axl_bool __axl_doc_parse_xml_header (axlStream * stream, axlDoc * doc, axlError
 		AXL_CONSUME_SPACES(stream);
 
 		/* get standalone configuration */
-		if ((axl_stream_inspect_several (stream, 2, "standalone=\"", 12, "standalone='", 12) > 0)) {
+		found = __axl_doc_parse_xml_header_item (stream, "standalone");
+		if (found != 0) {
 			
 			/* found standalone instruction */
-			string_aux = axl_stream_get_until (stream, NULL, NULL, axl_true, 2, "'", "\"");
-			if (string_aux == NULL) {
+			string_aux = NULL;
+			if (found > 0 && axl_stream_inspect_several (stream, 2, "\"", 1, "'", 1) > 0)
+				string_aux = axl_stream_get_until (stream, NULL, NULL, axl_true, 2, "'", "\"");
+			if (! axl_cmp (string_aux, "yes") && ! axl_cmp (string_aux, "no")) {
 				axl_error_new (-2, "expected to receive standalone value, not found.", stream, error);
 				axl_stream_free (stream);
 				return axl_false;
-- 
2.43.0


From 1b0efd9317fb721f79e5294501305630d61fc573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:23 +0000
Subject: [PATCH 80/94] fix: process instructions without target are accepted,
 and other spaces than blanks are taken as part of the target

---
 src/axl_doc.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/axl_doc.c b/src/axl_doc.c
index 9a16d0a..a0a3386 100644
--- a/src/axl_doc.c
+++ b/src/axl_doc.c
@@ -3505,8 +3505,8 @@ axl_bool      axl_doc_consume_pi (axlDoc * doc, axlNode * node,
 		/* found a pi target initialization */
 		axl_stream_accept (stream);
 		
-		string_aux = axl_stream_get_until (stream, NULL, &matched_chunk, axl_true, 3, 
-						   " ?>", "?>", " ");
+		string_aux = axl_stream_get_until (stream, NULL, &matched_chunk, axl_true, 6, 
+						   " ?>", "?>", " ", "\n", "\t", "\r");
 		/* check error reported */
 		if (string_aux == NULL) {
 			axl_error_new (-1, "Found a error while reading the PI target name", stream, error);
@@ -3514,6 +3514,13 @@ axl_bool      axl_doc_consume_pi (axlDoc * doc, axlNode * node,
 			return axl_false;
 		}
 
+		/* check that there is a PI target */
+		if (string_aux [0] == 0) {
+			axl_error_new (-1, "Found a process instruction without target", stream, error);
+			axl_stream_free (stream);
+			return axl_false;
+		}
+
 		/* check that the reserved xml word is not used for the PI target */
 		string_aux2 = axl_strdup (string_aux);
 		if (axl_cmp (axl_stream_to_lower (string_aux2), "xml")) {
@@ -3542,7 +3549,7 @@ axl_bool      axl_doc_consume_pi (axlDoc * doc, axlNode * node,
 		}
 
 		/* seems that we have additional content to be read */
-		if (matched_chunk == 2) {
+		if (matched_chunk >= 2) {
 			/* make a local copy for the PI target name
 			 * read previously */
 			string_aux  = axl_strdup (string_aux);
-- 
2.43.0


From 048f3cf812a1bd1afd7fef019cca0c5b94c8abfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:57 +0000
Subject: [PATCH 81/94] fix: documents without xml declaration that start with
 white space are rejected with the encoding extension on

---
 babel/axl_babel.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/babel/axl_babel.c b/babel/axl_babel.c
index 5461305..0f191fc 100644
--- a/babel/axl_babel.c
+++ b/babel/axl_babel.c
@@ -212,6 +212,13 @@ axl_bool axl_babel_detect_codification (axlStream        * stream,
 		goto assume_utf8;
 	}
 
+	/* without xml header, white space can be found before the
+	 * first node */
+	if (axl_stream_inspect_code (stream, ' ', 0) || axl_stream_inspect_code (stream, '\n', 0) ||
+	    axl_stream_inspect_code (stream, '\t', 0) || axl_stream_inspect_code (stream, '\r', 0)) {
+		goto assume_utf8;
+	}
+
 	/* unable to detect the encoding format */
 	__axl_log (LOG_DOMAIN, AXL_LEVEL_CRITICAL, 
 		   "unable to detect encoding format, failed to detect encoding format");
-- 
2.43.0


From b5f9094d4c1595d7e82e30130eab8d4eba482743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:10:19 +0000
Subject: [PATCH 82/94] fix: a file read through descriptor 0 is never closed,
 and reading it never ends with the encoding extension on

---
 src/axl_stream.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/axl_stream.c b/src/axl_stream.c
index c9aaef9..0510d34 100644
--- a/src/axl_stream.c
+++ b/src/axl_stream.c
@@ -399,7 +399,7 @@ axl_bool axl_stream_prebuffer (axlStream * stream)
 					stream->read_failed = axl_true;
 				if (bytes_read > 0)
 					stream->decode_temp_last += bytes_read;
-				else if (stream->fd > 0) {
+				else if (stream->fd != -1) {
 					__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "end of file reached (or failed to read it)");
 					close (stream->fd);
 					stream->fd = -1;
@@ -591,6 +591,7 @@ axlStream * axl_stream_new (const char * stream_source, int stream_size,
 		stream               = axl_new (axlStream, 1);
 		stream->buffer_size  = stream_size;
 		stream->type         = STREAM_MEM;
+		stream->fd           = -1;
 
 		/* copy source */
 		stream->stream       = axl_new (char, stream_size + 1);
@@ -1870,7 +1871,7 @@ void axl_stream_free (axlStream * stream)
 	if (stream->last_get_following != NULL)
 		axl_free (stream->last_get_following);
 
-	if (stream->fd > 0) {
+	if (stream->fd != -1) {
 		/* close file descriptor if defined */
 		close (stream->fd);
 	}
-- 
2.43.0


From a6c975dafaa427ed0792bc90bbfc07a4a173af18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:16 +0000
Subject: [PATCH 83/94] fix: axl.parse reads beyond the string received when
 the size is bigger than it

---
 py-axl/py_axl.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/py-axl/py_axl.c b/py-axl/py_axl.c
index 19e6ae5..a783eae 100644
--- a/py-axl/py_axl.c
+++ b/py-axl/py_axl.c
@@ -54,6 +54,10 @@ static PyObject * py_axl_doc_parse (PyObject * self, PyObject * args)
 	/* parse and check result */
 	if (! PyArg_ParseTuple (args, "s|i", &document, &size))
 		return NULL;
+
+	/* do not read beyond the string received */
+	if (size > (int) strlen (document))
+		size = -1;
 	
 	/* parse document */
 	_doc   = axl_doc_parse (document, size, &_error);
-- 
2.43.0


From 63d0fa8d9a007c7b49c64a07262775c5291ca978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:16 +0000
Subject: [PATCH 84/94] fix: getting a node from an axl.Node that is not inside
 a document dereferences a null reference

---
 py-axl/py_axl_node.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py-axl/py_axl_node.c b/py-axl/py_axl_node.c
index 6df8b7f..976a9f4 100644
--- a/py-axl/py_axl_node.c
+++ b/py-axl/py_axl_node.c
@@ -715,7 +715,7 @@ PyObject   * py_axl_node_create   (axlNode  * node,
 	} /* end if */
 
 	__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "Created axl.Node reference (%p, ref count: %d): %s (doc: %p, refcount: %d)", 
-		   obj, obj->ob_refcnt, axl_node_get_name (obj->node), obj->py_doc, obj->py_doc->ob_refcnt);
+		   obj, obj->ob_refcnt, axl_node_get_name (obj->node), obj->py_doc, obj->py_doc ? obj->py_doc->ob_refcnt : 0);
 
 	return __PY_OBJECT (obj);
 }
-- 
2.43.0


From d20a354718f3d2edbbee63325302df3146dfb4c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:16 +0000
Subject: [PATCH 85/94] fix: an axl.Node placed inside a tree that has no
 document is finished while the tree still holds it

---
 py-axl/py_axl_node.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/py-axl/py_axl_node.c b/py-axl/py_axl_node.c
index 976a9f4..62321b9 100644
--- a/py-axl/py_axl_node.c
+++ b/py-axl/py_axl_node.c
@@ -456,7 +456,7 @@ static PyObject * py_axl_node_set_child (PyObject * _self, PyObject * args)
 	/* and make the node to not release its internal node when it
 	 * is deallocated to avoid the node finishing the reference
 	 * that was finished by the document holding */
-	if (axl_node_get_doc (py_axl_node_get (_self)) || self->finish_on_gc)
+	if (axl_node_get_parent (py_axl_node_get (child)))
 		((PyAxlNode *)(child))->finish_on_gc = axl_false;
 	
 	/* return ok */
@@ -486,7 +486,7 @@ static PyObject * py_axl_node_set_child_after (PyObject * _self, PyObject * args
 	/* and make the node to not release its internal node when it
 	 * is deallocated to avoid the node finishing the reference
 	 * that was finished by the document holding */
-	if (axl_node_get_doc (py_axl_node_get (_self)) || self->finish_on_gc)
+	if (axl_node_get_parent (py_axl_node_get (child)))
 		((PyAxlNode *)(child))->finish_on_gc = axl_false;
 	
 	/* return ok */
@@ -546,7 +546,7 @@ static PyObject * py_axl_node_replace (PyObject * _self, PyObject * args)
 	/* and make the node to not release its internal node when it
 	 * is deallocated to avoid the node finishing the reference
 	 * that was finished by the document holding */
-	if (axl_node_get_doc (new_ref->node)) 
+	if (axl_node_get_doc (new_ref->node) || axl_node_get_parent (new_ref->node)) 
 		new_ref->finish_on_gc = axl_false;
 
 	Py_INCREF (Py_None);
-- 
2.43.0


From 84a65b60acbe0d3d0b36a35bd4baccea408acf2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:16 +0000
Subject: [PATCH 86/94] fix: setting as root of an axl.Doc something that is
 not an axl.Node writes over it

---
 py-axl/py_axl_doc.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/py-axl/py_axl_doc.c b/py-axl/py_axl_doc.c
index f9868d6..55bcf16 100644
--- a/py-axl/py_axl_doc.c
+++ b/py-axl/py_axl_doc.c
@@ -159,8 +159,11 @@ int py_axl_doc_set_attr (PyObject *o, PyObject *attr_name, PyObject *v)
 		return -1;
 
 	if (axl_cmp (attr, "root")) {
-		if (! PyArg_Parse (v, "O", &py_node))
+		if (v == NULL || ! py_axl_node_check (v)) {
+			PyErr_SetString (PyExc_TypeError, "Expected to receive an axl.Node object but received something different");
 			return -1;
+		}
+		py_node = v;
 
 		/* configure the node */
 		axl_doc_set_root (self->doc, py_axl_node_get (py_node));
-- 
2.43.0


From c69f8efea8ec18ae1e154230856cf15430f887bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:16 +0000
Subject: [PATCH 87/94] fix: axl.Node, axl.Doc and axl.AttrCursor references
 are used after the document or the tree they come from was finished

---
 py-axl/py_axl_attr_cursor.c | 19 +++++++-
 py-axl/py_axl_attr_cursor.h |  3 +-
 py-axl/py_axl_doc.c         |  3 ++
 py-axl/py_axl_node.c        | 97 +++++++++++++++++++++++++++++++------
 py-axl/py_axl_node.h        |  2 +
 5 files changed, 107 insertions(+), 17 deletions(-)

diff --git a/py-axl/py_axl_attr_cursor.c b/py-axl/py_axl_attr_cursor.c
index ecca172..549769c 100644
--- a/py-axl/py_axl_attr_cursor.c
+++ b/py-axl/py_axl_attr_cursor.c
@@ -47,6 +47,9 @@ struct _PyAxlAttrCursor {
 	/* pointer to the axl attr_cursor */
 	axlAttrCursor   * attr_cursor;
 	axl_bool          finish_on_gc;
+
+	/* the node iterated */
+	PyObject        * py_node;
 };
 
 static int py_axl_attr_cursor_init_type (PyAxlAttrCursor *self, PyObject *args, PyObject *kwds)
@@ -74,6 +77,8 @@ static PyObject * py_axl_attr_cursor_new (PyTypeObject *type, PyObject *args, Py
 	if (PyTuple_Size (args) == 1 && py_axl_node_get (py_node)) {
 		self->attr_cursor  = axl_node_attr_cursor_new (py_axl_node_get (py_node));
 		self->finish_on_gc = axl_true;
+		Py_INCREF (py_node);
+		self->py_node      = py_node;
 	}
 
 	return (PyObject *)self;
@@ -93,6 +98,10 @@ static void py_axl_attr_cursor_dealloc (PyAxlAttrCursor* self)
 		axl_node_attr_cursor_free (self->attr_cursor);
 	self->attr_cursor = NULL;
 
+	/* release the node */
+	Py_XDECREF (self->py_node);
+	self->py_node = NULL;
+
 	/* free the attr_cursor it self */
 	self->ob_type->tp_free ((PyObject*)self);
 
@@ -254,9 +263,13 @@ axl_bool             py_axl_attr_cursor_check    (PyObject          * obj)
  *
  * @param finish_on_gc Signal to finish or not the internal copy once
  * the variable gets garbage collected.
+ *
+ * @param py_node The axl.Node the cursor iterates, which is kept while
+ * the cursor is used.
  */
 PyObject   * py_axl_attr_cursor_create   (axlAttrCursor  * attr_cursor, 
-					  axl_bool   finish_on_gc)
+					  axl_bool   finish_on_gc,
+					  PyObject * py_node)
 {
 	/* return a new instance */
 	PyAxlAttrCursor * obj = (PyAxlAttrCursor *) PyObject_CallObject ((PyObject *) &PyAxlAttrCursorType, NULL); 
@@ -272,6 +285,10 @@ PyObject   * py_axl_attr_cursor_create   (axlAttrCursor  * attr_cursor,
 		obj->attr_cursor = attr_cursor;
 	obj->finish_on_gc = finish_on_gc;
 
+	/* keep the node while the cursor is used */
+	Py_XINCREF (py_node);
+	obj->py_node = py_node;
+
 	return __PY_OBJECT (obj);
 }
 
diff --git a/py-axl/py_axl_attr_cursor.h b/py-axl/py_axl_attr_cursor.h
index 19d20ed..c870295 100644
--- a/py-axl/py_axl_attr_cursor.h
+++ b/py-axl/py_axl_attr_cursor.h
@@ -50,7 +50,8 @@ typedef struct _PyAxlAttrCursor PyAxlAttrCursor;
 axl_bool           py_axl_attr_cursor_check    (PyObject * obj);
 
 PyObject         * py_axl_attr_cursor_create   (axlAttrCursor  * attr_cursor, 
-						axl_bool   finish_on_gc);
+						axl_bool   finish_on_gc,
+						PyObject * py_node);
 
 axlAttrCursor    * py_axl_attr_cursor_get      (PyObject * obj);
 
diff --git a/py-axl/py_axl_doc.c b/py-axl/py_axl_doc.c
index 55bcf16..1e81eba 100644
--- a/py-axl/py_axl_doc.c
+++ b/py-axl/py_axl_doc.c
@@ -171,6 +171,9 @@ int py_axl_doc_set_attr (PyObject *o, PyObject *attr_name, PyObject *v)
 		/* set the node to not dealloc internal node */
 		py_axl_node_set_dealloc (py_node, axl_false);
 
+		/* and to keep the document while it is used */
+		py_axl_node_set_owner (py_node, o);
+
 		return 0;
 	}
 
diff --git a/py-axl/py_axl_node.c b/py-axl/py_axl_node.c
index 62321b9..650c87e 100644
--- a/py-axl/py_axl_node.c
+++ b/py-axl/py_axl_node.c
@@ -48,8 +48,13 @@ struct _PyAxlNode {
 	axlNode   * node;
 	axl_bool    finish_on_gc;
 
-	/* pointer to the parent document */
+	/* owner of the node: the document or the node on top of a tree
+	 * without a document */
 	PyObject  * py_doc;
+
+	/* previous owners: a node placed inside other document still
+	 * uses memory from the document that created it */
+	PyObject  * py_former;
 };
 
 static int py_axl_node_init_type (PyAxlNode *self, PyObject *args, PyObject *kwds)
@@ -100,13 +105,15 @@ static void py_axl_node_dealloc (PyAxlNode* self)
 		axl_node_free (self->node);
 	self->node = NULL;
 
-	/* decrease reference to the document if defined */
+	/* decrease reference to the owner if defined */
 	if (self->py_doc) {
 		__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "  Finishing axl.Doc reference %p (%d)",
 			   self->py_doc, self->py_doc->ob_refcnt);
 		Py_DECREF (self->py_doc);
 		self->py_doc = NULL;
 	}
+	Py_XDECREF (self->py_former);
+	self->py_former = NULL;
 
 	/* free the node it self */
 	self->ob_type->tp_free ((PyObject*)self);
@@ -114,6 +121,48 @@ static void py_axl_node_dealloc (PyAxlNode* self)
 	return;
 }
 
+/** 
+ * @internal Returns the python object that must be kept while nodes
+ * found from the provided node are used: the owner of the node or, if
+ * it has no one, the node itself.
+ */
+static PyObject * py_axl_node_owner (PyAxlNode * self)
+{
+	return self->py_doc ? self->py_doc : __PY_OBJECT (self);
+}
+
+/** 
+ * @internal Configures the python object (axl.Doc or axl.Node) that
+ * must be kept while the provided node is used.
+ */
+void         py_axl_node_set_owner (PyObject * obj, PyObject * owner)
+{
+	PyAxlNode * node = (PyAxlNode *) obj;
+	PyObject  * iter = owner;
+
+	if (node->py_doc == owner)
+		return;
+
+	/* do not make a node to be the owner of its owner */
+	while (py_axl_node_check (iter)) {
+		if (iter == obj)
+			return;
+		iter = ((PyAxlNode *) iter)->py_doc;
+	} /* end while */
+
+	/* keep the previous owner */
+	if (node->py_doc) {
+		if (node->py_former == NULL)
+			node->py_former = PyList_New (0);
+		PyList_Append (node->py_former, node->py_doc);
+		Py_DECREF (node->py_doc);
+	} /* end if */
+
+	Py_INCREF (owner);
+	node->py_doc = owner;
+	return;
+}
+
 /** 
  * @brief This function implements the generic attribute getting that
  * allows to perform complex member resolution (not merely direct
@@ -124,6 +173,7 @@ PyObject * py_axl_node_get_attr (PyObject *o, PyObject *attr_name) {
 	PyObject        * result;
 	PyAxlNode       * self = (PyAxlNode *) o; 
 	PyObject        * tuple;
+	PyObject        * owner;
 	int               size = 0;
 
 	/* now implement other attributes */
@@ -143,7 +193,7 @@ PyObject * py_axl_node_get_attr (PyObject *o, PyObject *attr_name) {
 			return Py_None;
 		} 
 			
-		return py_axl_node_create (axl_node_get_first_child (self->node), axl_false, self->py_doc);
+		return py_axl_node_create (axl_node_get_first_child (self->node), axl_false, py_axl_node_owner (self));
 	} else if (axl_cmp (attr, "next")) {
 		/* next */
 		if (axl_node_get_next (self->node) == NULL) {
@@ -151,7 +201,7 @@ PyObject * py_axl_node_get_attr (PyObject *o, PyObject *attr_name) {
 			return Py_None;
 		} 
 			
-		return py_axl_node_create (axl_node_get_next (self->node), axl_false, self->py_doc);
+		return py_axl_node_create (axl_node_get_next (self->node), axl_false, py_axl_node_owner (self));
 	} else if (axl_cmp (attr, "previous")) {
 		/* previous */
 		if (axl_node_get_previous (self->node) == NULL) {
@@ -159,7 +209,7 @@ PyObject * py_axl_node_get_attr (PyObject *o, PyObject *attr_name) {
 			return Py_None;
 		} 
 			
-		return py_axl_node_create (axl_node_get_previous (self->node), axl_false, self->py_doc);
+		return py_axl_node_create (axl_node_get_previous (self->node), axl_false, py_axl_node_owner (self));
 	} else if (axl_cmp (attr, "parent")) {
 		/* parent */
 		if (axl_node_get_parent (self->node) == NULL) {
@@ -167,7 +217,7 @@ PyObject * py_axl_node_get_attr (PyObject *o, PyObject *attr_name) {
 			return Py_None;
 		} 
 			
-		return py_axl_node_create (axl_node_get_parent (self->node), axl_false, self->py_doc);
+		return py_axl_node_create (axl_node_get_parent (self->node), axl_false, py_axl_node_owner (self));
 
 	} else if (axl_cmp (attr, "content")) {
 		/* return a tuple with content and size */
@@ -195,6 +245,16 @@ PyObject * py_axl_node_get_attr (PyObject *o, PyObject *attr_name) {
 		} /* end if */
 
 		/* ok, return document holding the node */
+		/* report the python document that owns the node, so it is
+		 * not finished while the reference returned is used */
+		owner = self->py_doc;
+		while (py_axl_node_check (owner))
+			owner = ((PyAxlNode *) owner)->py_doc;
+		if (py_axl_doc_get (owner) == axl_node_get_doc (self->node)) {
+			Py_INCREF (owner);
+			return owner;
+		} /* end if */
+
 		return py_axl_doc_create (axl_node_get_doc (self->node), axl_false);
 	}
 
@@ -250,7 +310,7 @@ static PyObject * py_axl_node_next_called (PyObject * _self, PyObject * args)
 	} /* end if */
 	
 	/* create node result */
-	return py_axl_node_create (node, axl_false, self->py_doc);
+	return py_axl_node_create (node, axl_false, py_axl_node_owner (self));
 }
 
 static PyObject * py_axl_node_previous_called (PyObject * _self, PyObject * args)
@@ -271,7 +331,7 @@ static PyObject * py_axl_node_previous_called (PyObject * _self, PyObject * args
 	} /* end if */
 	
 	/* create node result */
-	return py_axl_node_create (node, axl_false, self->py_doc);
+	return py_axl_node_create (node, axl_false, py_axl_node_owner (self));
 }
 
 static PyObject * py_axl_node_child_called (PyObject * _self, PyObject * args)
@@ -292,7 +352,7 @@ static PyObject * py_axl_node_child_called (PyObject * _self, PyObject * args)
 	} /* end if */
 	
 	/* create node result */
-	return py_axl_node_create (node, axl_false, self->py_doc);
+	return py_axl_node_create (node, axl_false, py_axl_node_owner (self));
 }
 
 static PyObject * py_axl_node_find_called (PyObject * _self, PyObject * args)
@@ -313,7 +373,7 @@ static PyObject * py_axl_node_find_called (PyObject * _self, PyObject * args)
 	} /* end if */
 	
 	/* create node result */
-	return py_axl_node_create (node, axl_false, self->py_doc);
+	return py_axl_node_create (node, axl_false, py_axl_node_owner (self));
 }
 
 static PyObject * py_axl_node_nth_child (PyObject * _self, PyObject * args)
@@ -334,7 +394,7 @@ static PyObject * py_axl_node_nth_child (PyObject * _self, PyObject * args)
 	} /* end if */
 	
 	/* create node result */
-	return py_axl_node_create (node, axl_false, self->py_doc);
+	return py_axl_node_create (node, axl_false, py_axl_node_owner (self));
 }
 
 static PyObject * py_axl_node_has_attr (PyObject * _self, PyObject * args)
@@ -456,8 +516,10 @@ static PyObject * py_axl_node_set_child (PyObject * _self, PyObject * args)
 	/* and make the node to not release its internal node when it
 	 * is deallocated to avoid the node finishing the reference
 	 * that was finished by the document holding */
-	if (axl_node_get_parent (py_axl_node_get (child)))
+	if (axl_node_get_parent (py_axl_node_get (child))) {
 		((PyAxlNode *)(child))->finish_on_gc = axl_false;
+		py_axl_node_set_owner (child, py_axl_node_owner (self));
+	} /* end if */
 	
 	/* return ok */
 	Py_INCREF (Py_None);
@@ -486,8 +548,10 @@ static PyObject * py_axl_node_set_child_after (PyObject * _self, PyObject * args
 	/* and make the node to not release its internal node when it
 	 * is deallocated to avoid the node finishing the reference
 	 * that was finished by the document holding */
-	if (axl_node_get_parent (py_axl_node_get (child)))
+	if (axl_node_get_parent (py_axl_node_get (child))) {
 		((PyAxlNode *)(child))->finish_on_gc = axl_false;
+		py_axl_node_set_owner (child, py_axl_node_owner (self));
+	} /* end if */
 	
 	/* return ok */
 	Py_INCREF (Py_None);
@@ -499,7 +563,7 @@ static PyObject * py_axl_node_attr_cursor_new (PyObject * _self, PyObject * args
 	PyAxlNode  * self      = (PyAxlNode *) _self;
 	
 	/* create node cursor attr */
-	return py_axl_attr_cursor_create (axl_node_attr_cursor_new (self->node), axl_true);
+	return py_axl_attr_cursor_create (axl_node_attr_cursor_new (self->node), axl_true, _self);
 }
 
 static PyObject * py_axl_node_remove (PyObject * _self, PyObject * args)
@@ -546,8 +610,11 @@ static PyObject * py_axl_node_replace (PyObject * _self, PyObject * args)
 	/* and make the node to not release its internal node when it
 	 * is deallocated to avoid the node finishing the reference
 	 * that was finished by the document holding */
-	if (axl_node_get_doc (new_ref->node) || axl_node_get_parent (new_ref->node)) 
+	if (axl_node_get_doc (new_ref->node) || axl_node_get_parent (new_ref->node)) {
 		new_ref->finish_on_gc = axl_false;
+		if (self->py_doc)
+			py_axl_node_set_owner (__PY_OBJECT (new_ref), self->py_doc);
+	} /* end if */
 
 	Py_INCREF (Py_None);
 	return Py_None;
diff --git a/py-axl/py_axl_node.h b/py-axl/py_axl_node.h
index 64f0ed8..9778583 100644
--- a/py-axl/py_axl_node.h
+++ b/py-axl/py_axl_node.h
@@ -55,6 +55,8 @@ PyObject   * py_axl_node_create   (axlNode  * node,
 
 axlNode    * py_axl_node_get      (PyObject * obj);
 
+void         py_axl_node_set_owner (PyObject * obj, PyObject * owner);
+
 void         py_axl_node_set_dealloc (PyObject * obj, axl_bool dealloc);
 
 void         init_axl_node        (PyObject * module);
-- 
2.43.0


From e21fd0038891d6f1ac8ef56dfc2e68d9cd87f976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:20 +0000
Subject: [PATCH 88/94] fix: the content reported by the trans attribute of
 axl.Node is never released

---
 py-axl/py_axl_node.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/py-axl/py_axl_node.c b/py-axl/py_axl_node.c
index 650c87e..028fef8 100644
--- a/py-axl/py_axl_node.c
+++ b/py-axl/py_axl_node.c
@@ -174,6 +174,7 @@ PyObject * py_axl_node_get_attr (PyObject *o, PyObject *attr_name) {
 	PyAxlNode       * self = (PyAxlNode *) o; 
 	PyObject        * tuple;
 	PyObject        * owner;
+	char            * trans;
 	int               size = 0;
 
 	/* now implement other attributes */
@@ -231,7 +232,9 @@ PyObject * py_axl_node_get_attr (PyObject *o, PyObject *attr_name) {
 		/* return a tuple with content and size */
 		tuple = PyTuple_New (2);
 		
-		PyTuple_SetItem (tuple, 0, Py_BuildValue ("z", axl_node_get_content_trans (self->node, &size)));
+		trans = axl_node_get_content_trans (self->node, &size);
+		PyTuple_SetItem (tuple, 0, Py_BuildValue ("z", trans));
+		axl_free (trans);
 		PyTuple_SetItem (tuple, 1, Py_BuildValue ("i", size));
 			
 		return tuple;
-- 
2.43.0


From c844b762f4a2f7c3c99ecfc3658714b254d5a18b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:55 +0000
Subject: [PATCH 89/94] fix: axl_node_dump_to_file adds line feeds to the
 content, as the indented dump

---
 src/axl_node.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/axl_node.c b/src/axl_node.c
index 0f8716b..eb5e094 100644
--- a/src/axl_node.c
+++ b/src/axl_node.c
@@ -4368,7 +4368,7 @@ axl_bool      axl_node_dump_to_file            (axlNode  * node,
 	int    written;
 
 	/* use common implementation for all functions */
-	if (!  __axl_node_dump_common (node, &content, &size, axl_true, 0, 0))
+	if (!  __axl_node_dump_common (node, &content, &size, axl_false, 0, 0))
 		return axl_false;
 
 	/* open the file and check */
-- 
2.43.0


From 03614e81ebcf67118d5337d2100e7f61c987ba67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:14 +0000
Subject: [PATCH 90/94] fix: axl_doc_get_list returns only the first node of a
 path, and none for the '*' documented

---
 src/axl_doc.c | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/axl_doc.c b/src/axl_doc.c
index a0a3386..c75ff69 100644
--- a/src/axl_doc.c
+++ b/src/axl_doc.c
@@ -2381,6 +2381,7 @@ axlList * axl_doc_get_list                  (axlDoc * doc, const char * path_to)
 {
 	axlList  * nodes;
 	axlNode  * node     = NULL;
+	axlNode  * child;
 	int        iterator = 0;
 	char    ** paths    = 0;
 	
@@ -2427,6 +2428,30 @@ axlList * axl_doc_get_list                  (axlDoc * doc, const char * path_to)
 			return NULL;
 		}
 
+		/* check if this is the last path: all the nodes that
+		 * match are selected */
+		if (paths[iterator + 1] == NULL || strlen (paths[iterator + 1]) == 0) {
+			child = axl_node_get_first_child (node);
+			while (child != NULL) {
+				/* add the node if matches */
+				if (axl_cmp (paths[iterator], "*") || NODE_CMP_NAME (child, paths[iterator]))
+					axl_list_add (nodes, child);
+
+				/* get the next one */
+				child = axl_node_get_next (child);
+			} /* end while */
+
+			axl_stream_freev (paths);
+
+			/* check that something was found */
+			if (axl_list_length (nodes) == 0) {
+				__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "no node was found at %s.", path_to);
+				axl_list_free (nodes);
+				return NULL;
+			}
+			return nodes;
+		}
+
 		/* get a reference to the node searched */
 		node = axl_node_get_child_called (node, paths[iterator]);
 		if (node == NULL) {
-- 
2.43.0


From 4a8eca975d147d0b661f6ace2640396a8e21f30a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:48 +0000
Subject: [PATCH 91/94] fix: reject attribute lists giving an ID a default
 value

---
 src/axl_dtd.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/axl_dtd.c b/src/axl_dtd.c
index f562ea7..8bcedc0 100644
--- a/src/axl_dtd.c
+++ b/src/axl_dtd.c
@@ -1728,6 +1728,14 @@ axl_bool __axl_dtd_parse_attlist (axlDtd * dtd, axlStream * stream, axlError **
 		/* check if default value was found */
 		if (string_aux != NULL) {
 
+			/* no value can be provided for an ID */
+			if (decl->type == TOKENIZED_TYPE_ID) {
+				axl_error_new (-1, "Found ATTLIST declaration, with ID, that have a default value configured (only #IMPLIED or #REQUIRED are allowed)",
+					       stream, error);
+				axl_stream_free (stream);
+				return axl_false;
+			} /* end if */
+
 			/* found default value, check if we have an
 			 * enumeration type, enforcing that the value
 			 * defined to be inside the enumeration */
-- 
2.43.0


From 59308e808406bad880aa58fb090e565163b1e092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:44 +0000
Subject: [PATCH 92/94] fix: content already consumed is read again after a
 decode operation found no room for its last character

---
 src/axl_stream.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/axl_stream.c b/src/axl_stream.c
index 0510d34..0ec47f7 100644
--- a/src/axl_stream.c
+++ b/src/axl_stream.c
@@ -273,6 +273,11 @@ axl_bool axl_stream_prebuffer (axlStream * stream)
 
 	__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "prebuffering the stream..");
 
+	/* all content available was already consumed: there is a whole
+	 * buffer to decode into, so it is not required to expand it */
+	if (stream->stream_index > 0 && stream->stream_index >= stream->stream_size)
+		stream->needs_expansion = axl_false;
+
 	/* displace memory only if there were data already consumed */
 	if (stream->stream_index > 0 && ((stream->stream_size - stream->stream_index) > 0)) {
 
-- 
2.43.0


From 4ca6e098884236921d706fc64805e8e074b3b903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:13 +0000
Subject: [PATCH 93/94] fix: a closing tag with several white spaces before its
 > is rejected

---
 src/axl_doc.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/axl_doc.c b/src/axl_doc.c
index c75ff69..ef85fc4 100644
--- a/src/axl_doc.c
+++ b/src/axl_doc.c
@@ -1129,10 +1129,11 @@ axl_bool __axl_doc_parse_close_node (axlStream * stream, axlDoc * doc, axlNode *
 	}
 
 	/* check for optional white space inside the trailing result */
-	if (result_size > 0 && axl_stream_is_white_space (string + result_size - 1)) {
+	while (result_size > 0 && axl_stream_is_white_space (string + result_size - 1)) {
 		/* nullify to remove the optional white spaces */
-		string [result_size - 1] = 0;
-	} /* end if */
+		result_size--;
+		string [result_size] = 0;
+	} /* end while */
 
 	/* get current parent node */
 	node   = axl_stack_peek (doc->parentNode);
-- 
2.43.0


From adf17f2402cb45ec87d3951392d01f9f5c92fe7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:52 +0000
Subject: [PATCH 94/94] fix: content holding zero bytes, set by size, is cut by
 copies (whose dump reads past it) and comparisons

---
 src/axl_node.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/axl_node.c b/src/axl_node.c
index eb5e094..a1480a5 100644
--- a/src/axl_node.c
+++ b/src/axl_node.c
@@ -3095,7 +3095,7 @@ char    * axl_node_get_content_copy (axlNode * node, int * content_size)
 		content = axl_node_get_content (node, &_content_size);
 
 	/* check result */
-	if (content == NULL || strlen (content) == 0) {
+	if (content == NULL || (content_size ? *content_size : _content_size) == 0) {
 		return axl_strdup ("");
 	}
 
@@ -6486,8 +6486,9 @@ axlItem * axl_item_copy (axlItem * item, axlNode * set_parent)
 	case ITEM_COMMENT:
 		/* copy content */
 		content               = axl_new (axlNodeContent, 1);
-		content->content      = axl_strdup (((axlNodeContent * ) item->data)->content);
 		content->content_size = ((axlNodeContent * ) item->data)->content_size;
+		content->content      = axl_new (char, content->content_size + 1);
+		memcpy (content->content, ((axlNodeContent * ) item->data)->content, content->content_size);
 
 		/* copy content */
 		copy->data = content;
@@ -6765,7 +6766,7 @@ axl_bool          axl_item_are_equal_full      (axlItem    * item,
 			}
 			
 			/* now check content value */
-			return axl_cmp (content->content, content2->content);
+			return memcmp (content->content, content2->content, content->content_size) == 0;
 		}else {
 			/* duplicate the content */
 			trim = axl_strdup (content->content);
-- 
2.43.0

