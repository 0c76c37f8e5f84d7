From 0b425d1a6607348831bc354e9c2b9a0bbd06ea9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:30 +0000
Subject: [PATCH 01/74] fix: reject 0x and 0b prefixes inside numeric literals

strtoll understands C prefixes itself, so $0x12, 0x12h and %0b11 were
accepted although x and b are not digits of the literal.
---
 parser.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser.cpp b/parser.cpp
index ea53f75..f99bcb8 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -659,6 +659,10 @@ static bool conv_generic(const char *str, const char *end, int *output_num,
 	char *ep;
 	long long value = _strtoi64(str, &ep, base);
 
+	// strtoll also accepts a "0x" or "0b" prefix, which is no part of a literal here
+	if (ep > str + 1 && !(base == 16 ? isxdigit((unsigned char) str[1]) : isdigit((unsigned char) str[1])))
+		ep = (char *) str + 1;
+
 	if (ep < end) {
 		char *number = strndup(str, end - str);
 		SetLastSPASMError(error_code, *ep, number);
-- 
2.43.0


From cb7ec5af1e73c2d14d213d9122d8a73b8386aa8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:06 +0000
Subject: [PATCH 02/74] fix: rst with a forward reference

The second pass mapped the operand to its opcode before handing it to
write_arg, which maps it itself, so every forward-referenced rst operand
was rejected.
---
 pass_two.cpp | 24 +++---------------------
 1 file changed, 3 insertions(+), 21 deletions(-)

diff --git a/pass_two.cpp b/pass_two.cpp
index 7b94102..dd24297 100644
--- a/pass_two.cpp
+++ b/pass_two.cpp
@@ -162,27 +162,9 @@ void run_second_pass () {
 			//if that was successful, then write it to the file
 			if (mode & MODE_LIST)
 				listing_offset = expr_list->listing_offset;
-			if (expr_list->type == ARG_RST) {
-				switch (value) {
-					case 0x00:
-					case 0x08:
-					case 0x10:
-					case 0x18:
-					case 0x20:
-					case 0x28:
-					case 0x30:
-					case 0x38:
-						write_arg(value + 0xC7, expr_list->type, expr_list->inst_size, expr_list->or_value);
-						break;
-					default:
-						SetLastSPASMError(SPASM_ERR_INVALID_RST_OPERANDS);
-						break;
-				}
-			} else {
-				out_ptr = expr_list->out_ptr;
-				listing_on = expr_list->listing_on;
-				write_arg (value, expr_list->type, expr_list->inst_size, expr_list->or_value);
-			}
+			out_ptr = expr_list->out_ptr;
+			listing_on = expr_list->listing_on;
+			write_arg (value, expr_list->type, expr_list->inst_size, expr_list->or_value);
 		}
 		free (expr_list->expr);
 		old_expr = expr_list;
-- 
2.43.0


From dce2554efc4d272028a66a04983c17076369f722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:15 +0000
Subject: [PATCH 03/74] fix: warnings are not fatal and every diagnostic sets
 the exit status

---
 errors.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/errors.cpp b/errors.cpp
index a67300a..4f2aec2 100644
--- a/errors.cpp
+++ b/errors.cpp
@@ -30,12 +30,16 @@ int g_nErrorSession = 0;
 
 static void PrintSPASMError(const LPERRORINSTANCE lpError)
 {
+	assert(lpError != NULL);
+	EXIT_STATUS severity = lpError->fIsWarning ? EXIT_WARNINGS : EXIT_ERRORS;
+	if (exit_code < severity)
+		exit_code = severity;
+
 	if (mode & MODE_CODE_COUNTER)
 	{
 		return;
 	}
 
-	assert(lpError != NULL);
 	if ((lpError->dwErrorCode != SPASM_ERR_SUCCESS) || (lpError->lpszErrorText != NULL))
 	{
 		WORD orig_attributes = save_console_attributes();
@@ -123,7 +127,7 @@ bool IsSPASMErrorSessionFatal(int nSession)
 	{
 		LPERRORINSTANCE lpError = (LPERRORINSTANCE) pList->data;
 		DWORD dwError = lpError->dwErrorCode;
-		if (IsSPASMErrorFatal(dwError))
+		if (!lpError->fIsWarning && IsSPASMErrorFatal(dwError))
 		{
 			fIsFatal = true;
 			break;
@@ -250,7 +254,7 @@ int CleanupSPASMErrorSession(int nSession)
 		{
 			pPrev->next = pList->next;
 		}
-		if(IsSPASMErrorFatal(lpErr->dwErrorCode)) {
+		if(!lpErr->fIsWarning && IsSPASMErrorFatal(lpErr->dwErrorCode)) {
 			fatalErrorCount++;
 		}
 		FreeErrorInstance(lpErr);
-- 
2.43.0


From 3ddc01ecbd1203c3bebc0c1332a711656e9758d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:25 +0000
Subject: [PATCH 04/74] fix: keep character literals and hex digits out of
 symbol expansion

---
 utils.cpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/utils.cpp b/utils.cpp
index 60c5e22..ab46e02 100644
--- a/utils.cpp
+++ b/utils.cpp
@@ -814,6 +814,24 @@ static void expand_expr_full (const char *expr, expand_buf *new_expr, int depth,
 			eb_append (new_expr, block_start, expr - block_start);
 		}
 
+		//handle character literals and hex digits, which aren't names
+		if (*expr == '\'' || *expr == '$') {
+			block_start = expr++;
+			if (*block_start == '$') {
+				expr = skip_to_name_end (expr);
+			} else {
+				if (*expr == '\\')
+					expr++;
+				if (*expr)
+					expr++;
+				if (*expr == '\'')
+					expr++;
+			}
+
+			eb_append (new_expr, block_start, expr - block_start);
+			continue;
+		}
+
 		//get the next name and look it up
 		name = skip_to_name_end (expr);
 		name_len = name - expr;
-- 
2.43.0


From 5653a02b553f5ad3920926e249fe405c6ff30fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:25 +0000
Subject: [PATCH 05/74] fix: write label values in full when an expression is
 deferred

---
 utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils.cpp b/utils.cpp
index ab46e02..414afcc 100644
--- a/utils.cpp
+++ b/utils.cpp
@@ -860,7 +860,7 @@ static void expand_expr_full (const char *expr, expand_buf *new_expr, int depth,
 				}
 			//if it's a label, write its value
 			} else if ((label = search_labels (name))) {
-				char buf[10];
+				char buf[12];
 				snprintf (buf, sizeof(buf), "%d", label->value);
 				eb_append (new_expr, buf, -1);
 				expr += name_len;
-- 
2.43.0


From c6d1f71dd3d4c60b61bb1c6040743f54e80d5c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:58 +0000
Subject: [PATCH 06/74] fix: diagnose forward references where the value is
 needed on the first pass

---
 directive.cpp | 14 ++++++++------
 errors.h      |  2 ++
 parser.cpp    | 21 +++++++++++++++++++++
 parser.h      |  1 +
 pass_one.cpp  |  2 +-
 5 files changed, 33 insertions(+), 7 deletions(-)

diff --git a/directive.cpp b/directive.cpp
index 8584e1c..dd826e3 100644
--- a/directive.cpp
+++ b/directive.cpp
@@ -77,7 +77,7 @@ char *handle_directive (const char *ptr) {
 			bool fResult = read_expr(&ptr, value_str, "");
 			if (fResult == true)
 			{
-				if (parse_num(value_str, &value) == true)
+				if (parse_num_now(value_str, &value) == true)
 				{
 					if (value < 0)
 					{
@@ -104,14 +104,16 @@ char *handle_directive (const char *ptr) {
 			//listing_on = false;
 
 			read_expr (&ptr, szSize, ",");
-			parse_num (szSize, &size);
+			if (!parse_num_now (szSize, &size))
+				break;
 			ptr = skip_whitespace (ptr);
 			if (*ptr == ',')
 				ptr++;
 
 			if (read_expr (&ptr, szFill, "")) {
 				//if there's a value to fill the block with, then handle that
-				parse_num (szFill, &fill_value);
+				if (!parse_num_now (szFill, &fill_value))
+					break;
 			} else {
 				//otherwise use 0
 				fill_value = 0;
@@ -365,8 +367,7 @@ addinstr_fail:
 			char value_str[256];
 
 			read_expr (&ptr, value_str, "");
-			if (!parse_num (value_str, &value) && parser_forward_ref_err) {
-			} else {
+			if (parse_num_now (value_str, &value)) {
 				if (last_label == NULL)
 					SetLastSPASMError(SPASM_ERR_EQUATE_MISSING_LABEL);
 				else
@@ -440,7 +441,8 @@ addinstr_fail:
 			char value_str[256];
 
 			read_expr (&ptr, value_str, "");
-			parse_num (value_str, (int *) &value);
+			if (!parse_num_now (value_str, &value))
+				break;
 
 			//printf("value_str: %s\npc: %d\n", value_str, program_counter);
 
diff --git a/errors.h b/errors.h
index 6f8843d..99bda81 100644
--- a/errors.h
+++ b/errors.h
@@ -43,6 +43,7 @@ SPASMERROR, *LPSPASMERROR;
 #define SPASM_ERR_RECURSION_DEPTH			0x129
 #define SPASM_ERR_LABEL_CONFLICT			0x130
 #define SPASM_ERR_INVALID_INDEX_OFFSET		0x131
+#define SPASM_ERR_VALUE_NOT_KNOWN			0x132
 
 #define SPASM_ERR_INVALID_DECIMAL_DIGIT		0x200
 #define SPASM_ERR_INVALID_HEX_DIGIT			0x201
@@ -113,6 +114,7 @@ SPASMERROR g_ErrorCodes[]
 	{SPASM_ERR_DEFINE_HAS_NO_VALUE,		_T("The define '%s' has been used, but doesn't have a value")},
 	{SPASM_ERR_RECURSION_DEPTH,			_T("Expression is too deep (only %d levels allowed)")},
 	{SPASM_ERR_LABEL_CONFLICT,			_T("Conflicting definition of '%s' at %s:%d")},
+	{SPASM_ERR_VALUE_NOT_KNOWN,			_T("The value of '%s' must be known on the first pass")},
 	{SPASM_ERR_INVALID_INDEX_OFFSET,	_T("Index offset is expected to begin with '+' or '-' or be missing")},
 
 	{SPASM_ERR_INVALID_DECIMAL_DIGIT,	_T("Invalid digit '%c' in the decimal number '%s'")},
diff --git a/parser.cpp b/parser.cpp
index f99bcb8..b2c4451 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -125,6 +125,27 @@ bool parse_num (const char *expr, int *value) {
 	return (result != NULL);
 }
 
+/*
+ * Like parse_num, for values that
+ * can't wait for the second pass:
+ * a reference to something that isn't
+ * defined yet is an error
+ */
+
+bool parse_num_now (const char *expr, int *value) {
+	int session = StartSPASMErrorSession();
+	bool success = parse_num (expr, value);
+	bool unknown = !success && !IsSPASMErrorSessionFatal(session);
+	if (!unknown)
+		ReplaySPASMErrorSession(session);
+	EndSPASMErrorSession(session);
+
+	if (unknown)
+		SetLastSPASMError(SPASM_ERR_VALUE_NOT_KNOWN, skip_whitespace(expr));
+	return success;
+}
+
+
 /*
  * Parses expression,
  * ignoring errors
diff --git a/parser.h b/parser.h
index 6cb90f9..ffe1d8e 100644
--- a/parser.h
+++ b/parser.h
@@ -8,6 +8,7 @@
 extern bool parser_forward_ref_err;
 
 bool parse_num (const char *expr, int *value);
+bool parse_num_now (const char *expr, int *value);
 char *parse_define (define_t *define);
 int parse_f (const char *expr);
 bool conv_hex (const char *start, const char *end, int *output_num);
diff --git a/pass_one.cpp b/pass_one.cpp
index 3dc4340..2dd11f2 100644
--- a/pass_one.cpp
+++ b/pass_one.cpp
@@ -245,7 +245,7 @@ char *run_first_pass_line_sec (char *ptr) {
 		ptr++;
 		read_expr (&ptr, value_str, "");
 
-		if (parse_num (value_str, &value) == true)
+		if (parse_num_now (value_str, &value) == true)
 		{
 			if (last_label == NULL) {
 				SetLastSPASMError(SPASM_ERR_EQUATE_MISSING_LABEL);
-- 
2.43.0


From 8c924ed0570e3697742e6f9e46b3f53c78532cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:48 +0000
Subject: [PATCH 07/74] fix: clear the output buffer

---
 main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/main.cpp b/main.cpp
index 39c3962..ee4dc45 100644
--- a/main.cpp
+++ b/main.cpp
@@ -443,7 +443,7 @@ int main (int argc, char **argv)
 		init_storage();
 		is_storage_initialized = true;
 	}
-	output_contents = (unsigned char *) malloc(output_buf_size);
+	output_contents = (unsigned char *) calloc(output_buf_size, 1);
 	ClearSPASMErrorSessions();
 
 	int error = run_assembly();
-- 
2.43.0


From 42146b18d5d7a6300faeacac15861d861ead680e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:07 +0000
Subject: [PATCH 08/74] fix: stop after the first pass when a fatal error was
 shown

---
 main.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/main.cpp b/main.cpp
index ee4dc45..2073674 100644
--- a/main.cpp
+++ b/main.cpp
@@ -119,6 +119,8 @@ int run_assembly()
 	run_first_pass ((char *) input_contents);
 	ReplayFatalSPASMErrorSession(first_pass_session);
 	EndSPASMErrorSession(first_pass_session);
+	if (error_occurred)
+		exit(EXIT_FATAL_ERROR);
 	
 	
 	//free include dirs when done
-- 
2.43.0


From 0c0dfe3927dbd19230176d9a8f71448af5b5e4d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:23 +0000
Subject: [PATCH 09/74] fix: check the bounds of the output buffer

---
 directive.cpp | 10 +++++++++-
 pass_one.cpp  |  6 ++++++
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/directive.cpp b/directive.cpp
index dd826e3..28a5f4a 100644
--- a/directive.cpp
+++ b/directive.cpp
@@ -130,6 +130,11 @@ char *handle_directive (const char *ptr) {
 				SetLastSPASMWarning(SPASM_WARN_TRUNCATING_8);
 			}
 
+			if (size > output_contents + output_buf_size - out_ptr) {
+				show_fatal_error ("The program is larger than %u bytes", output_buf_size);
+				break;
+			}
+
 			program_counter += size;
 			stats_datasize += size;
 
@@ -450,7 +455,10 @@ addinstr_fail:
 				show_fatal_error ("Seek location %d out of bounds", value);
 			else if (value < program_counter && (value - (int) program_counter + (out_ptr - output_contents) < 0))
 				show_fatal_error ("Seek value %d too small", value);
-		
+
+			if (error_occurred)
+				break;
+
 			out_ptr += value - ((int) program_counter);
 			//printf("base: %p; ptr: %p\n", output_contents, out_ptr);
 			program_counter = value;
diff --git a/pass_one.cpp b/pass_one.cpp
index 2dd11f2..f25269f 100644
--- a/pass_one.cpp
+++ b/pass_one.cpp
@@ -37,6 +37,12 @@ const char *built_in_fcreate = "Built-in fcreate";
 
 int write_out (int val) {
 
+	if (out_ptr >= output_contents + output_buf_size) {
+		if (!error_occurred)
+			show_fatal_error ("The program is larger than %u bytes", output_buf_size);
+		return val;
+	}
+
 	//write hex data if listing mode is on
 	if (mode & MODE_LIST && listing_on) {
 		char text[4];
-- 
2.43.0


From 91f64125d7e562dce2699b2f18ab1be0608b735c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:25 +0000
Subject: [PATCH 10/74] fix: limit the number of reusable labels

---
 storage.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/storage.cpp b/storage.cpp
index ece6b5f..6469537 100644
--- a/storage.cpp
+++ b/storage.cpp
@@ -511,6 +511,11 @@ void set_define (define_t *define, const char *str, int len, bool redefined) {
  * write a new reusable label
  */
 void add_reusable() {
+	if (curr_reusable >= MAX_REUSABLES) {
+		show_fatal_error ("Too many reusable labels, maximum is %d", MAX_REUSABLES);
+		return;
+	}
+
 	reusables[curr_reusable++] = program_counter;
 	total_reusables = curr_reusable;
 }
-- 
2.43.0


From 37c2c3fd837708e029eb352fe0eec0167e181b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:49 +0000
Subject: [PATCH 11/74] fix: check the buffer number given to buf()

---
 pass_one.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pass_one.cpp b/pass_one.cpp
index f25269f..3caafc7 100644
--- a/pass_one.cpp
+++ b/pass_one.cpp
@@ -344,10 +344,10 @@ char *handle_opcode_or_macro (char *ptr) {
 			int value;
 			ptr++;
 			read_expr(&ptr, buf, _T(")"));
-			if (parse_num(buf, &value)) {
+			if (parse_num(buf, &value) && value >= 0 && value < MAX_BUFFERS) {
 				cur_buf = value;
 			} else {
-				SetLastSPASMError(SPASM_ERR_INVALID_OPERANDS);
+				SetLastSPASMError(SPASM_ERR_INVALID_OPERANDS, "buf");
 			}
 			ptr++;
 		} else if (!strncasecmp (name_start, "clr", name_end - name_start) && *ptr == '(') {
-- 
2.43.0


From 4418cf29d79fce8cc3725397afcfd8b4bef48350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:03 +0000
Subject: [PATCH 12/74] fix: report a missing file once and by its name

---
 preop.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/preop.cpp b/preop.cpp
index 8c33b0d..9f94369 100644
--- a/preop.cpp
+++ b/preop.cpp
@@ -483,8 +483,7 @@ static char *handle_preop_include (char *ptr)
 	//finally, now that we've got the full path, determine file type
 	if (!file_path || !(file = fopen (file_path, "rb")))
 	{
-		SetLastSPASMError(SPASM_ERR_FILE_NOT_FOUND, name);
-		show_error ("%s: No such file or directory", name);
+		SetLastSPASMError(SPASM_ERR_FILE_NOT_FOUND, qs);
 		if (file_path) free (file_path);
 		return ptr;
 	}
@@ -589,10 +588,10 @@ char *handle_preop_import (char *ptr) {
 	char *file_path = full_path(qs);
 
 	//...and read it in
-	import_file = fopen(file_path, "rb");
+	import_file = file_path ? fopen(file_path, "rb") : NULL;
 	if (!import_file)
 	{
-		SetLastSPASMError(SPASM_ERR_FILE_NOT_FOUND, file_path);
+		SetLastSPASMError(SPASM_ERR_FILE_NOT_FOUND, qs);
 		free(file_path);
 		return ptr;
 	}
-- 
2.43.0


From 4c9fc642efb12fc5b9348a440f9daaa9d7821c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:45 +0000
Subject: [PATCH 13/74] fix: getc() reads the requested character

---
 parser.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parser.cpp b/parser.cpp
index b2c4451..d443082 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -383,6 +383,7 @@ static const char *parse_single_num (const char *expr, int *value) {
 							strncpy (filename, define->contents, sizeof (filename));
 						}
 
+						if (*expr == ',') expr++;
 						read_expr (&expr, parse_buf, ",");
 						char_index = parse_f (parse_buf);
 
@@ -393,6 +394,7 @@ static const char *parse_single_num (const char *expr, int *value) {
 							fclose (temp_file);
 						} else {
 							SetLastSPASMError(SPASM_ERR_FILE_NOT_FOUND, filename);
+							return NULL;
 						}
 
 						if (*expr == ')') expr++;
-- 
2.43.0


From b12909efb8cd3af34906fde380c3a2e11a345329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:25 +0000
Subject: [PATCH 14/74] fix: diagnose malformed strings in value lists

---
 directive.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/directive.cpp b/directive.cpp
index 28a5f4a..d547fb2 100644
--- a/directive.cpp
+++ b/directive.cpp
@@ -552,8 +552,15 @@ char *parse_emit_string (const char *ptr, ES_TYPE type, void *echo_target) {
 		if (word[0] == '"')
 		{
 			char *next = next_expr (word, EXPR_DELIMS);
-			if (*next != '\0') 
-				goto echo_error;
+			char *close = word + 1;
+			while (*close != '\0' && *close != '"')
+				close += (*close == '\\' && close[1] != '\0') ? 2 : 1;
+
+			// the closing quote must be there and end the value
+			if (*next != '\0' || *close == '\0' || word[strlen(word) - 1] != '"') {
+				SetLastSPASMError(SPASM_ERR_SYNTAX);
+				continue;
+			}
 			
 			reduce_string (word);
 			if (type == ES_ECHO)
-- 
2.43.0


From 563ab3b03ddee46fe4cfb39ec2edeefd1a5af343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:46 +0000
Subject: [PATCH 15/74] fix: match the names buf, clr, wr and run in full and
 stay within the line

---
 pass_one.cpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/pass_one.cpp b/pass_one.cpp
index 3caafc7..ea56e25 100644
--- a/pass_one.cpp
+++ b/pass_one.cpp
@@ -339,7 +339,7 @@ char *handle_opcode_or_macro (char *ptr) {
 		//if this name doesn't match an opcode, it must be a macro (#macro OR #define)
 		define_t *define;
 #ifdef USE_BUILTIN_FCREATE
-		if (!strncasecmp (name_start, "buf", name_end - name_start) && *ptr == '(') {
+		if (!strncasecmp (name_start, "buf", max(3, name_end - name_start)) && *ptr == '(') {
 			char buf[256];
 			int value;
 			ptr++;
@@ -349,16 +349,17 @@ char *handle_opcode_or_macro (char *ptr) {
 			} else {
 				SetLastSPASMError(SPASM_ERR_INVALID_OPERANDS, "buf");
 			}
-			ptr++;
-		} else if (!strncasecmp (name_start, "clr", name_end - name_start) && *ptr == '(') {
+			if (*ptr == ')') ptr++;
+		} else if (!strncasecmp (name_start, "clr", max(3, name_end - name_start)) && *ptr == '(') {
 			expand_buf_t *eb_fcreate = fcreate_bufs[cur_buf];
 			if (eb_fcreate != NULL) {
 				eb_free(eb_fcreate);
 			}
 			eb_fcreate = eb_init(128);
 			fcreate_bufs[cur_buf] = eb_fcreate;
-			ptr += 2;
-		} else if (!strncasecmp (name_start, "wr", name_end - name_start) && *ptr == '(') {
+			ptr++;
+			if (*ptr == ')') ptr++;
+		} else if (!strncasecmp (name_start, "wr", max(2, name_end - name_start)) && *ptr == '(') {
 			expand_buf_t *eb_fcreate = fcreate_bufs[cur_buf];
 			if (eb_fcreate == NULL) {
 				eb_fcreate = eb_init(128);
@@ -366,9 +367,9 @@ char *handle_opcode_or_macro (char *ptr) {
 			}
 
 			ptr = parse_emit_string(++ptr, ES_FCREATE, eb_fcreate);
-			ptr++;
+			if (*ptr == ')') ptr++;
 			eb_append(eb_fcreate, NEWLINE, strlen(NEWLINE));
-		} else if (!strncasecmp (name_start, "run", name_end - name_start) && *ptr == '(') {
+		} else if (!strncasecmp (name_start, "run", max(3, name_end - name_start)) && *ptr == '(') {
 			expand_buf_t *eb_fcreate = fcreate_bufs[cur_buf];
 			if (eb_fcreate == NULL)
 			{
@@ -428,7 +429,8 @@ char *handle_opcode_or_macro (char *ptr) {
 				}
 				EndSPASMErrorSession(session);
 			}
-			ptr += 2;
+			ptr++;
+			if (*ptr == ')') ptr++;
 		} else
 #endif
 
-- 
2.43.0


From 71970b149d8847dd3edd2f9cee3fae08d77ed265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:26 +0000
Subject: [PATCH 16/74] fix: limit the nesting of macros, files, value lists
 and expressions

---
 directive.cpp |  8 ++++++++
 parser.cpp    |  8 +++++++-
 pass_one.cpp  | 20 +++++++++++++++++++-
 3 files changed, 34 insertions(+), 2 deletions(-)

diff --git a/directive.cpp b/directive.cpp
index d547fb2..7a64f64 100644
--- a/directive.cpp
+++ b/directive.cpp
@@ -529,6 +529,9 @@ void show_define (define_t *define) {
 }
 
 
+//the deepest nesting of macros in a list of values
+#define MAX_LIST_DEPTH 100
+
 /*
  * Parses a list of values and strings,
  * either prints them to the output,
@@ -543,6 +546,11 @@ char *parse_emit_string (const char *ptr, ES_TYPE type, void *echo_target) {
 	bool fWasParsed;
 	char *name_end;
 
+	//lists that contain themselves
+	if (level >= MAX_LIST_DEPTH) {
+		show_fatal_error ("Value lists are nested too deeply, maximum is %d levels", MAX_LIST_DEPTH);
+		return skip_to_line_end (ptr);
+	}
 	level++;
 
 	arg_context_t context = ARG_CONTEXT_INITIALIZER;
diff --git a/parser.cpp b/parser.cpp
index d443082..644e829 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -116,8 +116,14 @@ bool parse_num (const char *expr, int *value) {
 	if (value == NULL)
 		value = &fake_value;
 
-	parse_depth = 0;
+	//an expression evaluated on the way to another one counts towards its depth
+	static int nesting = 0;
+	int old_depth = parse_depth;
+	if (nesting++ == 0)
+		parse_depth = 0;
 	result = parse_num_full (expr, value, 0);
+	parse_depth = old_depth;
+	nesting--;
 
 	if (!result)
 		*value = 0;
diff --git a/pass_one.cpp b/pass_one.cpp
index ea56e25..6c8caf6 100644
--- a/pass_one.cpp
+++ b/pass_one.cpp
@@ -26,6 +26,10 @@ int parse_suffix (char **opcode_end);
 char *match_opcode_args (char *ptr, char **arg_ptrs, char **arg_end_ptrs, opcode *curr_opcode, instr **curr_instr);
 int write_instruction_data (instr *curr_instr, char **arg_ptrs, char **arg_end_ptrs, int suffix);
 
+//the deepest nesting of macros, and of files and buffers
+#define MAX_MACRO_DEPTH 800
+#define MAX_FILE_DEPTH 64
+
 bool adl_mode;
 int listing_width;
 const char *last_banner = NULL;
@@ -120,6 +124,14 @@ void do_listing_for_line (char *ptr) {
  */
 
 void run_first_pass (char *ptr) {
+	static int depth = 0;
+
+	if (depth >= MAX_FILE_DEPTH) {
+		show_fatal_error ("Files are nested too deeply, maximum is %d levels", MAX_FILE_DEPTH);
+		return;
+	}
+	depth++;
+
 	line_num = 1;
 	pass_one = true;
 	if (mode & MODE_EZ80) {
@@ -159,6 +171,8 @@ void run_first_pass (char *ptr) {
 			break;
 		}
 	}
+
+	depth--;
 }
 
 
@@ -445,7 +459,11 @@ char *handle_opcode_or_macro (char *ptr) {
 			
 			ptr = args_end;
 
-			if (!IsSPASMErrorSessionFatal(session))
+			if (in_macro >= MAX_MACRO_DEPTH)
+			{
+				show_fatal_error ("Macros are nested too deeply, maximum is %d levels", MAX_MACRO_DEPTH);
+			}
+			else if (!IsSPASMErrorSessionFatal(session))
 			{
 				in_macro++;
 
-- 
2.43.0


From 98dddf81181b0c9612aeb43e6f8c116d8355e9e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:28 +0000
Subject: [PATCH 17/74] fix: print the errors without recursion

---
 errors.cpp | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/errors.cpp b/errors.cpp
index 4f2aec2..6654153 100644
--- a/errors.cpp
+++ b/errors.cpp
@@ -137,33 +137,33 @@ bool IsSPASMErrorSessionFatal(int nSession)
 	return fIsFatal;
 }
 
-static void ReplayErrorRecursive(const list_t *pList, bool fFatalOnly)
+static void ReplayErrors(const list_t *pList, bool fFatalOnly)
 {
-	if (pList == NULL)
-		return;
+	//the newest error comes first in the list, but last in the output
+	list_t *pReversed = NULL;
+	for (; pList != NULL; pList = pList->next)
+	{
+		pReversed = list_prepend(pReversed, pList->data);
+	}
 
-	ReplayErrorRecursive(pList->next, fFatalOnly);
-	if (((LPERRORINSTANCE) pList->data)->nSession == 1)
+	for (pList = pReversed; pList != NULL; pList = pList->next)
 	{
 		LPERRORINSTANCE lpError = (LPERRORINSTANCE) pList->data;
-		if (fFatalOnly) 
+		if (lpError->nSession == 1 && (!fFatalOnly || IsSPASMErrorFatal(lpError->dwErrorCode)))
 		{
-			if (!IsSPASMErrorFatal(lpError->dwErrorCode))
-			{
-				return;
-			}
+			DPRINT("[ReplayErrors] printing error\n");
+			PrintSPASMError(lpError);
 		}
-		DPRINT("[ReplayErrorRecursive] printing error\n");
-		PrintSPASMError(lpError);
 	}
+	list_free(pReversed, false, NULL);
 }
 
 void ReplaySPASMErrorSession(int nSession, bool fFatalOnly)
 {
 	if (nSession == 1)
 	{
-		DPRINT("[ReplaySPASMErrorSession] calling ReplayErrorRecursive\n");
-		ReplayErrorRecursive((list_t *) g_ErrorList, fFatalOnly);
+		DPRINT("[ReplaySPASMErrorSession] calling ReplayErrors\n");
+		ReplayErrors((list_t *) g_ErrorList, fFatalOnly);
 	}
 	else
 	{
-- 
2.43.0


From ea2c17063c0125807b4be54762e15d293efc683e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:47 +0000
Subject: [PATCH 18/74] fix: stop unbounded recursion through macro arguments
 and run()

---
 directive.cpp |  6 +++++-
 pass_one.cpp  |  8 +++++---
 utils.cpp     | 27 +++++++++++++++++++++++----
 3 files changed, 33 insertions(+), 8 deletions(-)

diff --git a/directive.cpp b/directive.cpp
index 7a64f64..28c1df1 100644
--- a/directive.cpp
+++ b/directive.cpp
@@ -701,7 +701,11 @@ char *parse_emit_string (const char *ptr, ES_TYPE type, void *echo_target) {
 					if (*(name_end - 1) == '(') name_end--;
 					name_end = parse_args (name_end, define, &args);
 					if (!name_end)
-						return (char *) ptr;
+					{
+						ReplaySPASMErrorSession(session);
+						EndSPASMErrorSession(session);
+						continue;
+					}
 					
 					expr = parse_define (define);
 					if (expr != NULL)
diff --git a/pass_one.cpp b/pass_one.cpp
index 6c8caf6..a937973 100644
--- a/pass_one.cpp
+++ b/pass_one.cpp
@@ -393,6 +393,10 @@ char *handle_opcode_or_macro (char *ptr) {
 			{
 				char *fcreate_string = eb_extract(eb_fcreate);
 
+				// The text may select, write or run buffers itself
+				eb_free(eb_fcreate);
+				fcreate_bufs[cur_buf] = NULL;
+
 				//make sure the listing for this line is finished up BEFORE
 				// the new file is parsed and writes its listing stuff all over
 				if (mode & MODE_LIST && listing_on && !listing_for_line_done)
@@ -433,8 +437,6 @@ char *handle_opcode_or_macro (char *ptr) {
 				}
 
 				free(fcreate_string);
-				eb_free(fcreate_bufs[cur_buf]);
-				fcreate_bufs[cur_buf] = NULL;
 
 				if (GetSPASMErrorSessionErrorCount(session) > 0)
 				{
@@ -457,7 +459,7 @@ char *handle_opcode_or_macro (char *ptr) {
 			int session = StartSPASMErrorSession();
 			args_end = parse_args(ptr, define, &args);
 			
-			ptr = args_end;
+			ptr = args_end ? args_end : skip_to_line_end (ptr);
 
 			if (in_macro >= MAX_MACRO_DEPTH)
 			{
diff --git a/utils.cpp b/utils.cpp
index 414afcc..ba43fcb 100644
--- a/utils.cpp
+++ b/utils.cpp
@@ -234,8 +234,16 @@ char *eval (const char *expr)
 
 	int session = StartSPASMErrorSession();
 	bool fResult = parse_num (expr, &value);
+	bool fTooDeep = IsErrorInSPASMErrorSession(session, SPASM_ERR_EXCEEDED_RECURSION_LIMIT);
+	if (fTooDeep)
+		ReplaySPASMErrorSession(session);
 	EndSPASMErrorSession(session);
-	if (fResult)
+	if (fTooDeep)
+	{
+		// expanding it would only recurse again
+		expr_value = strdup ("0");
+	}
+	else if (fResult)
 	{
 		const char *sign = "";
 		if (value < 0) {
@@ -294,9 +302,20 @@ char *parse_args (const char *ptr, define_t *define, list_t **curr_arg_set) {
 				}
 				else
 				{
-					label_t *label = search_labels(define->name);
-					add_arg(strdup(define->args[num_args++]), eval(word), *curr_arg_set);
-					//free(evald_word);
+					int session = StartSPASMErrorSession();
+					char *value = eval(word);
+					bool fTooDeep = IsErrorInSPASMErrorSession(session, SPASM_ERR_EXCEEDED_RECURSION_LIMIT);
+					ReplaySPASMErrorSession(session);
+					EndSPASMErrorSession(session);
+
+					if (fTooDeep)
+					{
+						free(value);
+						remove_arg_set(*curr_arg_set);
+						*curr_arg_set = NULL;
+						return NULL;
+					}
+					add_arg(strdup(define->args[num_args++]), value, *curr_arg_set);
 				}
 
 				//AddSPASMErrorSessionAnnotation(nSession, "Error during evaluation of macro '%s' argument '%s'", define->name, define->args[num_args - 1]);
-- 
2.43.0


From 3b754ebecd74db86ea81a6f7fe84d49b566fee7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:05 +0000
Subject: [PATCH 19/74] fix: accept source files of fewer than three bytes

---
 utils.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/utils.cpp b/utils.cpp
index ba43fcb..4a98555 100644
--- a/utils.cpp
+++ b/utils.cpp
@@ -720,10 +720,7 @@ char *get_file_contents (const char *filename) {
 	bool matched = true;
 	for (unsigned i = 0; matched && i < sizeof(utf8_endian_mark); i++) {
 		int c = fgetc(file);
-		if (c == EOF) {
-			return NULL;
-		}
-		matched &= (unsigned char)c == utf8_endian_mark[i];
+		matched = (c == utf8_endian_mark[i]);
 	}
 	if (matched) {
 		size -= sizeof(utf8_endian_mark);
-- 
2.43.0


From 703cf87563f219aab1d8c2ca962472cf459ae00c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:07 +0000
Subject: [PATCH 20/74] fix: inserting nothing keeps the offset

---
 expand_buf.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expand_buf.cpp b/expand_buf.cpp
index c8e1836..f3c3d1a 100644
--- a/expand_buf.cpp
+++ b/expand_buf.cpp
@@ -50,7 +50,7 @@ int eb_insert (expand_buf *buf, int offset, const char *text, size_t length) {
 		length = strlen (text);
 
 	if (length == 0)
-		return 0;
+		return offset;
 
 	//if the string's too long for the buffer to hold, expand it
 	if ((size_t) (buf->end + length - buf->start) > buf->size) {
-- 
2.43.0


From 10e924b2c5ac4c3916f7a20371b37c842c2cebb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:42 +0000
Subject: [PATCH 21/74] fix: -D without a value, and before -A

---
 main.cpp | 44 +++++++++++++++++++++++---------------------
 1 file changed, 23 insertions(+), 21 deletions(-)

diff --git a/main.cpp b/main.cpp
index 2073674..c9b526a 100644
--- a/main.cpp
+++ b/main.cpp
@@ -257,7 +257,7 @@ int main (int argc, char **argv)
 {
 	int curr_arg = 1;
 	bool case_sensitive = false;
-	bool is_storage_initialized = false;
+	list_t *defines = NULL;
 
 	use_colors = true;
 	extern WORD user_attributes;
@@ -339,15 +339,7 @@ int main (int argc, char **argv)
 			//handle adding defines
 			case 'D':
 			{
-				char name[256];
 				char *ptr;
-				define_t *define;
-
-				if (!is_storage_initialized)
-				{
-					init_storage();
-					is_storage_initialized = true;
-				}
 
 				if (strlen (argv[curr_arg]) > 2) {
 					ptr = &argv[curr_arg][2];
@@ -360,13 +352,8 @@ int main (int argc, char **argv)
 					ptr = argv[++curr_arg];
 				}
 
-				read_expr (&ptr, name, "=");
-
-				define = add_define (strdup (name), NULL);
-				if (*skip_whitespace (++ptr) != '\0')
-					define->contents = strdup (ptr);
-				else
-					set_define (define, "1", 1, false);
+				//defined below, once it's known if names are case-sensitive
+				defines = list_append (defines, ptr);
 				break;
 			}
 			case 'V':
@@ -424,6 +411,26 @@ int main (int argc, char **argv)
 
 	// Update case sensitivity settings
 	set_case_sensitive (case_sensitive);
+
+	init_storage();
+	char *input_file = curr_input_file;
+	curr_input_file = starting_input_file;
+	for (list_t *node = defines; node != NULL; node = node->next) {
+		char name[256];
+		char *ptr = (char *) node->data;
+
+		read_expr (&ptr, name, "=");
+		define_t *define = add_define (strdup (name), NULL);
+		if (define == NULL)
+			continue;
+
+		if (*ptr == '=' && *skip_whitespace (ptr + 1) != '\0')
+			set_define (define, ptr + 1, -1, false);
+		else
+			set_define (define, "1", 1, false);
+	}
+	list_free (defines, false, NULL);
+	curr_input_file = input_file;
 	
 	//check on filenames
 	if (!(mode & MODE_COMMANDLINE) && curr_input_file == starting_input_file) {
@@ -440,11 +447,6 @@ int main (int argc, char **argv)
 		output_filename = change_extension (curr_input_file, "bin");
 	}
 
-	if (!is_storage_initialized)
-	{
-		init_storage();
-		is_storage_initialized = true;
-	}
 	output_contents = (unsigned char *) calloc(output_buf_size, 1);
 	ClearSPASMErrorSessions();
 
-- 
2.43.0


From 6e3217523b0d44760c98b2f3f6f87f92d56457ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:15 +0000
Subject: [PATCH 22/74] fix: end a skipped #if at its #endif

---
 preop.cpp | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/preop.cpp b/preop.cpp
index 9f94369..041642d 100644
--- a/preop.cpp
+++ b/preop.cpp
@@ -17,6 +17,7 @@ static char *handle_preop_include (char *ptr);
 char *handle_preop_import (char *ptr);
 char *handle_preop_if (char *ptr);
 static char *skip_until (char *ptr, int *line, int argc, ...);
+static char *close_if (char *ptr);
 
 extern bool case_sensitive;
 static define_t *last_define = NULL;
@@ -86,7 +87,7 @@ char *handle_preop (char *ptr) {
 					SetLastSPASMError(SPASM_ERR_ELIF_WITHOUT_IF);
 				}
 				int session = StartSPASMErrorSession();
-				ptr = skip_until(ptr, &line_num, 1, "#endif");
+				ptr = close_if(skip_until(ptr, &line_num, 1, "#endif"));
 				EndSPASMErrorSession(session);
 				break;
 			}
@@ -145,7 +146,7 @@ char *handle_preop (char *ptr) {
 			else
 			{
 				int session = StartSPASMErrorSession();
-				ptr = skip_until (ptr, &line_num, 3, "#else", "#elif", "#endif");
+				ptr = close_if (skip_until (ptr, &line_num, 1, "#endif"));
 				EndSPASMErrorSession(session);
 			}
 			break;
@@ -636,6 +637,23 @@ char *handle_preop_if (char *ptr) {
 	return do_if ((char *) expr_end, condition);
 }
 
+/*
+ * Ends the current #IF at the #ENDIF
+ * that skip_until found, returns pointer
+ * to the end of that #ENDIF
+ */
+
+static char *close_if (char *ptr)
+{
+	if (line_has_word(ptr, _T("#endif"), 6))
+	{
+		if (nIfLevel > 0)
+			nIfLevel--;
+		ptr = next_code_line(ptr) - 1;
+	}
+	return ptr;
+}
+
 /*
  * Skips the appropriate
  * parts of #IF blocks,
@@ -664,6 +682,10 @@ char *do_if (char *ptr, int condition)
 		{
 			result = handle_preop_if(skip_whitespace(result) + 5);
 		}
+		else
+		{
+			result = close_if(result);
+		}
 		return result;
 	}
 }
-- 
2.43.0


From 6c2968809971cae3208238bbd3cf967f86e401a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:26 +0000
Subject: [PATCH 23/74] fix: #if inside a comment block needs no #endif

---
 preop.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/preop.cpp b/preop.cpp
index 041642d..f1b47dc 100644
--- a/preop.cpp
+++ b/preop.cpp
@@ -738,6 +738,11 @@ char *skip_until (char *ptr, int *pnLine, int argc, ...)
 
 	if (argc == 0) return ptr;
 
+	// Only #IF blocks nest, not comments and macros
+	va_start(argp, argc);
+	bool nesting = !strcasecmp(va_arg(argp, char *), "#endif") || argc > 1;
+	va_end(argp);
+
 	int line_num_copy = line_num;
 
 	while (*ptr && !error_occurred) {
@@ -746,7 +751,7 @@ char *skip_until (char *ptr, int *pnLine, int argc, ...)
 		
 		do {
 			// Test for nesting (includes #ifdef and #ifndef also)
-			if (line_has_word (line, "#IF", 3)) {
+			if (nesting && line_has_word (line, "#IF", 3)) {
 				level++;
 			} else if (level > 0 && line_has_word (line, "#ENDIF", 6)) {
 				level--;
-- 
2.43.0


From 0416cc710502e1c648137fb7a74838113b6c2152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:28 +0000
Subject: [PATCH 24/74] fix: report an unbalanced #if once

---
 preop.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/preop.cpp b/preop.cpp
index f1b47dc..cb4d7aa 100644
--- a/preop.cpp
+++ b/preop.cpp
@@ -673,7 +673,9 @@ char *do_if (char *ptr, int condition)
 	}
 	else
 	{
+		int session = StartSPASMErrorSession();
 		char *result = skip_until (ptr, &line_num, 3, "#else", "#elif", "#endif");
+		EndSPASMErrorSession(session);
 		if (line_has_word(result, _T("#else"), 5))
 		{
 			result = next_code_line(result) - 1;
-- 
2.43.0


From 0a8aec78e7319309600d477106c1061ac9a3b554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:17 +0000
Subject: [PATCH 25/74] fix: keep defines together when an expression is
 deferred

---
 pass_two.cpp |  2 +-
 utils.cpp    | 25 ++++++++++++++++++++-----
 utils.h      |  2 +-
 3 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/pass_two.cpp b/pass_two.cpp
index dd24297..e02524e 100644
--- a/pass_two.cpp
+++ b/pass_two.cpp
@@ -64,7 +64,7 @@ void add_pass_two_expr (char *expr, arg_type type, int inst_size, int or_value)
 		   expression for the second pass */
 
 		//store the contents of the expanded expression for the second pass
-		new_expr->expr = expand_expr (expr);
+		new_expr->expr = expand_expr (expr, true, true);
 
 		//and write a blank value in its place
 		if (type == ARG_ADDR_OFFSET) {
diff --git a/utils.cpp b/utils.cpp
index 4a98555..c64761b 100644
--- a/utils.cpp
+++ b/utils.cpp
@@ -800,10 +800,11 @@ int strnlen (const char *str, int maxlen) {
 /*
  * Fully expands the text of an expression by
  * replacing all macros and labels with their
- * text replacements
+ * text replacements, in parentheses if
+ * the text is an expression to be evaluated
  */
 
-static void expand_expr_full (const char *expr, expand_buf *new_expr, int depth, bool search_local) {
+static void expand_expr_full (const char *expr, expand_buf *new_expr, int depth, bool search_local, bool group) {
 	const char *block_start;
 	char *name;
 	static char separators[] = "=+-*<>|&/%^()\\, \t\r";
@@ -868,7 +869,21 @@ static void expand_expr_full (const char *expr, expand_buf *new_expr, int depth,
 				} else {
 					expr += name_len;
 				}
-				expand_expr_full (define->contents, new_expr, depth + 1, search_local);
+				if (group) {
+					//its value is a single operand of this expression
+					int old_line_num = line_num;
+					line_num = define->line_num;
+					char *contents = parse_define (define);
+					line_num = old_line_num;
+					if (contents) {
+						eb_append (new_expr, "(", 1);
+						expand_expr_full (contents, new_expr, depth + 1, search_local, group);
+						eb_append (new_expr, ")", 1);
+						free (contents);
+					}
+				} else {
+					expand_expr_full (define->contents, new_expr, depth + 1, search_local, group);
+				}
 				remove_arg_set (args);
 				if (error_occurred) {
 					free(name);
@@ -904,13 +919,13 @@ static void expand_expr_full (const char *expr, expand_buf *new_expr, int depth,
 }
 
 
-char *expand_expr (const char *expr, bool search_local) {
+char *expand_expr (const char *expr, bool search_local, bool group) {
 	expand_buf *new_expr;
 	char *new_expr_text;
 
 	new_expr = eb_init(strlen(expr) * 2);
 
-	expand_expr_full (expr, new_expr, 0, search_local);
+	expand_expr_full (expr, new_expr, 0, search_local, group);
 	new_expr_text = eb_extract (new_expr);
 	eb_free (new_expr);
 
diff --git a/utils.h b/utils.h
index 2d25844..4310503 100644
--- a/utils.h
+++ b/utils.h
@@ -50,7 +50,7 @@ bool define_with_value (const char *name, const int value);
 int strnlen (const char *str, int maxlen);
 #endif
 
-char *expand_expr (const char *expr, bool search_local = true);
+char *expand_expr (const char *expr, bool search_local = true, bool group = false);
 
 extern char *curr_input_file;
 extern int line_num;
-- 
2.43.0


From bc0abbc5940381f3fc9f6e2869bd960ccc16bf36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:02 +0000
Subject: [PATCH 26/74] fix: getc() in deferred expressions

---
 parser.cpp |  3 ++-
 utils.cpp  | 23 ++++++++++++++++++++++-
 2 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/parser.cpp b/parser.cpp
index 644e829..812b39f 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -391,7 +391,8 @@ static const char *parse_single_num (const char *expr, int *value) {
 
 						if (*expr == ',') expr++;
 						read_expr (&expr, parse_buf, ",");
-						char_index = parse_f (parse_buf);
+						if (!parse_num (parse_buf, &char_index))
+							return NULL;
 
 						rfn = fix_filename (reduce_string (filename));
 						if ((temp_file = fopen (rfn, "r"))) {
diff --git a/utils.cpp b/utils.cpp
index c64761b..2786ef6 100644
--- a/utils.cpp
+++ b/utils.cpp
@@ -856,8 +856,29 @@ static void expand_expr_full (const char *expr, expand_buf *new_expr, int depth,
 		if (name_len > 0) {
 			name = strndup (expr, name_len);
 			
+			//the character is read now
+			if (group && !strcasecmp (name, "getc") && expr[name_len] == '(') {
+				char word[256], *call;
+				const char *call_end = expr + name_len + 1;
+				int value;
+
+				read_expr (&call_end, word, "");
+				if (*call_end == ')')
+					call_end++;
+				call = strndup (expr, call_end - expr);
+				int session = StartSPASMErrorSession();
+				if (parse_num (call, &value)) {
+					snprintf (word, sizeof (word), "(%d)", value);
+					eb_append (new_expr, word, -1);
+					expr = call_end;
+				} else {
+					eb_append (new_expr, name, -1);
+					expr += name_len;
+				}
+				EndSPASMErrorSession(session);
+				free (call);
 			//if it's a define, recursively expand its contents
-			if ((define = search_defines (name, search_local)) && define->contents != NULL) {
+			} else if ((define = search_defines (name, search_local)) && define->contents != NULL) {
 				list_t *args = NULL;
 
 				if (define->num_args > 0) {
-- 
2.43.0


From 2e34e5d4f47b791c7023d33a4a58fc06a9a17eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:37 +0000
Subject: [PATCH 27/74] fix: report errors in lists that come from a define

---
 directive.cpp | 45 +++++++++++++--------------------------------
 1 file changed, 13 insertions(+), 32 deletions(-)

diff --git a/directive.cpp b/directive.cpp
index 28c1df1..2b4893e 100644
--- a/directive.cpp
+++ b/directive.cpp
@@ -688,9 +688,17 @@ char *parse_emit_string (const char *ptr, ES_TYPE type, void *echo_target) {
 				if (*next != '\0')
 					goto echo_error;
 
-				if ((define = search_defines (name))) {
+				if (strcasecmp (name, "getc") && (define = search_defines (name))) {
 					char *expr;
 					list_t *args = NULL;
+					bool fTooDeep = IsErrorInSPASMErrorSession(session, SPASM_ERR_EXCEEDED_RECURSION_LIMIT);
+
+					//it isn't a number, start over with its contents
+					if (fTooDeep == false)
+					{
+						EndSPASMErrorSession(session);
+						session = StartSPASMErrorSession();
+					}
 	
 					//handle defines
 					if (define->contents == NULL)
@@ -710,44 +718,17 @@ char *parse_emit_string (const char *ptr, ES_TYPE type, void *echo_target) {
 					expr = parse_define (define);
 					if (expr != NULL)
 					{
-						arg_context_t nested_context = ARG_CONTEXT_INITIALIZER;
-
-						// Is it some kind of argument list?
-						const char *nested_expr = expr;
-						extract_arg_string(&nested_expr, &nested_context);
-
-						if (extract_arg_string(&nested_expr, &nested_context) != NULL)
+						if (fTooDeep == false)
 						{
-							// if it is, plug it in to the emit string
 							parse_emit_string(expr, type, echo_target);
-						}
-						else
-						{
-							if (IsErrorInSPASMErrorSession(session, SPASM_ERR_EXCEEDED_RECURSION_LIMIT) == false)
+							if (IsSPASMErrorSessionFatal(session))
 							{
-								
-								int inner_session = StartSPASMErrorSession();
-								parse_emit_string(expr, type, echo_target);
-								if (IsSPASMErrorSessionFatal(inner_session))
-								{
-									EndSPASMErrorSession(inner_session);
-									AddSPASMErrorSessionAnnotation(session, _T("Error during evaluation of macro '%s'"), define->name);
-
-									ReplaySPASMErrorSession(session);
-								}
-								else
-								{
-									EndSPASMErrorSession(inner_session);
-								}
-								//ReplaySPASMErrorSession(session);
-							}
-							else
-							{
-								ReplaySPASMErrorSession(session);
+								AddSPASMErrorSessionAnnotation(session, _T("Error during evaluation of macro '%s'"), define->name);
 							}
 						}
 						free (expr);
 					}
+					ReplaySPASMErrorSession(session);
 					remove_arg_set (args);
 				}
 				else
-- 
2.43.0


From e21e6fed9621f9ffbab38b96ef2605633e707a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:38 +0000
Subject: [PATCH 28/74] fix: evaluate all arguments before defining any

---
 utils.cpp | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/utils.cpp b/utils.cpp
index 2786ef6..08dd5c8 100644
--- a/utils.cpp
+++ b/utils.cpp
@@ -270,7 +270,8 @@ char *eval (const char *expr)
  */
 
 char *parse_args (const char *ptr, define_t *define, list_t **curr_arg_set) {
-	int num_args = 0;
+	int num_args = 0, i;
+	char *values[MAX_ARGS];
 
 	if (curr_arg_set == NULL)
 		return NULL;
@@ -278,9 +279,7 @@ char *parse_args (const char *ptr, define_t *define, list_t **curr_arg_set) {
 	if (*ptr != '(' && define->num_args == 0)
 		return (char *) ptr;
 
-	*curr_arg_set = add_arg_set();
-
-	//then parse each argument and store its value
+	//parse each argument, none of them is defined until all are known
 	if (*ptr == '(') {
 		ptr = skip_whitespace(ptr + 1);
 		if (*ptr != ')' && !is_end_of_code_line(ptr))
@@ -298,7 +297,7 @@ char *parse_args (const char *ptr, define_t *define, list_t **curr_arg_set) {
 
 				if (*define->args[num_args] == '@')
 				{
-					add_arg(strdup(define->args[num_args++]), strdup(word), *curr_arg_set);
+					values[num_args++] = strdup(word);
 				}
 				else
 				{
@@ -311,11 +310,11 @@ char *parse_args (const char *ptr, define_t *define, list_t **curr_arg_set) {
 					if (fTooDeep)
 					{
 						free(value);
-						remove_arg_set(*curr_arg_set);
-						*curr_arg_set = NULL;
+						while (num_args > 0)
+							free(values[--num_args]);
 						return NULL;
 					}
-					add_arg(strdup(define->args[num_args++]), value, *curr_arg_set);
+					values[num_args++] = value;
 				}
 
 				//AddSPASMErrorSessionAnnotation(nSession, "Error during evaluation of macro '%s' argument '%s'", define->name, define->args[num_args - 1]);
@@ -327,7 +326,12 @@ char *parse_args (const char *ptr, define_t *define, list_t **curr_arg_set) {
 
 	//fill in the undefined arguments
 	while (num_args < define->num_args)
-		add_arg (strdup (define->args[num_args++]), NULL, *curr_arg_set);
+		values[num_args++] = NULL;
+
+	//then store their values
+	*curr_arg_set = add_arg_set();
+	for (i = 0; i < num_args; i++)
+		add_arg (strdup (define->args[i]), values[i], *curr_arg_set);
 
 	if (*ptr == ')') ptr++;
 	return (char *) ptr;
-- 
2.43.0


From 5de8dd2b638f2884332e9302e95b207e0f522d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:07 +0000
Subject: [PATCH 29/74] fix: keep arguments with forward references together

---
 utils.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/utils.cpp b/utils.cpp
index 08dd5c8..74d2bdc 100644
--- a/utils.cpp
+++ b/utils.cpp
@@ -235,6 +235,7 @@ char *eval (const char *expr)
 	int session = StartSPASMErrorSession();
 	bool fResult = parse_num (expr, &value);
 	bool fTooDeep = IsErrorInSPASMErrorSession(session, SPASM_ERR_EXCEEDED_RECURSION_LIMIT);
+	bool fForward = !fResult && !IsSPASMErrorSessionFatal(session);
 	if (fTooDeep)
 		ReplaySPASMErrorSession(session);
 	EndSPASMErrorSession(session);
@@ -255,7 +256,7 @@ char *eval (const char *expr)
 	}
 	else
 	{
-		expr_value = expand_expr (expr);
+		expr_value = expand_expr (expr, true, fForward);
 	}
 	return expr_value;
 }
@@ -840,6 +841,13 @@ static void expand_expr_full (const char *expr, expand_buf *new_expr, int depth,
 			block_start = expr++;
 			if (*block_start == '$') {
 				expr = skip_to_name_end (expr);
+				//the address doesn't change until the text is evaluated
+				if (group && expr == block_start + 1) {
+					char buf[12];
+					snprintf (buf, sizeof(buf), "$%0X", program_counter);
+					eb_append (new_expr, buf, -1);
+					continue;
+				}
 			} else {
 				if (*expr == '\\')
 					expr++;
-- 
2.43.0


From 98f7a15eb7896b3b1744d66d55b6855ac5e3a43d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:20 +0000
Subject: [PATCH 30/74] fix: a redefined name keeps labels as names

---
 utils.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/utils.cpp b/utils.cpp
index 74d2bdc..e4fe5f1 100644
--- a/utils.cpp
+++ b/utils.cpp
@@ -923,7 +923,8 @@ static void expand_expr_full (const char *expr, expand_buf *new_expr, int depth,
 					return;
 				}
 			//if it's a label, write its value
-			} else if ((label = search_labels (name))) {
+			// (a redefined name keeps labels as they are, like any define)
+			} else if (search_local && (label = search_labels (name))) {
 				char buf[12];
 				snprintf (buf, sizeof(buf), "%d", label->value);
 				eb_append (new_expr, buf, -1);
-- 
2.43.0


From d835fb1439d2b959073898d96277698d86096e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:49 +0000
Subject: [PATCH 31/74] fix: ignore all surplus macro arguments

---
 utils.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/utils.cpp b/utils.cpp
index e4fe5f1..5217b90 100644
--- a/utils.cpp
+++ b/utils.cpp
@@ -291,6 +291,9 @@ char *parse_args (const char *ptr, define_t *define, list_t **curr_arg_set) {
 			{
 				if (num_args >= define->num_args) {
 					SetLastSPASMWarning(SPASM_WARN_MACRO_TOO_MANY_ARGS, define->name);
+					//leave nothing of them behind
+					while (extract_arg_string(&ptr, &context) != NULL)
+						;
 					break;
 				}
 
-- 
2.43.0


From 19f3ab055e7efecaccff741cabc74f35f15b62d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:28 +0000
Subject: [PATCH 32/74] fix: TI-85 file signature

---
 export.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/export.cpp b/export.cpp
index a4c0d63..b3a9fb4 100644
--- a/export.cpp
+++ b/export.cpp
@@ -523,8 +523,9 @@ void makeprgm (const unsigned char *output_contents, int size, FILE *outfile, co
 	fputc (pnt[2],outfile);
 	fputc (fileheader[i++],outfile);
 	fputc (fileheader[i++],outfile);
-	if (calc == TYPE_85P) {
+	if (calc == TYPE_85P || calc == TYPE_85S) {
 		fputc (0x0C,outfile);
+		i++;
 	} else {
 		fputc (fileheader[i++],outfile);
 	}    
-- 
2.43.0


From 7c79ccdf8748e011bfc39ae79a01780461c4233e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:30 +0000
Subject: [PATCH 33/74] fix: leave the directory out of the .82p name

---
 export.cpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/export.cpp b/export.cpp
index b3a9fb4..c6f039b 100644
--- a/export.cpp
+++ b/export.cpp
@@ -469,11 +469,7 @@ void makeprgm (const unsigned char *output_contents, int size, FILE *outfile, co
 	char *namestring, progstring[3];
 	const unsigned char trailer83[] = { 0x3f, 0xd4, 0x3f, 0x30, 0x30, 0x30, 0x30, 0x3f, 0xd4 };
 	
-	if (calc==TYPE_82P) {
-		char name_buf[256];
-		snprintf(name_buf, sizeof(name_buf), "\xdc%s", prgmname);
-		namestring = strdup (name_buf);
-	} else {
+	{
 		// Find basename(prgmname)
 		const char *baseName = prgmname + strlen(prgmname) - 1;
 		bool found = false;
@@ -489,9 +485,15 @@ void makeprgm (const unsigned char *output_contents, int size, FILE *outfile, co
 		}
 
 		// Use the base filename (no directory, if given) as the program name.
-		namestring = strdup(baseName);
+		if (calc == TYPE_82P) {
+			char name_buf[256];
+			snprintf(name_buf, sizeof(name_buf), "\xdc%s", baseName);
+			namestring = strdup (name_buf);
+		} else {
+			namestring = strdup(baseName);
+		}
 		/* The name must be capital letters and numbers */
-		if (calc < TYPE_85P) {
+		if (calc < TYPE_85P && calc != TYPE_82P) {
 			alphanumeric (namestring, calc == TYPE_8XV);
 		}
 	}
-- 
2.43.0


From 082fdb7a693e35fa187d71e0b28485b50c17c38b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:32 +0000
Subject: [PATCH 34/74] fix: name length of .85p and .86p files

---
 export.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/export.cpp b/export.cpp
index c6f039b..e87c88d 100644
--- a/export.cpp
+++ b/export.cpp
@@ -497,6 +497,9 @@ void makeprgm (const unsigned char *output_contents, int size, FILE *outfile, co
 			alphanumeric (namestring, calc == TYPE_8XV);
 		}
 	}
+	//the name field holds at most 8 characters
+	if (strlen (namestring) > 8)
+		namestring[8] = '\0';
 	/* get size */
 	if (calc==TYPE_83P) {
 		size *= 2; // Double size to account for character conversion of hex opcodes
-- 
2.43.0


From 1ac46c21a0c97fdb0c87a887acb66514bc171953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:34 +0000
Subject: [PATCH 35/74] fix: sizes of .85s and .86s files

---
 export.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/export.cpp b/export.cpp
index e87c88d..9f73e33 100644
--- a/export.cpp
+++ b/export.cpp
@@ -544,14 +544,14 @@ void makeprgm (const unsigned char *output_contents, int size, FILE *outfile, co
 	/* For some reason TI thinks it's important to put the file size */
 	/* dozens of times, I suppose duplicates add security...*/
 	/* yeah right. */
-	if (calc == TYPE_85P) {
+	if (calc == TYPE_85P || calc == TYPE_85S) {
 		temp = size + 8 + strlen (namestring);
 	} else {
-		temp = size+15+((calc==TYPE_8XP||calc==TYPE_8XV)?2:0)+((calc==TYPE_86P)?1:0);
+		temp = size+15+((calc==TYPE_8XP||calc==TYPE_8XV)?2:0)+((calc==TYPE_86P||calc==TYPE_86S)?1:0);
 	}
 	fputc(temp & 0xFF,outfile);
 	fputc(temp >> 8,outfile);
-	if (calc == TYPE_85P) {
+	if (calc == TYPE_85P || calc == TYPE_85S) {
 		chksum = fputc((6+strlen(namestring)),outfile);
 	} else {
 		chksum = fputc(pnt[3],outfile);
-- 
2.43.0


From 0b0950e6f6f75b673a115f1e5b84bf4a7a2bf835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:31 +0000
Subject: [PATCH 36/74] fix: room for the signature of a one-page application

---
 export.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/export.cpp b/export.cpp
index 9f73e33..ac9b6e1 100644
--- a/export.cpp
+++ b/export.cpp
@@ -222,7 +222,7 @@ void makeapp (const unsigned char *output_contents, DWORD size, FILE *outfile, c
 
 /* Check if size will fit in mem with signature */
 	if ((tempnum = ((size+96)%16384))) {
-		if (tempnum < 97 && size > 16384)
+		if (tempnum < 97 && size + 96 > 16384)
 		{
 			free(buffer);
 			SetLastSPASMError(SPASM_ERR_SIGNER_ROOM_FOR_SIG);
-- 
2.43.0


From 92128e8334f7fcd3d0f97c1430a50d689dafbadd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:24 +0000
Subject: [PATCH 37/74] fix: keep the dot of a directory when replacing an
 extension

---
 utils.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/utils.cpp b/utils.cpp
index 5217b90..78fbbb1 100644
--- a/utils.cpp
+++ b/utils.cpp
@@ -776,7 +776,8 @@ char *change_extension (const char *filename, const char *ext) {
 	strcpy(new_fn, filename);
 	
 	dot = strrchr(new_fn, '.');
-	if (dot != NULL) *dot = '\0';
+	//a dot in the name of a directory doesn't start an extension
+	if (dot != NULL && strpbrk(dot, "/\\") == NULL) *dot = '\0';
 		
 	strcat(new_fn, ".");
 	return strcat(new_fn, ext);
-- 
2.43.0


From 9d5ab44b580468721d44d21916423f5cc119dbb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:26 +0000
Subject: [PATCH 38/74] fix: take no extension from the directory of the output
 file

---
 export.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/export.cpp b/export.cpp
index ac9b6e1..899d13d 100644
--- a/export.cpp
+++ b/export.cpp
@@ -118,7 +118,7 @@ void write_file (const unsigned char *output_contents, int output_len, const cha
 
 	//get the type from the extension of the output filename
 	for (i = strlen (output_filename); output_filename[i] != '.' && i; i--);
-	if (i != 0) {
+	if (i != 0 && strpbrk (output_filename + i, "/\\") == NULL) {
 		const char *ext = output_filename + i + 1;
 
 		int type;
-- 
2.43.0


From 0c643d3b81715b90975175a3177fbf36d533d89d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:37 +0000
Subject: [PATCH 39/74] fix: end the name of a directive where its characters
 end

---
 directive.cpp | 5 +----
 preop.cpp     | 4 +---
 2 files changed, 2 insertions(+), 7 deletions(-)

diff --git a/directive.cpp b/directive.cpp
index 2b4893e..758b5e0 100644
--- a/directive.cpp
+++ b/directive.cpp
@@ -25,10 +25,7 @@ char *handle_directive (const char *ptr) {
 
 	//same deal as handle_preop, just with directives instead
 	bool valid_directive = false;
-	unsigned name_len = 0;
-	while (ptr[name_len] != 0 && !isspace(ptr[name_len])) {
-		name_len++;
-	}
+	unsigned name_len = skip_to_name_end (ptr) - ptr;
 
 	// If longer than name_buf, it can't be a valid directive.
 	if (name_len < sizeof(name_buf)) {
diff --git a/preop.cpp b/preop.cpp
index cb4d7aa..8ffc6e6 100644
--- a/preop.cpp
+++ b/preop.cpp
@@ -36,9 +36,7 @@ char *handle_preop (char *ptr) {
 	int preop;
 
 	//first get the name
-	name_end = ptr;
-	while (*name_end != 0 && !isspace(*name_end))
-		name_end++;
+	name_end = skip_to_name_end (ptr);
 	name = strndup (ptr, name_end - ptr);
 
 	//then try to match it against the list of preops
-- 
2.43.0


From d4b1303dc48cf005c2040ea0a4efbfc3736c236e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:42 +0000
Subject: [PATCH 40/74] fix: list code that follows a macro, run() or .list on
 its line

---
 directive.cpp |  7 +------
 pass_one.cpp  | 51 ++++++++++++++++++++++++++++++++++++++++++---------
 pass_one.h    |  2 ++
 pass_two.cpp  |  4 +++-
 preop.cpp     |  6 +++---
 5 files changed, 51 insertions(+), 19 deletions(-)

diff --git a/directive.cpp b/directive.cpp
index 758b5e0..b6baaca 100644
--- a/directive.cpp
+++ b/directive.cpp
@@ -354,12 +354,7 @@ addinstr_fail:
 		}
 		case 12: //NOLIST
 		{
-			//if listing is on, then it would've written
-			// the starting stuff for this line already,
-			// so take that out
-			if ((mode & MODE_LIST) && listing_on)
-				listing_offset -= 14;
-			listing_on = false;
+			stop_listing ();
 			break;
 		}
 		case 13: //EQU
diff --git a/pass_one.cpp b/pass_one.cpp
index a937973..bc5f041 100644
--- a/pass_one.cpp
+++ b/pass_one.cpp
@@ -32,6 +32,7 @@ int write_instruction_data (instr *curr_instr, char **arg_ptrs, char **arg_end_p
 
 bool adl_mode;
 int listing_width;
+static int listing_line_offset, listing_line_start;	//where the listing of the current line and its bytes start
 const char *last_banner = NULL;
 const char *built_in_fcreate = "Built-in fcreate";
 
@@ -51,6 +52,7 @@ int write_out (int val) {
 	if (mode & MODE_LIST && listing_on) {
 		char text[4];
 
+		open_listing_line ();
 		if (pass_one && listing_width >= 4) {
 			listing_width = 0;
 			listing_offset = eb_insert (listing_buf, listing_offset, NEWLINE "              ", -1);
@@ -82,6 +84,42 @@ int write_out (int val) {
 }
 
 
+/*
+ * Starts the listing of the current line, also
+ * again if it was finished before the line ends
+ */
+static void start_listing_line () {
+	char text[32];
+
+	//add the line number and program counter at the beginning of the line
+	listing_line_offset = listing_offset;
+	sprintf (text, "%5d %02X:%04X ", old_line_num, (program_counter >> 16), program_counter & 0xFFFF);
+	listing_line_start = listing_offset = eb_insert (listing_buf, listing_offset, text, strlen (text));
+	listing_width = 0;
+	listing_for_line_done = false;
+}
+
+void open_listing_line () {
+	if (mode & MODE_LIST && listing_on && pass_one && listing_for_line_done)
+		start_listing_line ();
+}
+
+/*
+ * Ends the listing before the current statement
+ */
+void stop_listing () {
+	if (mode & MODE_LIST && listing_on && !listing_for_line_done) {
+		if (listing_offset == listing_line_start) {
+			// nothing but the starting stuff is there, so take that out
+			listing_offset = listing_line_offset;
+		} else {
+			do_listing_for_line (skip_to_next_line (line_start));
+			listing_for_line_done = true;
+		}
+	}
+	listing_on = false;
+}
+
 /*
  * Writes listing for a single line, not
  * including hex data (handled by write_out)
@@ -147,13 +185,8 @@ void run_first_pass (char *ptr) {
 			old_line_num = line_num;
 			listing_for_line_done = false;
 
-			if (listing_on) {
-				char text[32];
-
-				//add the line number and program counter at the beginning of the line
-				sprintf (text, "%5d %02X:%04X ", line_num, (program_counter >> 16), program_counter & 0xFFFF);
-				listing_offset = eb_insert (listing_buf, listing_offset, text, strlen (text));
-			}
+			if (listing_on)
+				start_listing_line ();
 		}
 
 		ptr = run_first_pass_line (ptr);
@@ -409,7 +442,7 @@ char *handle_opcode_or_macro (char *ptr) {
 				}
 
 				// Thanks for this Don
-				int old_line_num = line_num;
+				int saved_line_num = line_num;
 				char *old_input_file = curr_input_file;
 				int old_in_macro = in_macro;
 				char *old_line_start = line_start;
@@ -421,7 +454,7 @@ char *handle_opcode_or_macro (char *ptr) {
 				run_first_pass(fcreate_string);
 
 				curr_input_file = old_input_file;
-				line_num = old_line_num;
+				line_num = saved_line_num;
 				in_macro = old_in_macro;
 				line_start = old_line_start;
 				old_line_num = old_old_line_num;
diff --git a/pass_one.h b/pass_one.h
index a54cf62..b8d3866 100644
--- a/pass_one.h
+++ b/pass_one.h
@@ -11,6 +11,8 @@ char *run_first_pass_line (char *ptr);
 int write_out (int);
 char *handle_opcode_or_macro (char *ptr);
 void do_listing_for_line (char *ptr);
+void open_listing_line ();
+void stop_listing ();
 
 extern bool adl_mode;
 
diff --git a/pass_two.cpp b/pass_two.cpp
index e02524e..2f35fe3 100644
--- a/pass_two.cpp
+++ b/pass_two.cpp
@@ -42,8 +42,10 @@ void add_pass_two_expr (char *expr, arg_type type, int inst_size, int or_value)
 		new_expr->curr_reusable = get_curr_reusable();
 #endif
 		new_expr->out_ptr = out_ptr;
-		if (mode & MODE_LIST)
+		if (mode & MODE_LIST) {
+			open_listing_line ();
 			new_expr->listing_offset = listing_offset;
+		}
 		new_expr->type = type;
 		new_expr->input_file = curr_input_file;
 		new_expr->listing_on = listing_on;
diff --git a/preop.cpp b/preop.cpp
index 8ffc6e6..9602988 100644
--- a/preop.cpp
+++ b/preop.cpp
@@ -447,7 +447,7 @@ static char *handle_preop_include (char *ptr)
 	char *qs, *alloc_path, *input_contents, *old_input_file, *old_line_start;
 	int i;
 
-	int old_line_num, old_in_macro, old_old_line_num;
+	int saved_line_num, old_in_macro, old_old_line_num;
 
 	if (is_end_of_code_line (ptr)) {
 		show_error ("#INCLUDE is missing file name");
@@ -522,7 +522,7 @@ static char *handle_preop_include (char *ptr)
 		
 		//swap out the old curr_X values, and swap in the new ones
 		old_input_file = curr_input_file;
-		old_line_num = line_num;
+		saved_line_num = line_num;
 		old_in_macro = in_macro;
 		old_line_start = line_start;
 		old_old_line_num = old_line_num;
@@ -533,7 +533,7 @@ static char *handle_preop_include (char *ptr)
 
 		//when done, swap the old curr_X values back in
 		curr_input_file = old_input_file;
-		line_num = old_line_num;
+		line_num = saved_line_num;
 		in_macro = old_in_macro;
 		line_start = old_line_start;
 		old_line_num = old_old_line_num;
-- 
2.43.0


From d06989ab514927c0cb020ec6aa0abb7d2a563ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:45 +0000
Subject: [PATCH 41/74] fix: don't continue an expression on the next line

---
 utils.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/utils.cpp b/utils.cpp
index 78fbbb1..eb0b568 100644
--- a/utils.cpp
+++ b/utils.cpp
@@ -440,7 +440,9 @@ bool read_expr_impl(const char ** const ptr, char word[256], const char *delims)
 		return false;
 	}
 
-	while (**ptr != '\0' && !((mystrpbrk (*ptr, delims) == *ptr || is_end_of_code_line (*ptr))
+	//missing quotes and parentheses don't continue on the next line
+	while (**ptr != '\0' && **ptr != '\n' && **ptr != '\r' &&
+			!((mystrpbrk (*ptr, delims) == *ptr || is_end_of_code_line (*ptr))
 				&& !in_escape && !in_string && in_quote == 0 && level == 0)) {
 
 		if (!in_escape) {
-- 
2.43.0


From 4492686217b15daf6e26672900c414ca299d2304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:25 +0000
Subject: [PATCH 42/74] fix: go on after a stray #elif

---
 preop.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/preop.cpp b/preop.cpp
index 9602988..5270c01 100644
--- a/preop.cpp
+++ b/preop.cpp
@@ -83,6 +83,7 @@ char *handle_preop (char *ptr) {
 				if (nIfLevel == 0)
 				{
 					SetLastSPASMError(SPASM_ERR_ELIF_WITHOUT_IF);
+					break;
 				}
 				int session = StartSPASMErrorSession();
 				ptr = close_if(skip_until(ptr, &line_num, 1, "#endif"));
-- 
2.43.0


From 68061439bea68cd865b4e1664dc502be9914ba37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:52 +0000
Subject: [PATCH 43/74] fix: opcode digits and operand sizes of .addinstr

---
 directive.cpp | 50 ++++++++++++++++++++++++++++++--------------------
 1 file changed, 30 insertions(+), 20 deletions(-)

diff --git a/directive.cpp b/directive.cpp
index b6baaca..fcece98 100644
--- a/directive.cpp
+++ b/directive.cpp
@@ -145,10 +145,8 @@ char *handle_directive (const char *ptr) {
 		{
 			instr *instr = (struct _instr *) malloc (sizeof (struct _instr));
 			char word[256];
-			int result;
-			char *mnemonic = NULL;
-			size_t i, base = 0, size_left;
-			int j;
+			char *mnemonic = NULL, *arg;
+			int i, args, wildcards, size_left;
 			opcode *last_opcode = NULL, *curr_opcode = all_opcodes, *new_opcode;
 
 			memset (instr, 0, sizeof (struct _instr));
@@ -164,15 +162,19 @@ char *handle_directive (const char *ptr) {
 
 			// Instruction data
 			if (!read_expr (&ptr, word, " \t")) goto addinstr_fail;
-			conv_hex (word, word + strlen (word), &result);
-			instr->instr_size = strlen (word) / 2;
+			instr->instr_size = (strlen (word) + 1) / 2;
 
 			// Sanity check: are we within the upper bound?
 			// (If not, fail - otherwise we start overwriting memory)
 			if (instr->instr_size > 8) goto addinstr_fail;
 
-			for (j = instr->instr_size - 1; j >= 0; j--)
-				instr->instr_data[instr->instr_size - j - 1] = (result >> (j * 8)) & 0xFF;
+			// The last two digits are the first byte
+			for (i = strlen (word) - 1; i >= 0; i--) {
+				int digit, pos = strlen (word) - 1 - i;
+				if (!isxdigit ((unsigned char) word[i])) goto addinstr_fail;
+				digit = isdigit ((unsigned char) word[i]) ? word[i] - '0' : toupper ((unsigned char) word[i]) - 'A' + 10;
+				instr->instr_data[instr->instr_size - 1 - pos / 2] |= digit << (pos % 2 * 4);
+			}
 
 			// Size
 			if (!read_expr (&ptr, word, " \t")) goto addinstr_fail;
@@ -192,19 +194,27 @@ char *handle_directive (const char *ptr) {
 				instr->has_end_data = true;
 			}
 
-			size_left = instr->size - instr->instr_size;
-			while ((i = strcspn (&instr->args[base], "*")) + base != strlen (instr->args)) {
-				switch (size_left - instr->has_end_data) {
-					case 2:	((char *) instr->args)[base+i] = '*'; break;
-					case 1: ((char *) instr->args)[base+i] = '&'; break;
-					default:
-						((char *) instr->args)[base+i] = '&'; break;
-						//show_error ("Invalid wildcard type in ADDRINSTR");
-						//goto addinstr_fail;
-						break;
+			// The bytes that are left belong to the arguments
+			size_left = instr->size - instr->instr_size - (instr->has_end_data ? 1 : 0);
+			args = wildcards = 0;
+			for (arg = (char *) instr->args; *arg; arg++) {
+				if (!is_arg (*arg)) continue;
+				args++;
+				if (*arg == '*') wildcards++;
+				else if (*arg != '^') size_left--;
+			}
+
+			if (args > 3 || size_left < wildcards || size_left > 2 * wildcards) goto addinstr_fail;
+
+			for (arg = (char *) instr->args; *arg; arg++) {
+				if (*arg != '*') continue;
+				if (size_left > wildcards)
+					size_left -= 2;
+				else {
+					*arg = '&';
+					size_left--;
 				}
-				size_left -= 2;
-				base += i + 1;
+				wildcards--;
 			}
 
 			new_opcode = (opcode *)  malloc (sizeof (opcode));
-- 
2.43.0


From 0526036157fca49ce59009c929c3aa46cf32a6ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:32 +0000
Subject: [PATCH 44/74] fix: run the second pass with -O too

---
 main.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/main.cpp b/main.cpp
index c9b526a..8ffa75c 100644
--- a/main.cpp
+++ b/main.cpp
@@ -133,8 +133,9 @@ int run_assembly()
 	list_free (include_dirs, true, NULL);
 	include_dirs = NULL;
 	
-	//...and if there's output, run the second pass and write it to the output file
-	if (mode & MODE_SYMTABLE || mode & MODE_NORMAL || mode & MODE_LIST)
+	//...run the second pass and, if there's output, write it to the output file
+	//(only a code counter without output can do without its diagnostics and .echo)
+	if (mode & MODE_SYMTABLE || mode & MODE_NORMAL || mode & MODE_LIST || !(mode & MODE_CODE_COUNTER))
 	{
 		printf ("Pass two... \n");
 		int second_pass_session = StartSPASMErrorSession();
-- 
2.43.0


From 95d1ccc019d52389c35efea91a9137da6f827818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:59 +0000
Subject: [PATCH 45/74] fix: #include of short files and texts beginning with
 BM, #import of directories

---
 bitmap.cpp | 6 ++++--
 preop.cpp  | 3 +++
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/bitmap.cpp b/bitmap.cpp
index 0e2639a..26bb304 100644
--- a/bitmap.cpp
+++ b/bitmap.cpp
@@ -145,9 +145,11 @@ bool IsFileBitmap(FILE *file)
 	fseek(file, 0, SEEK_SET);
 
 	BITMAPFILEHEADER bf;
-	fread (&bf, sizeof (BITMAPFILEHEADER), 1, file);
+	if (fread (&bf, sizeof (BITMAPFILEHEADER), 1, file) != 1)
+		return false;
 
-	if (LOBYTE(_W(bf.bfType)) == 'B' && HIBYTE(_W(bf.bfType)) == 'M')
+	// the reserved words are 0, unlike in a text that begins with BM
+	if (LOBYTE(_W(bf.bfType)) == 'B' && HIBYTE(_W(bf.bfType)) == 'M' && bf.bfReserved1 == 0 && bf.bfReserved2 == 0)
 	{
 		return true;
 	}
diff --git a/preop.cpp b/preop.cpp
index 5270c01..4ad1253 100644
--- a/preop.cpp
+++ b/preop.cpp
@@ -605,6 +605,9 @@ char *handle_preop_import (char *ptr) {
 		program_counter++;
 	}
 
+	if (ferror(import_file))
+		SetLastSPASMError(SPASM_ERR_FILE_NOT_FOUND, qs);
+
 	fclose (import_file);
 	return ptr;
 }
-- 
2.43.0


From ea6df2298ba0be0227423c64076cd837abe048e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:01 +0000
Subject: [PATCH 46/74] fix: strings with \0

---
 directive.cpp | 11 ++++++-----
 utils.cpp     | 18 +++++++++++++-----
 utils.h       |  2 +-
 3 files changed, 20 insertions(+), 11 deletions(-)

diff --git a/directive.cpp b/directive.cpp
index fcece98..9d2b78e 100644
--- a/directive.cpp
+++ b/directive.cpp
@@ -572,19 +572,20 @@ char *parse_emit_string (const char *ptr, ES_TYPE type, void *echo_target) {
 				continue;
 			}
 			
-			reduce_string (word);
+			size_t length;
+			reduce_string (word, &length);
 			if (type == ES_ECHO)
 			{
 				if (echo_target != NULL)
 				{
-					fprintf ((FILE *) echo_target, "%s", word);
+					fwrite (word, 1, length, (FILE *) echo_target);
 				}
 			}
 			else if (type == ES_FCREATE) {
-				eb_append((expand_buf_t *) echo_target, word, strlen(word));
+				eb_append((expand_buf_t *) echo_target, word, length);
 			} else {
-				int i;
-				for (i = 0; word[i]; i++) {
+				size_t i;
+				for (i = 0; i < length; i++) {
 					if ((mode & MODE_NORMAL) || (mode & MODE_LIST))
 						write_out (word[i]);
 	                stats_datasize++;
diff --git a/utils.cpp b/utils.cpp
index eb0b568..7dc2f0b 100644
--- a/utils.cpp
+++ b/utils.cpp
@@ -566,15 +566,19 @@ char *escape_string(const char *input)
 /*
  * Removes surrounding quotation marks (if necessary)
  * and reduces control characters
+ *
+ * The result may contain \0, so its
+ * length can be asked for
  */
 
-char* reduce_string (char* input) {
+char* reduce_string (char* input, size_t *length) {
 	char *output = input;
+	size_t len;
 
 	int quote_count = 0;
 	for (int i = 0; input[i] != '\0'; i++, output++)
 	{
-		if (input[i] == '\\')
+		if (input[i] == '\\' && input[i + 1] != '\0')
 		{
 			int value;
 			char pbuf[8] = "'\\ '";
@@ -594,17 +598,21 @@ char* reduce_string (char* input) {
 	}
 
 	*output = '\0';
+	len = output - input;
 
 	// Count the quotes
 	if (quote_count >= 2)
 	{
-		if (input[0] == '"' && input[strlen(input) - 1] == '"')
+		if (input[0] == '"' && input[len - 1] == '"')
 		{
-			input[strlen(input) - 1] = '\0';
-			memmove(input, input + 1, strlen(input));
+			len -= 2;
+			memmove(input, input + 1, len);
+			input[len] = '\0';
 		}
 	}
 	
+	if (length != NULL)
+		*length = len;
 	return input;
 }
 
diff --git a/utils.h b/utils.h
index 4310503..c684df3 100644
--- a/utils.h
+++ b/utils.h
@@ -31,7 +31,7 @@ char *parse_args (const char *ptr, define_t *define, list_t **arg_local_labels);
 char *replace_literal_args (const char *ptr, define_t *define, list_t **curr_arg_set);
 bool line_has_word (char *ptr, const char *word, int word_len);
 char *escape_string(const char *input);
-char *reduce_string (char* input);
+char *reduce_string (char* input, size_t *length = NULL);
 char *fix_filename (char *filename);
 bool is_abs_path(const char *filename);
 char *strup (const char *input);
-- 
2.43.0


From a73f5d92a99e46bc88e5100c18d12750f22f234b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:46 +0000
Subject: [PATCH 47/74] fix: the file name of .echo >

---
 directive.cpp | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/directive.cpp b/directive.cpp
index 9d2b78e..3f48eed 100644
--- a/directive.cpp
+++ b/directive.cpp
@@ -263,34 +263,38 @@ addinstr_fail:
 				char temp_filename[MAX_PATH];
 				define_t *define;
 
-				if ((++ptr)[0] == '>')
+				if ((++ptr)[0] == '>') {
 					target_format[0] = 'a';
+					ptr++;
+				} else if (*ptr != ' ' && *ptr != '\t') {
+					//the name stands apart
+					SetLastSPASMError(SPASM_ERR_FILENAME_EXPECTED);
+					break;
+				}
 
-				ptr = skip_whitespace (ptr + 1);
+				ptr = skip_whitespace (ptr);
 				if (is_end_of_code_line (ptr)) {
 					SetLastSPASMError(SPASM_ERR_FILENAME_EXPECTED);
-					return NULL;
+					break;
 				}
 
 				read_expr (&ptr, filename, " \t");
 
 				// Is the filename given a macro?
-				if ((define = search_defines (filename)))
-					strncpy (filename, skip_whitespace(define->contents), sizeof (filename));
+				if ((define = search_defines (filename)) && define->contents != NULL)
+					snprintf (filename, sizeof (filename), "%s", skip_whitespace(define->contents));
 					
 				reduce_string(filename);
 
 				if (is_abs_path(filename)) {
-					strncpy(temp_filename, skip_whitespace (filename), sizeof (temp_filename));
+					snprintf (temp_filename, sizeof (temp_filename), "%s", skip_whitespace (filename));
 				} else {
-					strncpy(temp_filename, temp_path, sizeof (temp_filename));
-					strncat(temp_filename, "/", sizeof (temp_filename) - 1);
-					strncat(temp_filename, skip_whitespace (filename), sizeof (temp_filename) - 1);
+					snprintf (temp_filename, sizeof (temp_filename), "%s/%s", temp_path, skip_whitespace (filename));
 				}
 				echo_target = fopen (fix_filename (temp_filename), target_format);
 				if (echo_target == NULL) {
 					SetLastSPASMError(SPASM_ERR_NO_ACCESS, filename);
-					return NULL;
+					break;
 				}
 
 				//if the output's redirected to a file, process it now
-- 
2.43.0


From ae7b9be048421d01648e42b9d9098df19352c885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:29 +0000
Subject: [PATCH 48/74] fix: diagnose forward references echoed to a file

---
 directive.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/directive.cpp b/directive.cpp
index 3f48eed..ea19fee 100644
--- a/directive.cpp
+++ b/directive.cpp
@@ -653,6 +653,9 @@ char *parse_emit_string (const char *ptr, ES_TYPE type, void *echo_target) {
 				switch (type) 
 				{
 				case ES_ECHO:
+					//a file is written at once
+					if (echo_target != NULL && echo_target != stdout)
+						SetLastSPASMError(SPASM_ERR_VALUE_NOT_KNOWN, word);
 					break;
 				case ES_BYTE: 
 					{
-- 
2.43.0


From e652ae9b79672adfdb3193314b2ecf7623f3bcfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:45 +0000
Subject: [PATCH 49/74] fix: echo texts of more than 255 characters

---
 directive.cpp |  5 +----
 pass_two.cpp  | 10 +++++++++-
 pass_two.h    |  1 +
 3 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/directive.cpp b/directive.cpp
index ea19fee..8cf09df 100644
--- a/directive.cpp
+++ b/directive.cpp
@@ -333,11 +333,8 @@ addinstr_fail:
 					char *echo_string = eb_extract(echo);
 					eb_free(echo);
 
-					char *expanded_string = escape_string(echo_string);
+					add_pass_two_output (echo_string, OUTPUT_TEXT);
 					free(echo_string);
-
-					add_pass_two_output (expanded_string, OUTPUT_ECHO);
-					free(expanded_string);
 				}
 				EndSPASMErrorSession(session);
 			}
diff --git a/pass_two.cpp b/pass_two.cpp
index 2f35fe3..47106cc 100644
--- a/pass_two.cpp
+++ b/pass_two.cpp
@@ -110,7 +110,7 @@ void add_pass_two_output (char *expr, output_type type) {
 	new_output->input_file = curr_input_file;
 	new_output->next = NULL;
 
-	if (type == OUTPUT_SHOW)
+	if (type == OUTPUT_SHOW || type == OUTPUT_TEXT)
 		new_output->expr = strdup (expr);
 	else
 		new_output->expr = expand_expr (expr);
@@ -201,6 +201,14 @@ void run_second_pass () {
 					restore_console_attributes(orig_attributes);
 					break;
 				}
+			case OUTPUT_TEXT:
+				{
+					WORD orig_attributes = save_console_attributes();
+					set_console_attributes (COLOR_GREEN);
+					puts (output_list->expr);
+					restore_console_attributes(orig_attributes);
+					break;
+				}
 			case OUTPUT_SHOW:
 			{
 				define_t *define;
diff --git a/pass_two.h b/pass_two.h
index 4fb0f11..9efca63 100644
--- a/pass_two.h
+++ b/pass_two.h
@@ -13,6 +13,7 @@ typedef enum {
 
 typedef enum {
 	OUTPUT_ECHO,
+	OUTPUT_TEXT,
 	OUTPUT_SHOW
 } output_type;
 
-- 
2.43.0


From ef9801ed8af586692bc9118aa006c16296c4592f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:58 +0000
Subject: [PATCH 50/74] fix: .echo of forward references

---
 directive.cpp | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/directive.cpp b/directive.cpp
index 8cf09df..18d8992 100644
--- a/directive.cpp
+++ b/directive.cpp
@@ -310,25 +310,20 @@ addinstr_fail:
 				int session = StartSPASMErrorSession();
 				parse_emit_string (expr, ES_ECHO, NULL);
 
-				if (IsSPASMErrorSessionFatal(session) == true)
+				if (IsSPASMErrorSessionFatal(session) == true
+					|| IsErrorInSPASMErrorSession(session, SPASM_ERR_LABEL_NOT_FOUND)
+					|| IsErrorInSPASMErrorSession(session, SPASM_ERR_LOCAL_LABEL_FORWARD_REF))
 				{
 					add_pass_two_output (expr, OUTPUT_ECHO);
 				}
-				else if (GetSPASMErrorSessionErrorCount(session) > 0)
-				{
-					WORD orig_attributes = save_console_attributes();
-					set_console_attributes(COLOR_GREEN);
-					int internal_session = StartSPASMErrorSession();
-					parse_emit_string (expr, ES_ECHO, stdout);
-					restore_console_attributes(orig_attributes);
-					EndSPASMErrorSession(internal_session);
-
-					ReplaySPASMErrorSession(session);
-				}
 				else
 				{
+					ReplaySPASMErrorSession(session);
+
 					expand_buf_t *echo = eb_init(256);
+					int internal_session = StartSPASMErrorSession();
 					parse_emit_string (expr, ES_FCREATE, echo);
+					EndSPASMErrorSession(internal_session);
 
 					char *echo_string = eb_extract(echo);
 					eb_free(echo);
@@ -653,6 +648,8 @@ char *parse_emit_string (const char *ptr, ES_TYPE type, void *echo_target) {
 					//a file is written at once
 					if (echo_target != NULL && echo_target != stdout)
 						SetLastSPASMError(SPASM_ERR_VALUE_NOT_KNOWN, word);
+					else
+						ReplaySPASMErrorSession(session);
 					break;
 				case ES_BYTE: 
 					{
-- 
2.43.0


From cc0b95de721ff2faac9a6a1ba03b90a2dd389dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:56 +0000
Subject: [PATCH 51/74] fix: assemble an instruction that follows the colon of
 a label directly

---
 pass_one.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pass_one.cpp b/pass_one.cpp
index bc5f041..39f0957 100644
--- a/pass_one.cpp
+++ b/pass_one.cpp
@@ -274,6 +274,13 @@ char *run_first_pass_line_sec (char *ptr) {
 			last_label = add_label (name, program_counter);
 		}
 
+		//a name right after the ':' is an instruction or macro, unless it's a label of its own
+		if (ptr != label_end && (isalpha ((unsigned char) *ptr) || *ptr == '_')) {
+			label_end = skip_to_name_end (ptr);
+			if (*label_end != ':' && *skip_whitespace (label_end) != '=' && *skip_whitespace (label_end) != '.')
+				return handle_opcode_or_macro (ptr);
+		}
+
 		return run_first_pass_line_sec (ptr);
 	} else if (isspace ((unsigned char) *ptr)) {
 		//if it starts with whitespace, skip that
-- 
2.43.0


From 35a54a27692d20023edab7078cfa9ed9e782b15d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:04 +0000
Subject: [PATCH 52/74] fix: #else and #endif in a #comment block don't belong
 to the #if around it

---
 preop.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/preop.cpp b/preop.cpp
index 4ad1253..5a56d1c 100644
--- a/preop.cpp
+++ b/preop.cpp
@@ -748,12 +748,20 @@ char *skip_until (char *ptr, int *pnLine, int argc, ...)
 	va_end(argp);
 
 	int line_num_copy = line_num;
+	bool in_comment = false;
 
 	while (*ptr && !error_occurred) {
 		char *line = ptr;
 		char *line_end = skip_to_next_line(ptr);
 		
 		do {
+			// What's in a #COMMENT block doesn't belong to any #IF
+			if (in_comment) {
+				if (line_has_word (line, "#ENDCOMMENT", 11))
+					in_comment = false;
+			} else if (nesting && line_has_word (line, "#COMMENT", 8)) {
+				in_comment = true;
+			} else
 			// Test for nesting (includes #ifdef and #ifndef also)
 			if (nesting && line_has_word (line, "#IF", 3)) {
 				level++;
-- 
2.43.0


From 071fbadfebf96b57c9d90989e89bd8a4a9d77eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:38 +0000
Subject: [PATCH 53/74] fix: don't hang on a line starting with ) in a skipped
 block

---
 utils.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/utils.cpp b/utils.cpp
index 7dc2f0b..5d5d069 100644
--- a/utils.cpp
+++ b/utils.cpp
@@ -206,6 +206,10 @@ char *next_expr (const char *ptr, const char *delims) {
 char *next_code_line(char *ptr) {
 	
 	ptr = next_expr(ptr, "\\;\r\n");
+
+	//an unmatched ) doesn't end the line
+	while (*ptr == ')')
+		ptr = next_expr(ptr + 1, "\\;\r\n");
 	
 	if (*ptr == ';')
 		return skip_to_next_line(ptr);
-- 
2.43.0


From 537d8ca3674bc8d483bd481e9200eeee72bbef15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:43 +0000
Subject: [PATCH 54/74] fix: don't read in front of an empty value

---
 directive.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/directive.cpp b/directive.cpp
index 18d8992..30d6fab 100644
--- a/directive.cpp
+++ b/directive.cpp
@@ -710,7 +710,7 @@ char *parse_emit_string (const char *ptr, ES_TYPE type, void *echo_target) {
 						SetLastSPASMError(SPASM_ERR_ARG_USED_WITHOUT_VALUE, name);
 					}
 					
-					if (*(name_end - 1) == '(') name_end--;
+					if (name_end != word && *(name_end - 1) == '(') name_end--;
 					name_end = parse_args (name_end, define, &args);
 					if (!name_end)
 					{
-- 
2.43.0


From 665bb987d50be60708da7fdf53efb222560ed3cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:54 +0000
Subject: [PATCH 55/74] fix: diagnose a character literal without a character

---
 parser.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser.cpp b/parser.cpp
index 812b39f..f8c47cb 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -303,6 +303,10 @@ static const char *parse_single_num (const char *expr, int *value) {
 		case '\'':
 		{
 			*value = *(++expr);
+			if (*value == '\0' || (*value == '\\' && expr[1] == '\0')) {
+				SetLastSPASMError(SPASM_ERR_VALUE_EXPECTED);
+				return NULL;
+			}
 			if (*value == '\\') {
 				switch (toupper (*(++expr))) {
 					case 'N': 	*value = '\n'; break;
-- 
2.43.0


From f914fc0a385a32411340716f1b5d5db7ad48ad11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:06 +0000
Subject: [PATCH 56/74] fix: getc() of a define without contents or with a long
 text

---
 parser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser.cpp b/parser.cpp
index f8c47cb..23a38f6 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -388,9 +388,9 @@ static const char *parse_single_num (const char *expr, int *value) {
 						read_expr(&expr, filename, ",");
 
 						// Is the filename given a macro?
-						if ((define = search_defines (filename)))
+						if ((define = search_defines (filename)) && define->contents != NULL)
 						{
-							strncpy (filename, define->contents, sizeof (filename));
+							snprintf (filename, sizeof (filename), "%s", define->contents);
 						}
 
 						if (*expr == ',') expr++;
-- 
2.43.0


From 09511e4e11a969b028228a054742ffc4056e4e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:29 +0000
Subject: [PATCH 57/74] fix: keep a removed define until the end of the
 assembly

---
 storage.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/storage.cpp b/storage.cpp
index 6469537..ac6be65 100644
--- a/storage.cpp
+++ b/storage.cpp
@@ -29,6 +29,7 @@ extern int total_reusables, curr_reusable;
 bool case_sensitive;
 hash_t *label_table, *define_table;
 list_t *arg_list = NULL;
+static list_t *removed_defines = NULL;
 const char *separators = "+-*<>|&/%^()\\, \t\r";
 
 void write_labels_callback(void *, void *);
@@ -230,6 +231,9 @@ EXPORT void free_storage() {
 	hash_free(define_table);
 	define_table = NULL;
 
+	list_free (removed_defines, true, destroy_define_value);
+	removed_defines = NULL;
+
 	while (curr_opcode) {
 		next_opcode = curr_opcode->next;
 		if (curr_opcode->is_added) {
@@ -455,7 +459,12 @@ void remove_define (char *name) {
 		name = new_name;
 	}
 			
-	hash_remove (define_table, name);
+	//keep it until the end, macros may be in use and pass two needs the file name
+	define_t *define = (define_t *) hash_lookup (define_table, name);
+	if (define != NULL) {
+		define_table->erase (name);
+		removed_defines = list_prepend (removed_defines, define);
+	}
 
 	if (!case_sensitive)
 		free(name);
-- 
2.43.0


From 86701b8829bff1758bf9347b33d8a6a45852a7a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:43 +0000
Subject: [PATCH 58/74] fix: don't read in front of a mnemonic while looking
 for a suffix

---
 pass_one.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pass_one.cpp b/pass_one.cpp
index 39f0957..d213ae2 100644
--- a/pass_one.cpp
+++ b/pass_one.cpp
@@ -22,7 +22,7 @@ static expand_buf_t* fcreate_bufs[MAX_BUFFERS];
 char *run_first_pass_line (char *ptr);
 char *run_first_pass_line_sec (char *ptr);
 char *handle_opcode_or_macro (char *ptr);
-int parse_suffix (char **opcode_end);
+int parse_suffix (const char *name_start, char **opcode_end);
 char *match_opcode_args (char *ptr, char **arg_ptrs, char **arg_end_ptrs, opcode *curr_opcode, instr **curr_instr);
 int write_instruction_data (instr *curr_instr, char **arg_ptrs, char **arg_end_ptrs, int suffix);
 
@@ -349,7 +349,7 @@ char *handle_opcode_or_macro (char *ptr) {
 	char *opcode_end = name_end;
 	int suffix = -1;
 	if (mode & MODE_EZ80)
-		suffix = parse_suffix(&opcode_end);
+		suffix = parse_suffix(name_start, &opcode_end);
 
 	//try to match it against opcodes first
 	curr_opcode = all_opcodes;
@@ -605,8 +605,11 @@ char *handle_opcode_or_macro (char *ptr) {
  * argument is set to the end of the main opcode.
  */
 
-int parse_suffix(char **opcode_end) {
+int parse_suffix(const char *name_start, char **opcode_end) {
 	char *suffix_ptr = *opcode_end;
+	//don't look for the dot in front of the name
+	if (memchr (name_start, '.', suffix_ptr - name_start) == NULL)
+		return -1;
 	char last1 = tolower(*--suffix_ptr);
 	if (last1 == 's' || last1 == 'l') {
 		char last2 = tolower(*--suffix_ptr);
-- 
2.43.0


From 2f152af1510a78d3ffa10ed98dedb47f678bc0a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:23 +0000
Subject: [PATCH 59/74] fix: convert 16- and 32-bit bitmaps and don't use the
 palette of true-color ones

---
 bitmap.cpp | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/bitmap.cpp b/bitmap.cpp
index 26bb304..a6c2790 100644
--- a/bitmap.cpp
+++ b/bitmap.cpp
@@ -224,7 +224,7 @@ static void handle_bitmap_internal(FILE *file, const RECT *r, const BITMAPFILEHE
 				//pOutput[r->bottom - r->top - 1 - row][col]
 				OUTPUT_ACCESS(r->bottom - r->top - 1 - row, col) = 0;
 				continue;
-			} else if (_W(bi->biBitCount) < 16 || _DW(bi->biClrUsed) != 0) {
+			} else if (_W(bi->biBitCount) < 16) {
 				BYTE bMask = MASK(_W(bi->biBitCount)) << ((8 - _W(bi->biBitCount)) - (bit % 8));
 				
 				UINT iColor = 0;
@@ -237,18 +237,17 @@ static void handle_bitmap_internal(FILE *file, const RECT *r, const BITMAPFILEHE
 
 				rgb = bmiColors[iColor];
 			} else {
-				WORD biCmBitCount = _W(bi->biBitCount) / 3;
-				DWORD dwData = 0;
-				int i;
-				for (i = 0; i < (_W(bi->biBitCount) / 8); i++) {
-					dwData <<= 8;
-					//dwData += pBits[row][(bit / 8) + i];
-					dwData += BITS_ACCESS(row, (bit / 8) + i);
+				if (_W(bi->biBitCount) == 16) {
+					// five bits each, blue in the low bits
+					WORD wData = BITS_ACCESS(row, bit / 8) + (BITS_ACCESS(row, bit / 8 + 1) << 8);
+					rgb.rgbRed 		= ((wData >> 10) & MASK(5)) * 255 / 31;
+					rgb.rgbGreen 	= ((wData >> 5) & MASK(5)) * 255 / 31;
+					rgb.rgbBlue 	= (wData & MASK(5)) * 255 / 31;
+				} else {
+					rgb.rgbBlue 	= BITS_ACCESS(row, bit / 8);
+					rgb.rgbGreen 	= BITS_ACCESS(row, bit / 8 + 1);
+					rgb.rgbRed 		= BITS_ACCESS(row, bit / 8 + 2);
 				}
-
-				rgb.rgbRed 		= (dwData) & MASK(biCmBitCount); 
-				rgb.rgbGreen 	= (dwData >> biCmBitCount) & MASK(biCmBitCount); 
-				rgb.rgbBlue 	= (dwData >> (2 * biCmBitCount)) & MASK(biCmBitCount); 
 			}
 
 			double lum = LUMINANCE(rgb.rgbRed, rgb.rgbGreen, rgb.rgbBlue);
-- 
2.43.0


From df866eef81070f41cdbc53f56396982c320ee0c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:42 +0000
Subject: [PATCH 60/74] fix: diagnose bitmaps whose headers don't describe the
 file

---
 bitmap.cpp | 53 +++++++++++++++++++++++++++++++++++++++++------------
 1 file changed, 41 insertions(+), 12 deletions(-)

diff --git a/bitmap.cpp b/bitmap.cpp
index a6c2790..582a020 100644
--- a/bitmap.cpp
+++ b/bitmap.cpp
@@ -64,6 +64,9 @@ typedef struct tagBITMAPINFOHEADER{
 #define _W(Z) (Z)
 #endif
 
+// The largest width and height
+#define BM_MAX_DIM 32767
+
 #define MASK(Z) ((1<<(Z))-1)
 #define LUMINANCE(R,G,B) (((0.2126/255.0) * (R)) + ((0.7152/255.0) * (G)) + ((0.0722/255.0) * (B)))
 
@@ -351,30 +354,56 @@ void handle_bitmap(FILE *file)
 	fseek(file, 0, SEEK_SET);
 
 	BITMAPFILEHEADER bf;
-	fread (&bf, sizeof (BITMAPFILEHEADER), 1, file);
-
-	fread (&bi, sizeof (BITMAPINFOHEADER), 1, file);
+	if (fread (&bf, sizeof (BITMAPFILEHEADER), 1, file) != 1 ||
+		fread (&bi, sizeof (BITMAPINFOHEADER), 1, file) != 1) {
+		show_error ("Bitmap file has an invalid structure");
+		return;
+	}
 
+	const WORD biBitCount = _W(bi.biBitCount);
 	if (_DW(bi.biSize) != sizeof (BITMAPINFOHEADER) || _DW(bi.biCompression) != BI_RGB) {
-		show_error ("Bitmap file of this type not supported: size: %ld, compression: %ld\n", _DW(bi.biSize), _DW(bi.biCompression));
+		show_error ("Bitmap file of this type not supported: size: %u, compression: %u", _DW(bi.biSize), _DW(bi.biCompression));
+		return;
+	}
+
+	if (biBitCount != 1 && biBitCount != 4 && biBitCount != 8 && biBitCount != 16 && biBitCount != 24 && biBitCount != 32) {
+		show_error ("Bitmap file of this type not supported: %u bits per pixel", biBitCount);
 		return;
 	}
 
-	if (_W(bi.biBitCount) < 16 || _DW(bi.biClrUsed) != 0) {
+	if (_ZL(bi.biWidth) <= 0 || _ZL(bi.biWidth) > BM_MAX_DIM || _ZL(bi.biHeight) <= 0 || _ZL(bi.biHeight) > BM_MAX_DIM || min_w > BM_MAX_DIM) {
+		show_error ("Bitmap file of this size not supported: width: %d, height: %d", _ZL(bi.biWidth), _ZL(bi.biHeight));
+		return;
+	}
+
+	nColors = _DW(bi.biClrUsed);
+	if (biBitCount < 16) {
 		// If biClrUsed is 0, then the amount of RGBQUADs listed is the total possible
 		// as given by biBitCount
-		nColors = (_DW(bi.biClrUsed == 0)) ? 1 << _W(bi.biBitCount) : _DW(bi.biClrUsed);
+		if (nColors == 0)
+			nColors = 1 << biBitCount;
+		if (nColors > (DWORD) 1 << biBitCount) {
+			show_error ("Bitmap file has too many colors in its palette: %u", nColors);
+			return;
+		}
 	}
 
-	// Read in the palette
-	bmiColors = (LPRGBQUAD) calloc(nColors, sizeof(RGBQUAD));
-	fread(bmiColors, sizeof(RGBQUAD), nColors, file);
-
-	if (ftell (file) != _DW(bf.bfOffBits)) {
-		printf("invalid file structure!\n");
+	// The palette and the pixels are in the file
+	fseek(file, 0, SEEK_END);
+	const uint64_t file_size = ftell(file);
+	const uint64_t pixels_offset = sizeof (BITMAPFILEHEADER) + sizeof (BITMAPINFOHEADER) + (uint64_t) nColors * sizeof (RGBQUAD);
+	const uint64_t pixels_size = ((uint64_t) _ZL(bi.biWidth) * biBitCount + 31) / 32 * 4 * _ZL(bi.biHeight);
+	if (_DW(bf.bfOffBits) != pixels_offset || pixels_offset + pixels_size > file_size) {
+		show_error ("Bitmap file has an invalid structure");
 		return;
 	}
 
+	// Read in the palette, as large as a pixel can address
+	bmiColors = (LPRGBQUAD) calloc(256, sizeof(RGBQUAD));
+	fseek(file, sizeof (BITMAPFILEHEADER) + sizeof (BITMAPINFOHEADER), SEEK_SET);
+	if (biBitCount < 16)
+		fread(bmiColors, sizeof(RGBQUAD), nColors, file);
+
 	if (last_label != NULL && last_label->value == program_counter) {
 		base_name = (char *) malloc(strlen(last_label->name) + 32);
 		strcpy(base_name, last_label->name);
-- 
2.43.0


From 37a8f52a697cc64b50ba55265fbfc0dd1a4ba97a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:43 +0000
Subject: [PATCH 61/74] fix: shades and colors of bitmaps

---
 bitmap.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/bitmap.cpp b/bitmap.cpp
index 582a020..ca13985 100644
--- a/bitmap.cpp
+++ b/bitmap.cpp
@@ -204,7 +204,7 @@ static void handle_bitmap_internal(FILE *file, const RECT *r, const BITMAPFILEHE
 	rgbMask.rgbBlue 	= (value) & 0xFF;
 
 	bool HandleInv = false;
-	RGBQUAD rgbInv;
+	RGBQUAD rgbInv = {0, 0, 0, 0};
 	if ((value = parse_f("__BM_INV_RGB")) != -1) {
 		rgbInv.rgbRed 	= (value >> 16) & 0xFF;
 		rgbInv.rgbGreen = (value >> 8) & 0xFF;
@@ -239,6 +239,7 @@ static void handle_bitmap_internal(FILE *file, const RECT *r, const BITMAPFILEHE
 				} while (++i < (_W(bi->biBitCount) / 8));
 
 				rgb = bmiColors[iColor];
+				rgb.rgbReserved = 0;
 			} else {
 				if (_W(bi->biBitCount) == 16) {
 					// five bits each, blue in the low bits
@@ -261,7 +262,8 @@ static void handle_bitmap_internal(FILE *file, const RECT *r, const BITMAPFILEHE
 			} else {
 				// Calculate the output shade (use 0.99 instead of 1.0 to stick within the range)
 				//pOutput[r->bottom - r->top - 1 - row][col] = (0.99 - lum) * biOutputShades;
-				OUTPUT_ACCESS(r->bottom - r->top - 1 - row, col) = (BYTE) ((0.99 - lum) * biOutputShades);
+				// white is below 0 with many shades
+				OUTPUT_ACCESS(r->bottom - r->top - 1 - row, col) = lum < 0.99 ? (BYTE) ((0.99 - lum) * biOutputShades) : 0;
 			
 				// Calculate the mask
 				if (memcmp (&rgb, &rgbMask, sizeof (RGBQUAD)) != 0)
@@ -349,6 +351,7 @@ void handle_bitmap(FILE *file)
 	LONG padding = parse_f("__BM_PAD");
 	define_t *img_map = search_defines("__BM_MAP");
 	int min_w = parse_f("__BM_MIN_W");
+	int shades = parse_f("__BM_SHD");
 	int bmp_num = 1;
 
 	fseek(file, 0, SEEK_SET);
@@ -376,6 +379,11 @@ void handle_bitmap(FILE *file)
 		return;
 	}
 
+	if (shades < 1 || shades > 256) {
+		show_error ("A bitmap has 1 to 256 shades");
+		return;
+	}
+
 	nColors = _DW(bi.biClrUsed);
 	if (biBitCount < 16) {
 		// If biClrUsed is 0, then the amount of RGBQUADs listed is the total possible
-- 
2.43.0


From 2b0eff82980147ecad0c37d182d5a4f7965fadf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:05 +0000
Subject: [PATCH 62/74] fix: image maps of bitmaps

---
 bitmap.cpp | 14 ++++++++++++--
 utils.cpp  |  2 +-
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/bitmap.cpp b/bitmap.cpp
index ca13985..597cb12 100644
--- a/bitmap.cpp
+++ b/bitmap.cpp
@@ -418,7 +418,7 @@ void handle_bitmap(FILE *file)
 		suffix = base_name + strlen(base_name);
 	}
 
-	if (img_map == NULL || parse_f("__BM_MAP") == 0) {
+	if (img_map == NULL || img_map->contents == NULL || parse_f("__BM_MAP") == 0) {
 		int width = _ZL(bi.biWidth);
 		int height = _ZL(bi.biHeight);
 
@@ -470,6 +470,16 @@ void handle_bitmap(FILE *file)
 			goto map_done;
 		}
 
+		// all in one row or column
+		if (width == 0) width = 1;
+		if (height == 0) height = 1;
+
+		if (padding < 0 || width < 0 || height < 0 || width > _ZL(bi.biWidth) || height > _ZL(bi.biHeight) || padding > BM_MAX_DIM / 2 ||
+			_ZL(bi.biWidth) / width <= 2 * padding || _ZL(bi.biHeight) / height <= 2 * padding) {
+			show_error("The bitmap is too small for its image map");
+			goto map_done;
+		}
+
 		width 	= (_ZL(bi.biWidth) - (width * 2 * padding)) / width;
 		height 	= (_ZL(bi.biHeight) - (height * 2 * padding)) / height;
 
@@ -488,7 +498,7 @@ void handle_bitmap(FILE *file)
 				if (count != 0) count--;
 
 				if (base_name) {
-					char num_buf[8];
+					char num_buf[12];
 					sprintf(num_buf, "%d", bmp_num);
 					strcpy(suffix, num_buf);
 					add_label(strdup(base_name), program_counter);
diff --git a/utils.cpp b/utils.cpp
index 5d5d069..8b8e0cd 100644
--- a/utils.cpp
+++ b/utils.cpp
@@ -773,7 +773,7 @@ char *get_file_contents (const char *filename) {
  */
 bool define_with_value (const char *name, const int value) {
 	define_t *define = search_defines (name);
-	if (define == NULL) return false;
+	if (define == NULL || define->contents == NULL) return false;
 	
 	return (parse_f (define->contents) == value);
 }
-- 
2.43.0


From 784ebc1167aef02cef7bfa784d564260f341a852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:19 +0000
Subject: [PATCH 63/74] fix: the size in the header of a bitmap

---
 bitmap.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/bitmap.cpp b/bitmap.cpp
index 597cb12..e858f91 100644
--- a/bitmap.cpp
+++ b/bitmap.cpp
@@ -77,7 +77,7 @@ static void handle_bitmap_header(const RECT *r, const BITMAPFILEHEADER *bf, cons
 	if (define_with_value("__BM_HDR", 1)) {
 		char *hdr, *p;
 		define_t *def_hdr_fmt = search_defines("__BM_HDR_FMT");
-		if (def_hdr_fmt == NULL)
+		if (def_hdr_fmt == NULL || def_hdr_fmt->contents == NULL)
 			return;
 		
 		hdr = strdup(def_hdr_fmt->contents);
@@ -108,10 +108,12 @@ static void handle_bitmap_header(const RECT *r, const BITMAPFILEHEADER *bf, cons
 			else if (!strcasecmp(p, "b"))
 				write_out(parse_f("__BM_SHD"));
 			else if (!strcasecmp(p, "s") || !strcasecmp(p, "ss")) {
-				int size = ((r->right - r->left) + 7)/8 * (r->bottom - r->top);
-				if (define_with_value ("__BM_SHD", 4)) size *=2;
-				else if (define_with_value ("__BM_SHD", 8)) size *=4;
-				if (define_with_value ("__BM_MASK", 1)) size += ((r->right - r->left) + 7)/8 * (r->bottom - r->top);
+				// rows are padded to, or divided into parts of, the minimal width
+				int width = r->right - r->left, min_w = parse_f("__BM_MIN_W");
+				int row_size = min_w > 0 ? (width + min_w - 1) / min_w * ((min_w + 7) / 8) : (width + 7) / 8;
+				int layers = log2((WORD) parse_f("__BM_SHD"));
+				if (define_with_value ("__BM_MSK", 1)) layers++;
+				int size = row_size * (r->bottom - r->top) * layers;
 
 				if (!strcasecmp(p, "s")) {
 					if (size > 255)
-- 
2.43.0


From be2011f584bbe38d8d827b0327c2ff5fd55264a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:24 +0000
Subject: [PATCH 64/74] fix: keep the ADL mode across included files and run()

---
 pass_one.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pass_one.cpp b/pass_one.cpp
index d213ae2..7d4bfe5 100644
--- a/pass_one.cpp
+++ b/pass_one.cpp
@@ -172,7 +172,8 @@ void run_first_pass (char *ptr) {
 
 	line_num = 1;
 	pass_one = true;
-	if (mode & MODE_EZ80) {
+	//.ASSUME ADL lasts across files and buffers
+	if (mode & MODE_EZ80 && depth == 1) {
 		adl_mode = true;
 	}
 
-- 
2.43.0


From cafdf7fd42783b3ecc008cebab4a1cdfb2c9decd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:17 +0000
Subject: [PATCH 65/74] fix: execution times of adc a,l, bit n,(ix+d) and the
 undocumented instructions

---
 opcodes.cpp      | 246 +++++++++++++++++++++++------------------------
 opcodes_ez80.cpp |   2 +-
 2 files changed, 124 insertions(+), 124 deletions(-)

diff --git a/opcodes.cpp b/opcodes.cpp
index 4fc4c55..764a94f 100644
--- a/opcodes.cpp
+++ b/opcodes.cpp
@@ -372,7 +372,7 @@ static instr adc_instrs[] = {
 	{"A,D", {0x8A}, 1, 4, 4, false, 0x00, 1},
 	{"A,E", {0x8B}, 1, 4, 4, false, 0x00, 1},
 	{"A,H", {0x8C}, 1, 4, 4, false, 0x00, 1},
-	{"A,L", {0x8D}, 1, 7, 7, false, 0x00, 1},
+	{"A,L", {0x8D}, 1, 4, 4, false, 0x00, 1},
 	{"A,(HL)", {0x8E}, 1, 7, 7, false, 0x00, 1},
 	{"A,A", {0x8F}, 1, 4, 4, false, 0x00, 1},
 	{"A,&", {0xCE}, 1, 7, 7, false, 0x00, 2},
@@ -443,8 +443,8 @@ static instr and_instrs[] = {
 	{"&", {0xE6}, 1, 7, 7, false, 0x00, 2}};
 
 static instr bit_instrs[] = {
-	{"^,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x46, 4},
-	{"^,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x46, 4},
+	{"^,(IX@)", {0xCB, 0xDD}, 2, 20, 20, true, 0x46, 4},
+	{"^,(IY@)", {0xCB, 0xFD}, 2, 20, 20, true, 0x46, 4},
 	{"^,B", {0xCB}, 1, 8, 8, true, 0x40, 2},
 	{"^,C", {0xCB}, 1, 8, 8, true, 0x41, 2},
 	{"^,D", {0xCB}, 1, 8, 8, true, 0x42, 2},
@@ -690,22 +690,22 @@ static instr scf_instrs[] = {
 	{"", {0x37}, 1, 4, 4, false, 0x00, 1}};
 
 static instr set_instrs[] = {
-	{"B,^,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0xC0, 4},
-	{"B,^,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0xC0, 4},
-	{"C,^,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0xC1, 4},
-	{"C,^,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0xC1, 4},
-	{"D,^,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0xC2, 4},
-	{"D,^,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0xC2, 4},
-	{"E,^,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0xC3, 4},
-	{"E,^,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0xC3, 4},
-	{"H,^,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0xC4, 4},
-	{"H,^,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0xC4, 4},
-	{"L,^,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0xC5, 4},
-	{"L,^,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0xC5, 4},
+	{"B,^,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0xC0, 4},
+	{"B,^,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0xC0, 4},
+	{"C,^,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0xC1, 4},
+	{"C,^,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0xC1, 4},
+	{"D,^,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0xC2, 4},
+	{"D,^,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0xC2, 4},
+	{"E,^,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0xC3, 4},
+	{"E,^,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0xC3, 4},
+	{"H,^,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0xC4, 4},
+	{"H,^,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0xC4, 4},
+	{"L,^,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0xC5, 4},
+	{"L,^,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0xC5, 4},
 	{"^,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0xC6, 4},
 	{"^,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0xC6, 4},
-	{"A,^,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0xC7, 4},
-	{"A,^,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0xC7, 4},
+	{"A,^,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0xC7, 4},
+	{"A,^,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0xC7, 4},
 	{"^,B", {0xCB}, 1, 8, 8, true, 0xC0, 2},
 	{"^,C", {0xCB}, 1, 8, 8, true, 0xC1, 2},
 	{"^,D", {0xCB}, 1, 8, 8, true, 0xC2, 2},
@@ -716,48 +716,48 @@ static instr set_instrs[] = {
 	{"^,A", {0xCB}, 1, 8, 8, true, 0xC7, 2}};
 
 static instr sl1_instrs[] = {
-	{"B,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x30, 4},
-	{"B,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x30, 4},
-	{"C,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x31, 4},
-	{"C,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x31, 4},
-	{"D,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x32, 4},
-	{"D,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x32, 4},
-	{"E,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x33, 4},
-	{"E,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x33, 4},
-	{"H,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x34, 4},
-	{"H,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x34, 4},
-	{"L,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x35, 4},
-	{"L,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x35, 4},
-	{"(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x36, 4},
-	{"(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x36, 4},
-	{"A,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x37, 4},
-	{"A,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x37, 4},
-	{"B", {0x30, 0xCB}, 2, 0, 0, false, 0x00, 2},
-	{"C", {0x31, 0xCB}, 2, 0, 0, false, 0x00, 2},
-	{"D", {0x32, 0xCB}, 2, 0, 0, false, 0x00, 2},
-	{"E", {0x33, 0xCB}, 2, 0, 0, false, 0x00, 2},
-	{"H", {0x34, 0xCB}, 2, 0, 0, false, 0x00, 2},
-	{"L", {0x35, 0xCB}, 2, 0, 0, false, 0x00, 2},
-	{"(HL)", {0x36, 0xCB}, 2, 0, 0, false, 0x00, 2},
-	{"A", {0x37, 0xCB}, 2, 0, 0, false, 0x00, 2}};
+	{"B,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x30, 4},
+	{"B,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x30, 4},
+	{"C,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x31, 4},
+	{"C,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x31, 4},
+	{"D,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x32, 4},
+	{"D,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x32, 4},
+	{"E,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x33, 4},
+	{"E,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x33, 4},
+	{"H,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x34, 4},
+	{"H,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x34, 4},
+	{"L,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x35, 4},
+	{"L,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x35, 4},
+	{"(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x36, 4},
+	{"(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x36, 4},
+	{"A,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x37, 4},
+	{"A,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x37, 4},
+	{"B", {0x30, 0xCB}, 2, 8, 8, false, 0x00, 2},
+	{"C", {0x31, 0xCB}, 2, 8, 8, false, 0x00, 2},
+	{"D", {0x32, 0xCB}, 2, 8, 8, false, 0x00, 2},
+	{"E", {0x33, 0xCB}, 2, 8, 8, false, 0x00, 2},
+	{"H", {0x34, 0xCB}, 2, 8, 8, false, 0x00, 2},
+	{"L", {0x35, 0xCB}, 2, 8, 8, false, 0x00, 2},
+	{"(HL)", {0x36, 0xCB}, 2, 15, 15, false, 0x00, 2},
+	{"A", {0x37, 0xCB}, 2, 8, 8, false, 0x00, 2}};
 
 static instr sla_instrs[] = {
-	{"B,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x20, 4},
-	{"B,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x20, 4},
-	{"C,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x21, 4},
-	{"C,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x21, 4},
-	{"D,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x22, 4},
-	{"D,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x22, 4},
-	{"E,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x23, 4},
-	{"E,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x23, 4},
-	{"H,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x24, 4},
-	{"H,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x24, 4},
-	{"L,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x25, 4},
-	{"L,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x25, 4},
+	{"B,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x20, 4},
+	{"B,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x20, 4},
+	{"C,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x21, 4},
+	{"C,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x21, 4},
+	{"D,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x22, 4},
+	{"D,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x22, 4},
+	{"E,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x23, 4},
+	{"E,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x23, 4},
+	{"H,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x24, 4},
+	{"H,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x24, 4},
+	{"L,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x25, 4},
+	{"L,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x25, 4},
 	{"(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x26, 4},
 	{"(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x26, 4},
-	{"A,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x27, 4},
-	{"A,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x27, 4},
+	{"A,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x27, 4},
+	{"A,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x27, 4},
 	{"B", {0x20, 0xCB}, 2, 8, 8, false, 0x00, 2},
 	{"C", {0x21, 0xCB}, 2, 8, 8, false, 0x00, 2},
 	{"D", {0x22, 0xCB}, 2, 8, 8, false, 0x00, 2},
@@ -768,48 +768,48 @@ static instr sla_instrs[] = {
 	{"A", {0x27, 0xCB}, 2, 8, 8, false, 0x00, 2}};
 
 static instr sll_instrs[] = {
-	{"B,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x30, 4},
-	{"B,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x30, 4},
-	{"C,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x31, 4},
-	{"C,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x31, 4},
-	{"D,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x32, 4},
-	{"D,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x32, 4},
-	{"E,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x33, 4},
-	{"E,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x33, 4},
-	{"H,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x34, 4},
-	{"H,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x34, 4},
-	{"L,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x35, 4},
-	{"L,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x35, 4},
-	{"(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x36, 4},
-	{"(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x36, 4},
-	{"A,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x37, 4},
-	{"A,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x37, 4},
-	{"B", {0x30, 0xCB}, 2, 0, 0, false, 0x00, 2},
-	{"C", {0x31, 0xCB}, 2, 0, 0, false, 0x00, 2},
-	{"D", {0x32, 0xCB}, 2, 0, 0, false, 0x00, 2},
-	{"E", {0x33, 0xCB}, 2, 0, 0, false, 0x00, 2},
-	{"H", {0x34, 0xCB}, 2, 0, 0, false, 0x00, 2},
-	{"L", {0x35, 0xCB}, 2, 0, 0, false, 0x00, 2},
-	{"(HL)", {0x36, 0xCB}, 2, 0, 0, false, 0x00, 2},
-	{"A", {0x37, 0xCB}, 2, 0, 0, false, 0x00, 2}};
+	{"B,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x30, 4},
+	{"B,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x30, 4},
+	{"C,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x31, 4},
+	{"C,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x31, 4},
+	{"D,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x32, 4},
+	{"D,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x32, 4},
+	{"E,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x33, 4},
+	{"E,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x33, 4},
+	{"H,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x34, 4},
+	{"H,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x34, 4},
+	{"L,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x35, 4},
+	{"L,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x35, 4},
+	{"(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x36, 4},
+	{"(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x36, 4},
+	{"A,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x37, 4},
+	{"A,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x37, 4},
+	{"B", {0x30, 0xCB}, 2, 8, 8, false, 0x00, 2},
+	{"C", {0x31, 0xCB}, 2, 8, 8, false, 0x00, 2},
+	{"D", {0x32, 0xCB}, 2, 8, 8, false, 0x00, 2},
+	{"E", {0x33, 0xCB}, 2, 8, 8, false, 0x00, 2},
+	{"H", {0x34, 0xCB}, 2, 8, 8, false, 0x00, 2},
+	{"L", {0x35, 0xCB}, 2, 8, 8, false, 0x00, 2},
+	{"(HL)", {0x36, 0xCB}, 2, 15, 15, false, 0x00, 2},
+	{"A", {0x37, 0xCB}, 2, 8, 8, false, 0x00, 2}};
 
 static instr sra_instrs[] = {
-	{"B,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x28, 4},
-	{"B,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x28, 4},
-	{"C,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x29, 4},
-	{"C,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x29, 4},
-	{"D,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x2A, 4},
-	{"D,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x2A, 4},
-	{"E,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x2B, 4},
-	{"E,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x2B, 4},
-	{"H,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x2C, 4},
-	{"H,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x2C, 4},
-	{"L,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x2D, 4},
-	{"L,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x2D, 4},
+	{"B,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x28, 4},
+	{"B,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x28, 4},
+	{"C,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x29, 4},
+	{"C,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x29, 4},
+	{"D,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x2A, 4},
+	{"D,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x2A, 4},
+	{"E,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x2B, 4},
+	{"E,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x2B, 4},
+	{"H,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x2C, 4},
+	{"H,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x2C, 4},
+	{"L,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x2D, 4},
+	{"L,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x2D, 4},
 	{"(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x2E, 4},
 	{"(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x2E, 4},
-	{"A,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x2F, 4},
-	{"A,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x2F, 4},
+	{"A,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x2F, 4},
+	{"A,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x2F, 4},
 	{"B", {0x28, 0xCB}, 2, 8, 8, false, 0x00, 2},
 	{"C", {0x29, 0xCB}, 2, 8, 8, false, 0x00, 2},
 	{"D", {0x2A, 0xCB}, 2, 8, 8, false, 0x00, 2},
@@ -820,22 +820,22 @@ static instr sra_instrs[] = {
 	{"A", {0x2F, 0xCB}, 2, 8, 8, false, 0x00, 2}};
 
 static instr srl_instrs[] = {
-	{"B,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x38, 4},
-	{"B,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x38, 4},
-	{"C,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x39, 4},
-	{"C,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x39, 4},
-	{"D,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x3A, 4},
-	{"D,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x3A, 4},
-	{"E,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x3B, 4},
-	{"E,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x3B, 4},
-	{"H,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x3C, 4},
-	{"H,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x3C, 4},
-	{"L,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x3D, 4},
-	{"L,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x3D, 4},
+	{"B,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x38, 4},
+	{"B,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x38, 4},
+	{"C,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x39, 4},
+	{"C,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x39, 4},
+	{"D,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x3A, 4},
+	{"D,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x3A, 4},
+	{"E,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x3B, 4},
+	{"E,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x3B, 4},
+	{"H,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x3C, 4},
+	{"H,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x3C, 4},
+	{"L,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x3D, 4},
+	{"L,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x3D, 4},
 	{"(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x3E, 4},
 	{"(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x3E, 4},
-	{"A,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x3F, 4},
-	{"A,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x3F, 4},
+	{"A,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x3F, 4},
+	{"A,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x3F, 4},
 	{"B", {0x38, 0xCB}, 2, 8, 8, false, 0x00, 2},
 	{"C", {0x39, 0xCB}, 2, 8, 8, false, 0x00, 2},
 	{"D", {0x3A, 0xCB}, 2, 8, 8, false, 0x00, 2},
@@ -846,10 +846,10 @@ static instr srl_instrs[] = {
 	{"A", {0x3F, 0xCB}, 2, 8, 8, false, 0x00, 2}};
 
 static instr sub_instrs[] = {
-	{ "A,IXH", { 0x94, 0xDD }, 2, 0, 0, false, 0x00, 2 },
-	{ "A,IYH", { 0x94, 0xFD }, 2, 0, 0, false, 0x00, 2 },
-	{ "A,IXL", { 0x95, 0xDD }, 2, 0, 0, false, 0x00, 2 },
-	{ "A,IYL", { 0x95, 0xFD }, 2, 0, 0, false, 0x00, 2 },
+	{ "A,IXH", { 0x94, 0xDD }, 2, 8, 8, false, 0x00, 2 },
+	{ "A,IYH", { 0x94, 0xFD }, 2, 8, 8, false, 0x00, 2 },
+	{ "A,IXL", { 0x95, 0xDD }, 2, 8, 8, false, 0x00, 2 },
+	{ "A,IYL", { 0x95, 0xFD }, 2, 8, 8, false, 0x00, 2 },
 	{ "A,(IX@)", { 0x96, 0xDD }, 2, 19, 19, false, 0x00, 3 },
 	{ "A,(IY@)", { 0x96, 0xFD }, 2, 19, 19, false, 0x00, 3 },
 	{ "A,B", { 0x90 }, 1, 4, 4, false, 0x00, 1 },
@@ -861,10 +861,10 @@ static instr sub_instrs[] = {
 	{ "A,(HL)", { 0x96 }, 1, 7, 7, false, 0x00, 1 },
 	{ "A,A", { 0x97 }, 1, 4, 4, false, 0x00, 1 },
 	{ "A,&", { 0xD6 }, 1, 7, 7, false, 0x00, 2 },
-	{"IXH", {0x94, 0xDD}, 2, 0, 0, false, 0x00, 2},
-	{"IYH", {0x94, 0xFD}, 2, 0, 0, false, 0x00, 2},
-	{"IXL", {0x95, 0xDD}, 2, 0, 0, false, 0x00, 2},
-	{"IYL", {0x95, 0xFD}, 2, 0, 0, false, 0x00, 2},
+	{"IXH", {0x94, 0xDD}, 2, 8, 8, false, 0x00, 2},
+	{"IYH", {0x94, 0xFD}, 2, 8, 8, false, 0x00, 2},
+	{"IXL", {0x95, 0xDD}, 2, 8, 8, false, 0x00, 2},
+	{"IYL", {0x95, 0xFD}, 2, 8, 8, false, 0x00, 2},
 	{"(IX@)", {0x96, 0xDD}, 2, 19, 19, false, 0x00, 3},
 	{"(IY@)", {0x96, 0xFD}, 2, 19, 19, false, 0x00, 3},
 	{"B", {0x90}, 1, 4, 4, false, 0x00, 1},
@@ -878,10 +878,10 @@ static instr sub_instrs[] = {
 	{"&", {0xD6}, 1, 7, 7, false, 0x00, 2}};
 
 static instr xor_instrs[] = {
-	{ "A,IXH", { 0xAC, 0xDD }, 2, 0, 0, false, 0x00, 2 },
-	{ "A,IYH", { 0xAC, 0xFD }, 2, 0, 0, false, 0x00, 2 },
-	{ "A,IXL", { 0xAD, 0xDD }, 2, 0, 0, false, 0x00, 2 },
-	{ "A,IYL", { 0xAD, 0xFD }, 2, 0, 0, false, 0x00, 2 },
+	{ "A,IXH", { 0xAC, 0xDD }, 2, 8, 8, false, 0x00, 2 },
+	{ "A,IYH", { 0xAC, 0xFD }, 2, 8, 8, false, 0x00, 2 },
+	{ "A,IXL", { 0xAD, 0xDD }, 2, 8, 8, false, 0x00, 2 },
+	{ "A,IYL", { 0xAD, 0xFD }, 2, 8, 8, false, 0x00, 2 },
 	{ "A,(IX@)", { 0xAE, 0xDD }, 2, 19, 19, false, 0x00, 3 },
 	{ "A,(IY@)", { 0xAE, 0xFD }, 2, 19, 19, false, 0x00, 3 },
 	{ "A,A", { 0xAF }, 1, 4, 4, false, 0x00, 1 },
@@ -893,10 +893,10 @@ static instr xor_instrs[] = {
 	{ "A,L", { 0xAD }, 1, 4, 4, false, 0x00, 1 },
 	{ "A,(HL)", { 0xAE }, 1, 7, 7, false, 0x00, 1 },
 	{ "A,&", { 0xEE }, 1, 7, 7, false, 0x00, 2 },
-	{"IXH", {0xAC, 0xDD}, 2, 0, 0, false, 0x00, 2},
-	{"IYH", {0xAC, 0xFD}, 2, 0, 0, false, 0x00, 2},
-	{"IXL", {0xAD, 0xDD}, 2, 0, 0, false, 0x00, 2},
-	{"IYL", {0xAD, 0xFD}, 2, 0, 0, false, 0x00, 2},
+	{"IXH", {0xAC, 0xDD}, 2, 8, 8, false, 0x00, 2},
+	{"IYH", {0xAC, 0xFD}, 2, 8, 8, false, 0x00, 2},
+	{"IXL", {0xAD, 0xDD}, 2, 8, 8, false, 0x00, 2},
+	{"IYL", {0xAD, 0xFD}, 2, 8, 8, false, 0x00, 2},
 	{"(IX@)", {0xAE, 0xDD}, 2, 19, 19, false, 0x00, 3},
 	{"(IY@)", {0xAE, 0xFD}, 2, 19, 19, false, 0x00, 3},
 	{"A", {0xAF}, 1, 4, 4, false, 0x00, 1},
diff --git a/opcodes_ez80.cpp b/opcodes_ez80.cpp
index ac17aa6..ea47781 100644
--- a/opcodes_ez80.cpp
+++ b/opcodes_ez80.cpp
@@ -388,7 +388,7 @@ static instr adc_instrs[] = {
 		{ "A,D", { 0x8A }, 1, 1, 1, false, 0x00, 1, 0 },
 		{ "A,E", { 0x8B }, 1, 1, 1, false, 0x00, 1, 0 },
 		{ "A,H", { 0x8C }, 1, 1, 1, false, 0x00, 1, 0 },
-		{ "A,L", { 0x8D }, 1, 7, 7, false, 0x00, 1, 0 },
+		{ "A,L", { 0x8D }, 1, 1, 1, false, 0x00, 1, 0 },
 		{ "A,(HL)", { 0x8E }, 1, 2, 2, false, 0x00, 1, 0 },
 		{ "A,A", { 0x8F }, 1, 1, 1, false, 0x00, 1, 0 },
 		{ "A,&", { 0xCE }, 1, 2, 2, false, 0x00, 2, 0 },
-- 
2.43.0


From d81fd418b20795c01a578d5799318239b01da142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:41 +0000
Subject: [PATCH 66/74] fix: count imported files and included bitmaps in the
 statistics

---
 preop.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/preop.cpp b/preop.cpp
index 5a56d1c..5ef1539 100644
--- a/preop.cpp
+++ b/preop.cpp
@@ -490,7 +490,10 @@ static char *handle_preop_include (char *ptr)
 	
 	if (IsFileBitmap(file))
 	{
+		unsigned int start = program_counter;
+
 		handle_bitmap(file);
+		stats_datasize += program_counter - start;
 		fclose (file);
 		free (file_path);
 	}
@@ -602,6 +605,7 @@ char *handle_preop_import (char *ptr) {
 	while ((c = fgetc(import_file)) != EOF)
 	{
 		write_out (c);
+		stats_datasize++;
 		program_counter++;
 	}
 
-- 
2.43.0


From 1eb1709626fdabe0919870e86567304e4bb4445b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:34 +0000
Subject: [PATCH 67/74] fix: define labels in code counter mode

---
 storage.cpp | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/storage.cpp b/storage.cpp
index ac6be65..181e5b2 100644
--- a/storage.cpp
+++ b/storage.cpp
@@ -573,11 +573,6 @@ label_t *add_label (char *name, int value) {
 	label_t *new_label;
 	define_t *conflict_define;
 
-	if (mode & MODE_CODE_COUNTER) {
-		free(name);
-		return NULL;
-	}
-
 	if (!case_sensitive) {
 		char *new_name = strup (name);
 		free (name);
-- 
2.43.0


From 480bc5db26c08083c8852840a30fd92984dcd7f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:47 +0000
Subject: [PATCH 68/74] fix: eZ80 execution times of mode suffixes and untaken
 returns

---
 pass_one.cpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/pass_one.cpp b/pass_one.cpp
index 7d4bfe5..fd2c981 100644
--- a/pass_one.cpp
+++ b/pass_one.cpp
@@ -380,13 +380,21 @@ char *handle_opcode_or_macro (char *ptr) {
 			stats_codesize += size;
 			stats_mintime += curr_instr->min_exectime;
 			stats_maxtime += curr_instr->max_exectime;
-			if (MODE_EZ80) {
+			if (mode & MODE_EZ80) {
 				//increment stats further based on suffix and mode
-				int penalty = (suffix >= 0 ? 1 : 0);
-				if ((suffix < 0 && adl_mode) || suffix > 0)
-					penalty += curr_instr->adl_exectime_penalty;
+				int penalty = (suffix >= 0 ? 1 : 0), data_penalty = 0;
+				int fetch_penalty = curr_instr->adl_exectime_penalty > 0 && strchr (curr_instr->args, '*') ? 1 : 0;
+				//a longer operand takes longer to fetch
+				if (suffix < 0 ? adl_mode : (suffix & SUFFIX_IL))
+					penalty += fetch_penalty;
+				//and longer data to read and write
+				if (suffix < 0 ? adl_mode : (suffix & SUFFIX_L))
+					data_penalty = curr_instr->adl_exectime_penalty - fetch_penalty;
+				stats_maxtime += penalty + data_penalty;
+				//(a conditional instruction only does so if the condition holds)
+				if (curr_instr->min_exectime == curr_instr->max_exectime)
+					penalty += data_penalty;
 				stats_mintime += penalty;
-				stats_maxtime += penalty;
 			}
 		}
 
-- 
2.43.0


From 601eff152fe52f74df2acb20d74dd4aa0637e980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:06:03 +0000
Subject: [PATCH 69/74] fix: skip the contents of a macro whose name conflicts

---
 preop.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/preop.cpp b/preop.cpp
index 5ef1539..e4025b6 100644
--- a/preop.cpp
+++ b/preop.cpp
@@ -201,8 +201,12 @@ char *handle_preop (char *ptr) {
 			
 			macro = add_define (name, NULL);
 			
-			if (macro == NULL)
-				return NULL;
+			if (macro == NULL) {
+				//it can't be defined, but what's in it isn't code either
+				line_num++;
+				ptr = skip_until (skip_to_next_line (name_end), &line_num, 1, "#endmacro");
+				return skip_to_line_end (ptr);
+			}
 
 			name_end = skip_whitespace (name_end);
 			if (*name_end == '(') {
-- 
2.43.0


From 599902d2e92ef6e2f0c7183fe15e585295cec288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:12:55 +0000
Subject: [PATCH 70/74] fix: diagnose .echo of a define that contains itself

---
 directive.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/directive.cpp b/directive.cpp
index 30d6fab..91c1fdf 100644
--- a/directive.cpp
+++ b/directive.cpp
@@ -310,7 +310,11 @@ addinstr_fail:
 				int session = StartSPASMErrorSession();
 				parse_emit_string (expr, ES_ECHO, NULL);
 
-				if (IsSPASMErrorSessionFatal(session) == true
+				if (IsErrorInSPASMErrorSession(session, SPASM_ERR_EXCEEDED_RECURSION_LIMIT))
+				{
+					ReplaySPASMErrorSession(session);
+				}
+				else if (IsSPASMErrorSessionFatal(session) == true
 					|| IsErrorInSPASMErrorSession(session, SPASM_ERR_LABEL_NOT_FOUND)
 					|| IsErrorInSPASMErrorSession(session, SPASM_ERR_LOCAL_LABEL_FORWARD_REF))
 				{
-- 
2.43.0


From 5b75b0889a83d54f7006318fb387d4e1e4a2814b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:12:57 +0000
Subject: [PATCH 71/74] fix: keep the defines of a deferred .echo together as
 operands

---
 pass_two.cpp |  2 +-
 utils.cpp    | 19 +++++++++++++++++--
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/pass_two.cpp b/pass_two.cpp
index 47106cc..58887d2 100644
--- a/pass_two.cpp
+++ b/pass_two.cpp
@@ -113,7 +113,7 @@ void add_pass_two_output (char *expr, output_type type) {
 	if (type == OUTPUT_SHOW || type == OUTPUT_TEXT)
 		new_output->expr = strdup (expr);
 	else
-		new_output->expr = expand_expr (expr);
+		new_output->expr = expand_expr (expr, true, true);
 
 	if (output_list_tail)
 		output_list_tail->next = new_output;
diff --git a/utils.cpp b/utils.cpp
index 8b8e0cd..5566bc4 100644
--- a/utils.cpp
+++ b/utils.cpp
@@ -820,6 +820,16 @@ int strnlen (const char *str, int maxlen) {
 }
 #endif
 
+/* Tells whether the part from name to end is
+ * all there is of a value in a list of values */
+
+static bool is_whole_value (const char *text, const char *name, const char *end) {
+	while (name > text && isspace ((unsigned char) name[-1]))
+		name--;
+	end = skip_whitespace (end);
+	return (name == text || name[-1] == ',') && (*end == '\0' || *end == ',');
+}
+
 /*
  * Fully expands the text of an expression by
  * replacing all macros and labels with their
@@ -834,6 +844,7 @@ static void expand_expr_full (const char *expr, expand_buf *new_expr, int depth,
 	define_t *define;
 	label_t *label;
 	int name_len;
+	const char *const text = expr;
 
 	if (depth > RECURSION_LIMIT) {
 		SetLastSPASMError (SPASM_ERR_RECURSION_DEPTH, RECURSION_LIMIT);
@@ -910,6 +921,7 @@ static void expand_expr_full (const char *expr, expand_buf *new_expr, int depth,
 			//if it's a define, recursively expand its contents
 			} else if ((define = search_defines (name, search_local)) && define->contents != NULL) {
 				list_t *args = NULL;
+				const char *text_name = expr;
 
 				if (define->num_args > 0) {
 					expr = parse_args (expr + name_len, define, &args);
@@ -922,14 +934,17 @@ static void expand_expr_full (const char *expr, expand_buf *new_expr, int depth,
 				}
 				if (group) {
 					//its value is a single operand of this expression
+					bool fWhole = is_whole_value (text, text_name, expr);
 					int old_line_num = line_num;
 					line_num = define->line_num;
 					char *contents = parse_define (define);
 					line_num = old_line_num;
 					if (contents) {
-						eb_append (new_expr, "(", 1);
+						if (!fWhole)
+							eb_append (new_expr, "(", 1);
 						expand_expr_full (contents, new_expr, depth + 1, search_local, group);
-						eb_append (new_expr, ")", 1);
+						if (!fWhole)
+							eb_append (new_expr, ")", 1);
 						free (contents);
 					}
 				} else {
-- 
2.43.0


From 7bfcaa97a2e6ec982666906b646ab7a92869877a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:52:18 +0000
Subject: [PATCH 72/74] fix: join the text of repeated #defcont directives on
 one line

---
 preop.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/preop.cpp b/preop.cpp
index e4025b6..de5d3ec 100644
--- a/preop.cpp
+++ b/preop.cpp
@@ -250,7 +250,7 @@ char *handle_preop (char *ptr) {
 				break;
 			}
 			char *defcont_start = ptr;
-			ptr = skip_to_next_line(ptr);
+			ptr = skip_to_line_end(ptr);
 			int defcont_len = strlen(last_define->name) + (ptr - defcont_start) + 1;
 			char *new_contents = (char *) malloc(defcont_len + 1);
 			strcpy(new_contents, last_define->name);
@@ -259,7 +259,6 @@ char *handle_preop (char *ptr) {
 			new_contents[defcont_len] = '\0';
 			set_define(last_define, new_contents, -1, true);
 			free(new_contents);
-			ptr--;
 		}
 	}
 
-- 
2.43.0


From 2bf8b0316cf3c4a7e11276f89ecf31cdd5cec2ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:52:20 +0000
Subject: [PATCH 73/74] fix: print error messages in full

---
 errors.cpp | 53 ++++++++++++++++++++++++++++++++++++-----------------
 1 file changed, 36 insertions(+), 17 deletions(-)

diff --git a/errors.cpp b/errors.cpp
index 6654153..dc12af9 100644
--- a/errors.cpp
+++ b/errors.cpp
@@ -197,17 +197,36 @@ bool IsErrorInSPASMErrorSession(int nSession, DWORD dwErrorCode)
 	return false;
 }
 
-void AddSPASMErrorSessionAnnotation(int nSession, LPCTSTR lpszFormat, ...)
+//formats text of any length, the result is to be freed
+static char *FormatTextV(LPCTSTR lpszFormat, va_list valist)
+{
+	va_list copy;
+	va_copy(copy, valist);
+	int nLength = vsnprintf(NULL, 0, lpszFormat, copy);
+	va_end(copy);
+
+	char *lpszText = (char *) malloc(nLength + 1);
+	vsnprintf(lpszText, nLength + 1, lpszFormat, valist);
+	return lpszText;
+}
+
+static char *FormatText(LPCTSTR lpszFormat, ...)
 {
 	va_list valist;
 	va_start(valist, lpszFormat);
+	char *lpszText = FormatTextV(lpszFormat, valist);
+	va_end(valist);
+	return lpszText;
+}
 
-	TCHAR szBuffer[256];
-	TCHAR szDescription[128] = _T("An error occurred");
+void AddSPASMErrorSessionAnnotation(int nSession, LPCTSTR lpszFormat, ...)
+{
+	va_list valist;
+	va_start(valist, lpszFormat);
 
-	StringCchVPrintf(szDescription, ARRAYSIZE(szDescription), lpszFormat, valist);
-	StringCchPrintf(szBuffer, ARRAYSIZE(szBuffer), _T("%s:%d: %s"),
-		curr_input_file, line_num, szDescription);
+	char *lpszDescription = FormatTextV(lpszFormat, valist);
+	char *lpszText = FormatText(_T("%s:%d: %s"), curr_input_file, line_num, lpszDescription);
+	free(lpszDescription);
 
 	va_end(valist);
 
@@ -221,10 +240,11 @@ void AddSPASMErrorSessionAnnotation(int nSession, LPCTSTR lpszFormat, ...)
 			{
 				free(lpErr->lpszAnnotation);
 			}
-			lpErr->lpszAnnotation = _tcsdup(szBuffer);
+			lpErr->lpszAnnotation = _tcsdup(lpszText);
 		}
 		pList = pList->next;
 	}
+	free(lpszText);
 }
 void EndSPASMErrorSession(int nSession) {
 	DPRINT("[EndSPASMErrorSession] called with nSession = %d\n", nSession);
@@ -345,34 +365,33 @@ static void SetLastSPASMProblem(DWORD dwErrorCode, bool fIsWarning, va_list vali
 	//lpErr->fSuppressErrors = suppress_errors;
 	lpErr->fIsWarning = fIsWarning;
 	
-	TCHAR szBuffer[256];
-	TCHAR szDescription[128] = _T("An error occurred");
+	char *lpszDescription = NULL;
 
 	for (int i = 0; i < ARRAYSIZE(g_ErrorCodes); i++)
 	{
 		if (g_ErrorCodes[i].dwCode == lpErr->dwErrorCode)
 		{
-			StringCchVPrintf(szDescription, ARRAYSIZE(szDescription),
-				g_ErrorCodes[i].lpszDescription, valist);
+			lpszDescription = FormatTextV(g_ErrorCodes[i].lpszDescription, valist);
 			break;
 		}
 	}
+	if (lpszDescription == NULL)
+		lpszDescription = _strdup(_T("An error occurred"));
 
 	LPCTSTR lpszProblemType = (fIsWarning) ? _T("warning") : _T("error");
 	LPCTSTR lpszProblemCode = (fIsWarning) ? _T("SW") : _T("SE");
 
 	if (lpErr->line_num != -1)
 	{
-		StringCchPrintf(szBuffer, ARRAYSIZE(szBuffer), _T("%s:%d: %s %s%03X: %s"),
-			lpErr->lpszFileName, lpErr->line_num, lpszProblemType, lpszProblemCode, lpErr->dwErrorCode, szDescription);
+		lpErr->lpszErrorText = FormatText(_T("%s:%d: %s %s%03X: %s"),
+			lpErr->lpszFileName, lpErr->line_num, lpszProblemType, lpszProblemCode, lpErr->dwErrorCode, lpszDescription);
 	}
 	else
 	{
-		StringCchPrintf(szBuffer, ARRAYSIZE(szBuffer), _T("%s: %s %s%03X: %s"),
-			lpErr->lpszFileName, lpszProblemType, lpszProblemCode, lpErr->dwErrorCode, szDescription);
+		lpErr->lpszErrorText = FormatText(_T("%s: %s %s%03X: %s"),
+			lpErr->lpszFileName, lpszProblemType, lpszProblemCode, lpErr->dwErrorCode, lpszDescription);
 	}
-
-	lpErr->lpszErrorText = _strdup(szBuffer);
+	free(lpszDescription);
 
 	g_ErrorList = (errorlist_t *) list_prepend((list_t *) g_ErrorList, (LPVOID) lpErr);
 	//if (suppress_errors == false)
-- 
2.43.0


From c5589fda8dfcccd72cedfa85be96ea46a98ad3ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:08:21 +0000
Subject: [PATCH 74/74] fix: report output, listing, symbol and .echo files
 that cannot be written whole

---
 directive.cpp | 11 +++++------
 export.cpp    |  5 ++++-
 main.cpp      |  5 ++++-
 storage.cpp   |  4 +++-
 4 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/directive.cpp b/directive.cpp
index 91c1fdf..3f0ee54 100644
--- a/directive.cpp
+++ b/directive.cpp
@@ -302,6 +302,11 @@ addinstr_fail:
 				set_console_attributes (COLOR_GREEN);
 				ptr = parse_emit_string (ptr, ES_ECHO, echo_target);
 				restore_console_attributes(orig_attributes);
+
+				//the text may not fit on the disk
+				bool write_failed = ferror (echo_target) != 0;
+				if (fclose (echo_target) != 0 || write_failed)
+					SetLastSPASMError(SPASM_ERR_NO_ACCESS, filename);
 			} else {
 				char expr[256];
 				read_expr (&ptr, expr, "");
@@ -770,12 +775,6 @@ echo_error:
 
 	if (type == ES_ECHO && level == 1) {
 		if (echo_target == stdout) putchar ('\n');
-		else {
-			if (echo_target != NULL)
-			{
-				fclose ((FILE *) echo_target);
-			}
-		}
 	}
 	
 	level--;
diff --git a/export.cpp b/export.cpp
index 899d13d..749aac4 100644
--- a/export.cpp
+++ b/export.cpp
@@ -193,7 +193,10 @@ void write_file (const unsigned char *output_contents, int output_len, const cha
 		break;
 	}
 
-	fclose (outfile);
+	//whatever couldn't be written must not go unnoticed
+	bool write_failed = ferror (outfile) != 0;
+	if (fclose (outfile) != 0 || write_failed)
+		SetLastSPASMError(SPASM_ERR_NO_ACCESS, output_filename);
 	free(curr_input_file);
 	curr_input_file = NULL;
 }
diff --git a/main.cpp b/main.cpp
index 8ffa75c..7226e54 100644
--- a/main.cpp
+++ b/main.cpp
@@ -182,7 +182,10 @@ int run_assembly()
 				return EXIT_FATAL_ERROR;
 			}
 
-			fclose (file);
+			if (fclose (file) != 0) {
+				puts ("Error writing to listing file");
+				return EXIT_FATAL_ERROR;
+			}
 			eb_free(listing_buf);
 			listing_buf = NULL;
 		}
diff --git a/storage.cpp b/storage.cpp
index 181e5b2..53f9578 100644
--- a/storage.cpp
+++ b/storage.cpp
@@ -76,7 +76,9 @@ void write_labels (char *filename) {
 		node = node->next;
 	}
 
-	fclose (symtable);
+	bool write_failed = ferror (symtable) != 0;
+	if (fclose (symtable) != 0 || write_failed)
+		SetLastSPASMError(SPASM_ERR_NO_ACCESS, filename);
 	
 	list_free (label_list.next, true, NULL);
 	free(hdr_node.name);
-- 
2.43.0

