From 3bc036e95f609eea719fe1177005d5f903ce9327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:15 +0000
Subject: [PATCH 01/37] fix: avoid division trap in % for the most negative
 number and smallest negative divisor

---
 source/interpreter/operators.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/interpreter/operators.c b/source/interpreter/operators.c
index 38d9e0c..65bbba5 100644
--- a/source/interpreter/operators.c
+++ b/source/interpreter/operators.c
@@ -286,7 +286,8 @@ void op_modulo(struct ptc* p){
 	
 	if (y == 0) ERROR(ERR_DIVIDE_BY_ZERO);
 	
-	stack_push(s, (struct stack_entry){VAR_NUMBER, {x % y}});
+	// INT_MIN % -1 traps on some platforms; the remainder by -1 is always 0
+	stack_push(s, (struct stack_entry){VAR_NUMBER, {y == -1 ? 0 : x % y}});
 }
 
 void op_and(struct ptc* p){
-- 
2.43.0


From db09cda28d4cec73d7579dbd2b1a3565dfb9a648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:58 +0000
Subject: [PATCH 02/37] fix: number to text: carry a fraction that rounds to 1,
 and print -524288

---
 source/interpreter/strs.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/source/interpreter/strs.c b/source/interpreter/strs.c
index 85eb283..06decae 100644
--- a/source/interpreter/strs.c
+++ b/source/interpreter/strs.c
@@ -268,11 +268,16 @@ void fixp_to_char(const fixp n, u8* str){
 	if (n < 0){
 		(*str++) = '-';
 	}
-	fixp num = n < 0 ? -n : n;
+	u32 num = n < 0 ? -(u32)n : (u32)n;
 	
 	u32 integer = num >> FIXPOINT;
 	const u32 decimal_mask = (INT_TO_FP(1) - 1); //default: 0x00000fff
 	u32 decimal = ((((num & decimal_mask) + 2) * 1000) >> FIXPOINT);
+	// A fraction that rounds up to 1 carries into the integer part
+	if (decimal >= 1000){
+		decimal -= 1000;
+		++integer;
+	}
 	u32 divisor = 100000;
 	bool trailing = false;
 	// Loop until divisor is zero (to get all digits)
-- 
2.43.0


From 164946f3fe5a7a297fe0230c8e91b09429aa204f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:17 +0000
Subject: [PATCH 03/37] fix: text to number: long fractions overflowed or
 divided by zero

---
 source/interpreter/strs.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/source/interpreter/strs.c b/source/interpreter/strs.c
index 06decae..fa0aa17 100644
--- a/source/interpreter/strs.c
+++ b/source/interpreter/strs.c
@@ -174,8 +174,8 @@ int64_t str_to_number(const void* str, const int base, const bool allow_decimal)
 	size_t len = str_len(str);
 	
 	unsigned int number = 0;
-	unsigned int fraction = 0;
-	unsigned int maximum = 1;
+	uint64_t fraction = 0;
+	uint64_t maximum = 1;
 	
 	bool is_negative = false;
 	
@@ -190,6 +190,10 @@ int64_t str_to_number(const void* str, const int base, const bool allow_decimal)
 			for (size_t k = i; k < len; ++k){
 				digit = digit_value(str_at_wide(str, k));
 				if (digit >= 0 && digit < base){
+					// digits this small do not affect the result (and would overflow)
+					if (maximum >= 1000000000){
+						continue;
+					}
 					fraction *= base;
 					maximum *= base;
 					fraction += digit;
@@ -214,9 +218,9 @@ int64_t str_to_number(const void* str, const int base, const bool allow_decimal)
 	int64_t combined;
 	if (is_negative){
 		combined = INT_TO_FP(-number);
-		combined -= INT_TO_FP(1) * fraction / maximum;
+		combined -= (int64_t)(4096 * fraction / maximum);
 	} else {
-		combined = ((int64_t)number * 4096) + 4096 * fraction / maximum;
+		combined = ((int64_t)number * 4096) + (int64_t)(4096 * fraction / maximum);
 	}
 	
 //	printf("Number := %f Combined := %d\n", (double)number, combined);
-- 
2.43.0


From 6d52c28adbed8acfd8fc7926ea6e7ff491901363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:17 +0000
Subject: [PATCH 04/37] fix: MID$ with a start or length above 32767 accessed
 memory outside the string

---
 source/interpreter/strfuncs.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/interpreter/strfuncs.c b/source/interpreter/strfuncs.c
index ea3bb84..d206c9c 100644
--- a/source/interpreter/strfuncs.c
+++ b/source/interpreter/strfuncs.c
@@ -33,11 +33,11 @@ void func_mid(struct ptc* p){
 	STACK_REL_INT_MIN(-1,0,len);
 	s->stack_i -= 3;
 	
-	s16 max_len = (s16)str_len(str) - (s16)start;
+	int max_len = (int)str_len(str) - start;
 	if (max_len <= 0){
 		stack_push(&p->stack, (struct stack_entry){VAR_STRING, {.ptr = empty_str}});
 		return;
-	} else if (max_len <= (s16)len){
+	} else if (max_len <= len){
 		len = max_len;
 	}
 	
-- 
2.43.0


From 94d68d28991a4f8610a1208a99315dc628472925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:17 +0000
Subject: [PATCH 05/37] fix: SUBST$ result longer than 256 characters
 overflowed its buffer

---
 source/interpreter/strfuncs.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/source/interpreter/strfuncs.c b/source/interpreter/strfuncs.c
index d206c9c..c84ffb5 100644
--- a/source/interpreter/strfuncs.c
+++ b/source/interpreter/strfuncs.c
@@ -170,20 +170,21 @@ void func_subst(struct ptc* p){
 		count = len; // replaces all if less than max
 	}
 	int repl_len = str_len(repl);
+	int remaining = len - start - count;
+	if (remaining < 0) remaining = 0;
+	if (start + repl_len + remaining > MAX_STRLEN) ERROR(ERR_STRING_TOO_LONG);
 	// actual copying
 	dest->uses = 1;
-	if (start + repl_len > MAX_STRLEN) ERROR(ERR_STRING_TOO_LONG);
 
 	str_copy_buf(str_at(str, 0), dest->ptr.s, str_type(str) | (str_type(dest) << STR_COPY_DEST), start);
 //	iprintf("%s\n",dest->ptr.s);
 	str_copy_buf(str_at(repl, 0), str_at(dest, start), str_type(repl) | (str_type(dest) << STR_COPY_DEST), str_len(repl));
 //	iprintf("%s\n",dest->ptr.s);
-	int remaining = str_len(str)-start-count;
 	if (remaining > 0)
 		str_copy_buf(str_at(str, start+count), str_at(dest, start + str_len(repl)), str_type(str) | (str_type(dest) << STR_COPY_DEST), remaining);
 //	iprintf("%s\n",dest->ptr.s);
 	
-	dest->len = start + str_len(repl) + (remaining > 0 ? remaining : 0);
+	dest->len = start + repl_len + remaining;
 	stack_push(&p->stack, (struct stack_entry){VAR_STRING, {.ptr = dest}});
 }
 
-- 
2.43.0


From 21b5488614cbd31f531fdd56bab2559568713742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:17 +0000
Subject: [PATCH 06/37] fix: VAL read past the end of empty and one character
 strings

---
 source/interpreter/strfuncs.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/interpreter/strfuncs.c b/source/interpreter/strfuncs.c
index c84ffb5..b0a6913 100644
--- a/source/interpreter/strfuncs.c
+++ b/source/interpreter/strfuncs.c
@@ -61,9 +61,9 @@ void func_val(struct ptc* p){
 //	bool negate = false;
 	fixp v;
 
-	u8 first_char = num_str[0];
+	u8 first_char = len > 0 ? num_str[0] : 0;
 	if (first_char == '&'){
-		u8 second_char = num_str[1];
+		u8 second_char = len > 1 ? num_str[1] : 0;
 		int base = 0;
 		if (second_char == 'H'){
 			base = 16; // parse as hex
-- 
2.43.0


From 06a29672c87d356107c3b666821b1a4653e89e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:17 +0000
Subject: [PATCH 07/37] fix: INSTR with a negative start read before the string

---
 source/interpreter/strfuncs.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/interpreter/strfuncs.c b/source/interpreter/strfuncs.c
index b0a6913..c416803 100644
--- a/source/interpreter/strfuncs.c
+++ b/source/interpreter/strfuncs.c
@@ -104,6 +104,7 @@ void func_instr(struct ptc* p){
 	struct stack_entry* string = stack_pop(s);
 	void* str = value_str(string);
 	void* sub = value_str(substring);
+	if (start < 0) ERROR(ERR_OUT_OF_RANGE);
 	
 	int len_string = str_len(str);
 	int len_substring = str_len(sub);
-- 
2.43.0


From f61a1e04600144092e47d8fdf14a2f98379d29b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:17 +0000
Subject: [PATCH 08/37] fix: ASC and other single character reads of wide
 strings (MEM$) return the character code

---
 source/interpreter/strs.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/interpreter/strs.c b/source/interpreter/strs.c
index fa0aa17..a711fd4 100644
--- a/source/interpreter/strs.c
+++ b/source/interpreter/strs.c
@@ -531,14 +531,14 @@ u16 str_at_char(const void* src, const u16 index){
 		case STRING_CHAR:
 			return s->ptr.s[index];
 		case STRING_WIDE:
-			return s->ptr.w[index];
+			return to_char(s->ptr.w[index]);
 		case BC_LABEL_STRING:
 		case BC_LABEL:
 		case BC_STRING:
 		case STRING_INLINE_CHAR:
 			return ((u8*)src)[2+index];
 		case STRING_INLINE_WIDE:
-			return ((u16*)src)[1+index];
+			return to_char(((u16*)src)[1+index]);
 		default:
 			iprintf("Unimplemented/Not a valid string type! (str_at_char)\n");
 			abort();
-- 
2.43.0


From d76ae75d0728d0d33216f8fab105b6ffc2b5c8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:07 +0000
Subject: [PATCH 09/37] fix: running out of string memory reports Out of memory
 instead of dereferencing NULL

---
 source/extension/sbc_memory.c  | 1 +
 source/interpreter/data.c      | 7 +++++--
 source/interpreter/operators.c | 3 +++
 source/interpreter/strfuncs.c  | 5 +++++
 source/subsystem/background.c  | 1 +
 source/subsystem/console.c     | 2 ++
 source/subsystem/resources.c   | 3 +++
 source/subsystem/sysvars.c     | 2 ++
 8 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/source/extension/sbc_memory.c b/source/extension/sbc_memory.c
index 1752027..cc411d4 100644
--- a/source/extension/sbc_memory.c
+++ b/source/extension/sbc_memory.c
@@ -300,6 +300,7 @@ void func_addr(struct ptc* p){
 
 void func_ptr(struct ptc* p){
 	struct string* out_str = get_new_str(&p->strs);
+	if (!out_str) ERROR(ERR_OUT_OF_MEMORY);
 	
 	fixp ptr = STACK_REL_NUM(-1);
 	--p->stack.stack_i;
diff --git a/source/interpreter/data.c b/source/interpreter/data.c
index a384d64..a9840a7 100644
--- a/source/interpreter/data.c
+++ b/source/interpreter/data.c
@@ -16,8 +16,10 @@ int read_one_u8(struct ptc* p, const u8* src, size_t len, struct stack_entry* de
 	if (dest->type == (VAR_VARIABLE | VAR_STRING)){
 		// Create new string
 		struct string* s = get_new_str(&p->strs);
-		// Remove a use if variable had a string aleady
-		value_str(dest);
+		if (!s){
+			p->exec.error = ERR_OUT_OF_MEMORY;
+			return READ_ONE_ERR;
+		}
 		
 		// create destination and copy characters
 		for (; i < len && src[i] != BC_DATA_DELIM; ++i){
@@ -104,6 +106,7 @@ void cmd_read(struct ptc* p){
 		
 		int read = read_one_u8(p, data_src, block_size - p->exec.data_offset, ARG(i));
 		if (read == READ_ONE_ERR){
+			if (p->exec.error) return; // specific error was already set
 			ERROR(ERR_READ_FAILURE);
 		}
 		p->exec.data_offset += read;
diff --git a/source/interpreter/operators.c b/source/interpreter/operators.c
index 65bbba5..fbd62d6 100644
--- a/source/interpreter/operators.c
+++ b/source/interpreter/operators.c
@@ -31,6 +31,7 @@ void op_add(struct ptc* p){
 	} else {
 		// The value_str function checks uses to get the next string
 		struct string* z = get_new_str(&p->strs);
+		if (!z) ERROR(ERR_OUT_OF_MEMORY);
 		struct string* x = value_str(a);
 		struct string* y = value_str(b);
 		z->uses = 1;
@@ -77,6 +78,7 @@ void op_mult(struct ptc* p){
 		
 		// must be done first to keep uses correct
 		struct string* y = get_new_str(&p->strs);
+		if (!y) ERROR(ERR_OUT_OF_MEMORY);
 		struct string* x = value_str(a);
 		
 		y->uses = 1;
@@ -171,6 +173,7 @@ void op_assign(struct ptc* p){
 			if (src == &p->res.mem_str){
 				// For MEM specifically, we need to copy the characters to a new string
 				// TODO:IMPL:LOW Handle extra characters better
+				if (!new_alloc) ERROR(ERR_OUT_OF_MEMORY);
 				str_copy(src, new_alloc);
 				++new_alloc->uses;
 				*dest = new_alloc;
diff --git a/source/interpreter/strfuncs.c b/source/interpreter/strfuncs.c
index c416803..1899798 100644
--- a/source/interpreter/strfuncs.c
+++ b/source/interpreter/strfuncs.c
@@ -24,6 +24,7 @@ void func_mid(struct ptc* p){
 	
 	// Must be done first to ensure uses are kept correctly
 	struct string* dest = get_new_str(&p->strs);
+	if (!dest) ERROR(ERR_OUT_OF_MEMORY);
 	
 	int start;
 	int len;
@@ -84,6 +85,7 @@ void func_str(struct ptc* p){
 	fixp n = STACK_REL_NUM(-1);
 	
 	struct string* s = get_new_str(&p->strs);
+	if (!s) ERROR(ERR_OUT_OF_MEMORY);
 	
 	fixp_to_str(n, s);
 	s->uses = 1;
@@ -157,6 +159,7 @@ void func_chr(struct ptc* p){
 void func_subst(struct ptc* p){
 	// Note: must be allocated here to ensure use count of str, repl are included
 	struct string* dest = get_new_str(&p->strs);
+	if (!dest) ERROR(ERR_OUT_OF_MEMORY);
 
 	// argument validation
 	int start;
@@ -205,6 +208,7 @@ void _func_substring(struct ptc* p, bool right){
 
 	// Must be done first to ensure uses are kept correctly
 	struct string* dest = get_new_str(&p->strs);
+	if (!dest) ERROR(ERR_OUT_OF_MEMORY);
 
 	int count;
 
@@ -245,6 +249,7 @@ void func_hex(struct ptc* p){
 	
 	// Must be done first to ensure uses are kept correctly
 	struct string* dest = get_new_str(&p->strs);
+	if (!dest) ERROR(ERR_OUT_OF_MEMORY);
 	
 	int num;
 	int digits = 0;
diff --git a/source/subsystem/background.c b/source/subsystem/background.c
index a023580..d83c003 100644
--- a/source/subsystem/background.c
+++ b/source/subsystem/background.c
@@ -228,6 +228,7 @@ void cmd_bgread(struct ptc* p){
 			*tile = INT_TO_FP(tiledata);
 		} else {
 			struct string* dest = get_new_str(&p->strs);
+			if (!dest) ERROR(ERR_OUT_OF_MEMORY);
 			void** tile = ARG(3)->value.ptr; // pointer to string (which is itself a pointer)
 //			fixp_to_str(INT_TO_FP(tiledata), dest);
 			dest->ptr.s[0] = hex_digits[(tiledata & 0xF000) >> 12];
diff --git a/source/subsystem/console.c b/source/subsystem/console.c
index 08e9ba6..2b85027 100644
--- a/source/subsystem/console.c
+++ b/source/subsystem/console.c
@@ -378,6 +378,7 @@ void cmd_input(struct ptc* p){
 			} else if (e->type == (VAR_STRING | VAR_VARIABLE)){
 				if (c == ',' || c == '\0' || out_i >= CONSOLE_WIDTH){
 					struct string* s = get_new_str(&p->strs);
+					if (!s) ERROR(ERR_OUT_OF_MEMORY);
 					
 					if (*(void**)e->value.ptr != NULL && **(char**)e->value.ptr == STRING_CHAR){
 						(*(struct string**)e->value.ptr)->uses--;
@@ -440,6 +441,7 @@ void cmd_linput(struct ptc* p){
 
 	// Now store the result to a new string
 	struct string* s = get_new_str(&p->strs);
+	if (!s) ERROR(ERR_OUT_OF_MEMORY);
 	
 	if (*(void**)e->value.ptr != NULL && **(char**)e->value.ptr == STRING_CHAR){
 		(*(struct string**)e->value.ptr)->uses--;
diff --git a/source/subsystem/resources.c b/source/subsystem/resources.c
index 1f93206..36c0daa 100644
--- a/source/subsystem/resources.c
+++ b/source/subsystem/resources.c
@@ -896,6 +896,7 @@ void cmd_chrinit(struct ptc* p){
 void cmd_chrread(struct ptc* p){
 	// CHRREAD resource$ id var$
 	struct string* dest = get_new_str(&p->strs);
+	if (!dest) ERROR(ERR_OUT_OF_MEMORY);
 	// Note: If uses is never set to 1, then this string is available for taking again
 	// (no resource cleanup needed here)
 	void* res_str = value_str(ARG(0));
@@ -1216,6 +1217,7 @@ void sys_result(struct ptc* p){
 
 void sys_package(struct ptc* p){
 	struct string* str = get_new_str(&p->strs);
+	if (!str) ERROR(ERR_OUT_OF_MEMORY);
 	str->type = STRING_CHAR;
 	str->uses = 1;
 	int i = 0;
@@ -1235,6 +1237,7 @@ void sys_package(struct ptc* p){
 
 void sys_prgname(struct ptc* p){
 	struct string* str = get_new_str(&p->strs);
+	if (!str) ERROR(ERR_OUT_OF_MEMORY);
 	str->type = STRING_CHAR;
 	str->uses = 1;
 	str->len = strlen(p->res.prgname);
diff --git a/source/subsystem/sysvars.c b/source/subsystem/sysvars.c
index 5fd0eb4..d5c0350 100644
--- a/source/subsystem/sysvars.c
+++ b/source/subsystem/sysvars.c
@@ -47,6 +47,7 @@ void sys_date(struct ptc* p){
 	int year = tm->tm_year + 1900;
 	
 	struct string* str = get_new_str(&p->strs);
+	if (!str) ERROR(ERR_OUT_OF_MEMORY);
 	str->type = STRING_CHAR;
 	str->uses = 1;
 	str->len = 10;
@@ -75,6 +76,7 @@ void sys_time(struct ptc* p){
 	int sec = tm->tm_sec;
 	
 	struct string* str = get_new_str(&p->strs);
+	if (!str) ERROR(ERR_OUT_OF_MEMORY);
 	str->type = STRING_CHAR;
 	str->uses = 1;
 	str->len = 8;
-- 
2.43.0


From 20562862d8f1cdfe8ef3bf137e1ef718808aa325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:07 +0000
Subject: [PATCH 10/37] fix: READ releases the string previously held by the
 destination variable

---
 source/interpreter/data.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/source/interpreter/data.c b/source/interpreter/data.c
index a9840a7..99ed89b 100644
--- a/source/interpreter/data.c
+++ b/source/interpreter/data.c
@@ -30,6 +30,11 @@ int read_one_u8(struct ptc* p, const u8* src, size_t len, struct stack_entry* de
 		str_copy_buf(src, (void*)s->ptr.s, STR_COPY_SRC_8 | (str_type(s) << STR_COPY_DEST), i - start);
 		s->len = i - start;
 		
+		// Remove a use if variable had a string aleady
+		struct string* old = *(struct string**)dest->value.ptr;
+		if (is_dyn_str(old)){
+			old->uses--;
+		}
 		// Assign new string to variable
 		(*(struct string**)dest->value.ptr) = s;
 		s->uses = 1;
-- 
2.43.0


From 557d82bf2b3af6181297d47f90bc181e85053d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:43 +0000
Subject: [PATCH 11/37] fix: number literals above 1048575 wrapped around
 instead of reporting Overflow

---
 source/interpreter/tokens.c | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/source/interpreter/tokens.c b/source/interpreter/tokens.c
index 5b6a3f5..5143052 100644
--- a/source/interpreter/tokens.c
+++ b/source/interpreter/tokens.c
@@ -772,11 +772,9 @@ int tok_code(struct tokenizer* state){
 				
 			number_common:
 //				iprintf("full: %lx\n", n);
-				if (((n >> 31) & 0x1) != ((uint64_t)n >> 63)){
-					if (n >= 0x080000000l && n <= 0x0ffffffff && state->tokens[i].type == number){
-						// this is not an error for &H or &B, but is for number
-						return ERR_OVERFLOW;
-					}
+				if (n > 0x07fffffffl && state->tokens[i].type == number){
+					// this is not an error for &H or &B, but is for number
+					return ERR_OVERFLOW;
 				}
 				if (n >= 0 && n < INT_TO_FP(100) && n == (n & (fixp)0xfffff000)){
 					data[(*size)++] = BC_SMALL_NUMBER;
-- 
2.43.0


From 5794aea46901de82fd8c2da260fa2a1d0389f4fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:22 +0000
Subject: [PATCH 12/37] fix: assignment that runs out of string memory released
 the old string it still refers to

---
 source/interpreter/operators.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/source/interpreter/operators.c b/source/interpreter/operators.c
index fbd62d6..499f812 100644
--- a/source/interpreter/operators.c
+++ b/source/interpreter/operators.c
@@ -153,6 +153,11 @@ void op_assign(struct ptc* p){
 		assert(*dest); // must contain a valid string already
 		// char dest_old_type = (*dest)->type;
 		
+		if (!new_alloc && src->type != STRING_CHAR
+			&& (src->type != STRING_WIDE || src == &p->res.mem_str)){
+			ERROR(ERR_OUT_OF_MEMORY); // failed to alloc string; dest keeps its value
+		}
+		
 		if (is_dyn_str(*dest)){
 			// dest is dynamic: we replace it here, so reduce uses count
 			(*dest)->uses--;
@@ -163,9 +168,6 @@ void op_assign(struct ptc* p){
 			*dest = src;
 			(*dest)->uses++;
 		} else if (src->type == BC_STRING){
-			if (!new_alloc) {
-				ERROR(ERR_OUT_OF_MEMORY); // failed to alloc string
-			}
 			str_copy(src, new_alloc);
 			++new_alloc->uses;
 			*dest = new_alloc;
@@ -173,7 +175,6 @@ void op_assign(struct ptc* p){
 			if (src == &p->res.mem_str){
 				// For MEM specifically, we need to copy the characters to a new string
 				// TODO:IMPL:LOW Handle extra characters better
-				if (!new_alloc) ERROR(ERR_OUT_OF_MEMORY);
 				str_copy(src, new_alloc);
 				++new_alloc->uses;
 				*dest = new_alloc;
-- 
2.43.0


From 353e0b405249e0c290847f350bb3a359f375635d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:22 +0000
Subject: [PATCH 13/37] fix: SWAP with MEM$ made the other variable an alias of
 MEM$, and number swaps wrote past system variables

---
 source/subsystem/variables.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/source/subsystem/variables.c b/source/subsystem/variables.c
index f40f36e..6e9499c 100644
--- a/source/subsystem/variables.c
+++ b/source/subsystem/variables.c
@@ -11,6 +11,22 @@ void cmd_swap(struct ptc* p){
 	// Note that swap is swapping values, but those values depend on types
 	struct stack_entry* a = ARG(0);
 	struct stack_entry* b = ARG(1);
+	if (a->type == b->type && a->type & VAR_NUMBER){
+		// system variables only have space for the number itself
+		fixp n = *(fixp*)a->value.ptr;
+		*(fixp*)a->value.ptr = *(fixp*)b->value.ptr;
+		*(fixp*)b->value.ptr = n;
+		return;
+	}
+	if (a->value.ptr == b->value.ptr) return;
+	if (a->value.ptr == &p->res.mem_ptr || b->value.ptr == &p->res.mem_ptr){
+		// MEM$ has its own text, so the other variable receives a copy of it
+		struct string* copy = get_new_str(&p->strs);
+		if (!copy) ERROR(ERR_OUT_OF_MEMORY);
+		str_copy(&p->res.mem_str, copy);
+		copy->uses = 1;
+		p->res.mem_ptr = copy;
+	}
 	union value c;
 	memcpy(&c, a->value.ptr, sizeof(union value)); // copies from pointed-to number or string
 	memcpy(a->value.ptr, b->value.ptr, sizeof(union value));
-- 
2.43.0


From 6a44c34ad823b3e621f8f1fa490c181b62834843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:02 +0000
Subject: [PATCH 14/37] fix: array sizes beyond the array memory (negative, or
 a product above 32 bits) were accepted

---
 source/interpreter/arrays.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/source/interpreter/arrays.c b/source/interpreter/arrays.c
index dad69ca..54f0f53 100644
--- a/source/interpreter/arrays.c
+++ b/source/interpreter/arrays.c
@@ -27,13 +27,14 @@ void free_mem_arr(struct arrays* a){
 
 void* get_init_new_arr(struct arrays* a, u32 size1, u32 size2, int type){
 	u32* new_arr = (u32*)&((union value*)a->arr_data)[a->arr_data_next];
-	int size = size1;
+	uint64_t total = size1; // the product of two sizes can exceed 32 bits
 	if (size2 != ARR_DIM2_UNUSED){
-		size *= size2;
+		total *= size2;
 	}
-	if (a->arr_data_next + size + 2 >= a->arr_data_size){
+	if (a->arr_data_next + total + 2 >= a->arr_data_size){
 		return NULL; // not enough memory for this
 	}
+	int size = total;
 	a->arr_data_next += size + 2;
 	new_arr[0] = size1;
 	new_arr[1] = size2;
-- 
2.43.0


From 99afeb7b510b375361f14decf5cc8c0ca5ff105e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:02 +0000
Subject: [PATCH 15/37] fix: second subscript of -1, or any on a 1D array,
 accessed memory outside the array

---
 source/interpreter/runner.c | 14 +++++++++++---
 source/interpreter/vars.c   | 11 ++++++++---
 2 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/source/interpreter/runner.c b/source/interpreter/runner.c
index 40a9d51..591b4df 100644
--- a/source/interpreter/runner.c
+++ b/source/interpreter/runner.c
@@ -160,6 +160,14 @@ struct var_name read_var_name(struct bytecode* b, idx index){
 	return result;
 }
 
+/// Second subscript of an array access or DIM, or ARR_DIM2_UNUSED if there is only one.
+/// Negative values are never valid, but must not be mistaken for ARR_DIM2_UNUSED.
+static inline idx second_subscript(struct ptc* p){
+	if (p->exec.argcount != 2) return ARR_DIM2_UNUSED;
+	int subscript = STACK_REL_INT(-1);
+	return subscript < 0 ? ARR_DIM2_UNUSED - 1 : (idx)subscript;
+}
+
 /// The big interpreter function.
 /// 
 /// Takes a chunk of bytecode stored in code and runs it.
@@ -320,7 +328,7 @@ ITCM_CODE void _run(struct bytecode code, struct ptc* p, bool init_exec) {
 				} else {
 					// array element
 					idx a = (r->argcount == 2) ? STACK_REL_INT(-2) : STACK_REL_INT(-1);
-					idx b = (r->argcount == 2) ? (idx)STACK_REL_INT(-1) : ARR_DIM2_UNUSED;
+					idx b = second_subscript(p);
 					p->stack.stack_i -= r->argcount;
 					
 					union value* entry = get_arr_entry_via_ptr(&p->vars, &v->value, a, b, v->type);
@@ -370,7 +378,7 @@ ITCM_CODE void _run(struct bytecode code, struct ptc* p, bool init_exec) {
 					x = &v->value;
 				} else {
 					idx a = (r->argcount == 2) ? STACK_REL_INT(-2) : STACK_REL_INT(-1);
-					idx b = (r->argcount == 2) ? (idx)STACK_REL_INT(-1) : ARR_DIM2_UNUSED;
+					idx b = second_subscript(p);
 					p->stack.stack_i -= r->argcount;
 					
 					union value* val = get_arr_entry(&p->vars, var.name, var.len, var.type | VAR_ARRAY, a, b);
@@ -396,7 +404,7 @@ ITCM_CODE void _run(struct bytecode code, struct ptc* p, bool init_exec) {
 			case BC_DIM:
 				{
 				idx a = (r->argcount == 2) ? STACK_REL_INT(-2) : STACK_REL_INT(-1);
-				idx b = (r->argcount == 2) ? (idx)STACK_REL_INT(-1) : ARR_DIM2_UNUSED;
+				idx b = second_subscript(p);
 				p->stack.stack_i -= r->argcount;
 				
 				iprintf("name=");
diff --git a/source/interpreter/vars.c b/source/interpreter/vars.c
index 4d082ce..ea3f9a7 100644
--- a/source/interpreter/vars.c
+++ b/source/interpreter/vars.c
@@ -165,10 +165,15 @@ union value* get_arr_entry_via_ptr(struct variables* v, union value* arr, u32 ix
 		}
 	}
 	// array exists and is stored in ptr
+	u32 size_y = arr_size(arr->ptr, ARR_DIM2);
+	if (size_y == ARR_DIM2_UNUSED){
+		size_y = 1; // 1D array
+	}
+	if (iy == ARR_DIM2_UNUSED){
+		iy = 0;
+	}
 	if (ix < arr_size(arr->ptr, ARR_DIM1)){
-		if (iy == ARR_DIM2_UNUSED){
-			return arr_entry(arr->ptr, ix, 0);
-		} else if (iy < arr_size(arr->ptr, ARR_DIM2)){
+		if (iy < size_y){
 			return arr_entry(arr->ptr, ix, iy);
 		} else {
 			v->error = ERR_SUBSCRIPT_OUT_OF_RANGE_Y;
-- 
2.43.0


From 9d8b433999ac1a36b41c649e5ef5ffcc10c94dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:11 +0000
Subject: [PATCH 16/37] fix: DIM without enough array memory reports Out of
 memory, and a past array error no longer fails later DIMs

---
 source/interpreter/runner.c | 8 ++++----
 source/interpreter/tokens.c | 2 +-
 source/interpreter/vars.c   | 9 +++++++--
 3 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/source/interpreter/runner.c b/source/interpreter/runner.c
index 591b4df..2fb9c4b 100644
--- a/source/interpreter/runner.c
+++ b/source/interpreter/runner.c
@@ -410,8 +410,8 @@ ITCM_CODE void _run(struct bytecode code, struct ptc* p, bool init_exec) {
 				iprintf("name=");
 				if (data >= 'A'){
 					iprintf("%c ", data);
-					get_new_arr_var(&p->vars, &data, 1, VAR_NUMBER | VAR_ARRAY, a, b);
-					r->error = p->vars.error;
+					if (!get_new_arr_var(&p->vars, &data, 1, VAR_NUMBER | VAR_ARRAY, a, b))
+						r->error = p->vars.error;
 				} else {
 					char* x = (char*)&r->code.data[r->index];
 					iprintf("%.*s", data, x);
@@ -420,8 +420,8 @@ ITCM_CODE void _run(struct bytecode code, struct ptc* p, bool init_exec) {
 					enum types t = x[(u8)data-1] == '$' ? VAR_STRING : VAR_NUMBER;
 					u32 len = t & VAR_NUMBER ? data : data-1;
 					
-					get_new_arr_var(&p->vars, x, len, t | VAR_ARRAY, a, b);
-					r->error = p->vars.error;
+					if (!get_new_arr_var(&p->vars, x, len, t | VAR_ARRAY, a, b))
+						r->error = p->vars.error;
 				}
 				
 				iprintf(" dim=%d,%d", (int)a, (int)b);
diff --git a/source/interpreter/tokens.c b/source/interpreter/tokens.c
index 5143052..dcd277f 100644
--- a/source/interpreter/tokens.c
+++ b/source/interpreter/tokens.c
@@ -839,7 +839,7 @@ int tok_code(struct tokenizer* state){
 					if (is_array_type) t |= VAR_ARRAY;
 					
 					struct named_var* v = get_var(&state->system->vars, &state->source->data[state->tokens[i].ofs], len, t);
-					if (state->system->vars.error != ERR_NONE){
+					if (!v){
 						return state->system->vars.error;
 					}
 //					iprintf("var %p: type=%d name=%s data=%d\n", (void*)v, v->type, v->name, v->value.number);
diff --git a/source/interpreter/vars.c b/source/interpreter/vars.c
index ea3f9a7..e226bea 100644
--- a/source/interpreter/vars.c
+++ b/source/interpreter/vars.c
@@ -92,7 +92,12 @@ struct named_var* get_new_arr_var(struct variables* v, char* name, u32 len, enum
 	// Or if value was CLEARed, so it is OK to re-generate array
 	if (var->type == VAR_EMPTY
 		|| (v->clear_values && var->value.ptr == NULL)){
-		++v->var_count;
+		void* arr = get_init_new_arr(v->arrs, dim1, dim2, type);
+		if (!arr){
+			v->error = ERR_OUT_OF_MEMORY;
+			return NULL;
+		}
+		if (var->type == VAR_EMPTY) ++v->var_count;
 		// set var type
 		var->type = type;
 		
@@ -105,7 +110,7 @@ struct named_var* get_new_arr_var(struct variables* v, char* name, u32 len, enum
 		}
 		
 		// set var ptr
-		var->value.ptr = get_init_new_arr(v->arrs, dim1, dim2, type);
+		var->value.ptr = arr;
 		return var;
 	} else {
 		// array already exists!
-- 
2.43.0


From 54f3f00ab927526860de99e1147bcf958c929d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:00 +0000
Subject: [PATCH 17/37] fix: SORT and RSORT left two element parts unsorted

---
 source/subsystem/variables.c | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/source/subsystem/variables.c b/source/subsystem/variables.c
index 6e9499c..ca949be 100644
--- a/source/subsystem/variables.c
+++ b/source/subsystem/variables.c
@@ -55,10 +55,6 @@ typedef bool(*comparison)(union value, union value);
 // based on
 // https://en.wikipedia.org/wiki/Quicksort?useskin=monobook#cite_ref-:2_13-2
 int _partition(union value* data, union value** extra, int start, int end, comparison comp){
-	if (end - start <= 1){
-		return start; // already sorted
-	}
-
 	union value pivot = data[start+(end - start)/2]; // select a random pivot
 	--start;
 	++end;
@@ -70,7 +66,7 @@ int _partition(union value* data, union value** extra, int start, int end, compa
 		do {
 			--end;
 		} while (comp(pivot, data[end]));
-		if (start >= end) return start;
+		if (start >= end) return end;
 
 		_sort_swap(data, extra, start, end);
 	}
@@ -115,7 +111,7 @@ bool str_rsort_comp(union value a, union value b){
 
 void quick_sort(union value* data, union value** extra, int start, int end, comparison comp){
 	// https://en.wikipedia.org/wiki/Quicksort?useskin=monobook#Hoare_partition_scheme
-	if (end - start <= 1) return;
+	if (start >= end) return;
 
 	int p = _partition(data, extra, start, end, comp);
 	quick_sort(data, extra, start, p, comp);
-- 
2.43.0


From bbcf5ff5ccd8faebb4057487c699820773881916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:09 +0000
Subject: [PATCH 18/37] fix: SORT and RSORT crashed on arrays not dimensioned
 yet, or without an array

---
 source/subsystem/variables.c | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/source/subsystem/variables.c b/source/subsystem/variables.c
index ca949be..663df80 100644
--- a/source/subsystem/variables.c
+++ b/source/subsystem/variables.c
@@ -118,8 +118,18 @@ void quick_sort(union value* data, union value** extra, int start, int end, comp
 	quick_sort(data, extra, p + 1, end, comp);
 }
 
+// Array passed as argument i; not dimensioned yet means default size, like any other access
+static inline union value* _sort_array(struct ptc* p, int i){
+	struct stack_entry* e = ARG(i);
+	void** arr = e->value.ptr;
+	if (!*arr){
+		*arr = get_init_new_arr(&p->arrs, 10, ARR_DIM2_UNUSED, e->type);
+	}
+	return *arr;
+}
+
 /// @note Does not correctly handle permuting the same array as is being sorted!
-void _cmd_sort_shared(struct ptc* p, comparison comp){
+void _cmd_sort_shared(struct ptc* p, comparison num_comp, comparison str_comp){
 	int start;
 	int size;
 	union value* extra[MAX_SORT_ARRAYS] = {0};
@@ -127,7 +137,11 @@ void _cmd_sort_shared(struct ptc* p, comparison comp){
 		ERROR(ERR_SYNTAX); // 32 is max number of arrays
 	}
 	// SORT start, size, arr, [arr1, arr2, ...]
-	union value* data = *(void**)stack_get(&p->stack, 2)->value.ptr;
+	if (p->stack.stack_i < 3){
+		ERROR(ERR_WRONG_ARG_COUNT);
+	}
+	union value* data = _sort_array(p, 2);
+	if (!data) ERROR(ERR_OUT_OF_MEMORY);
 //	iprintf("%p\n", (void*)data);
 	int array_min_size = arr_size(data, ARR_DIM1);
 	// In concept this is fine but PTC doesn't allow it
@@ -135,7 +149,8 @@ void _cmd_sort_shared(struct ptc* p, comparison comp){
 		ERROR(ERR_SORT_2D);
 	}
 	for (int k = 3; k < p->stack.stack_i; ++k){
-		extra[k-3] = *(union value**)stack_get(&p->stack, k)->value.ptr;
+		extra[k-3] = _sort_array(p, k);
+		if (!extra[k-3]) ERROR(ERR_OUT_OF_MEMORY);
 		if ((int)arr_size(extra[k-3], ARR_DIM1) < array_min_size){
 			array_min_size = arr_size(extra[k-3], ARR_DIM1);
 		}
@@ -155,13 +170,13 @@ void _cmd_sort_shared(struct ptc* p, comparison comp){
 
 	// now, begin sort
 	// +2 to skip dimension info stored in array memory
-	quick_sort(data+2, extra, start, start + size - 1, comp);
+	quick_sort(data+2, extra, start, start + size - 1, ARG(2)->type & VAR_STRING ? str_comp : num_comp);
 }
 
 void cmd_sort(struct ptc* p){
-	_cmd_sort_shared(p, ARG(2)->type & VAR_STRING ? str_sort_comp : fixp_sort_comp);
+	_cmd_sort_shared(p, fixp_sort_comp, str_sort_comp);
 }
 
 void cmd_rsort(struct ptc* p){
-	_cmd_sort_shared(p, ARG(2)->type & VAR_STRING ? str_rsort_comp : fixp_rsort_comp);
+	_cmd_sort_shared(p, fixp_rsort_comp, str_rsort_comp);
 }
-- 
2.43.0


From 97b2fa87649dc48aa307a2dee1b5640da0484a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:15 +0000
Subject: [PATCH 19/37] fix: a FOR loop that is skipped no longer stays active

---
 source/interpreter/runner.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/interpreter/runner.c b/source/interpreter/runner.c
index 2fb9c4b..beef7ec 100644
--- a/source/interpreter/runner.c
+++ b/source/interpreter/runner.c
@@ -522,6 +522,8 @@ ITCM_CODE void _run(struct bytecode code, struct ptc* p, bool init_exec) {
 					}
 					// index now points to one past the NEXT, the correct location
 					r->index = result.index;
+					// the loop is already over, so NEXT must not find it anymore
+					p->calls.stack_i--;
 				} else {
 					// execution continues as normal into the loop
 				}
-- 
2.43.0


From 24f5c2f5d81210e5bd2ca611b3e6424fd43b9cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:15 +0000
Subject: [PATCH 20/37] fix: NEXT of an outer loop does not test the inner
 loop's variable

---
 source/interpreter/flow.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/source/interpreter/flow.c b/source/interpreter/flow.c
index 38cae71..a11ba7f 100644
--- a/source/interpreter/flow.c
+++ b/source/interpreter/flow.c
@@ -136,8 +136,10 @@ void cmd_next(struct ptc* p){
 			p->calls.entry[i] = p->calls.entry[i+1];
 		}
 	} else {
-		// loop continues, jump back to this point
-		p->exec.index = to_start;
+		// loop continues, jump back to the loop body
+		// (the condition was just checked; checking it again in BC_BEGIN_LOOP
+		// would use the innermost loop, which may not be this one)
+		p->exec.index = to_start + to_size + BC_INSTR_SIZE;
 	}
 	// NEXT should clear stack when done
 	p->stack.stack_i = 0;
-- 
2.43.0


From c0a42b857d232092d685b102c88a472e3eee85a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:51 +0000
Subject: [PATCH 21/37] fix: RETURN inside a loop without GOSUB; GOSUB to a
 missing label

---
 source/interpreter/flow.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/source/interpreter/flow.c b/source/interpreter/flow.c
index a11ba7f..98007ba 100644
--- a/source/interpreter/flow.c
+++ b/source/interpreter/flow.c
@@ -235,6 +235,9 @@ void cmd_goto_gosub(struct ptc* p, bool push_return){
 	}
 	// Search code for label
 	u32 index = search_label(p, label);
+	if (p->exec.error){
+		return; // label was not found
+	}
 	
 	if (push_return){
 		if (p->calls.stack_i == CALL_STACK_SIZE-1){
@@ -271,7 +274,7 @@ void cmd_return(struct ptc* p){
 		if (p->calls.entry[--stack_i].type == CALL_GOSUB){
 			break;
 		}
-		if (stack_i < 0){
+		if (stack_i <= 0){
 			// did not find GOSUB anywhere in stack
 			p->exec.error = ERR_RETURN_WITHOUT_GOSUB;
 			return;
-- 
2.43.0


From 439664ae2443540926ac71dd6ae16689fb03164e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:51 +0000
Subject: [PATCH 22/37] fix: label names in strings may have any length

---
 source/interpreter/label.c | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/source/interpreter/label.c b/source/interpreter/label.c
index 6580785..f86922a 100644
--- a/source/interpreter/label.c
+++ b/source/interpreter/label.c
@@ -106,19 +106,19 @@ idx search_label(struct ptc* p, void* label){
 	// Labels must always be located at the beginning of a line.
 	idx index = 0;
 
-	u8 buf[MAX_LABEL_SIZE+1]; // +1 to include the @ symbol in cases of strings
+	u8 buf[MAX_LABEL_SIZE+2] = {0}; // +2 to include the @ symbol in cases of strings and the terminator
 	char* buf_ptr = (char*)buf;
 	int len = str_len(label);
-	if (*(char*)label == BC_LABEL || *(char*)label == BC_LABEL_STRING){
-		assert(len <= 16);
-		str_char_copy(label, buf);
-	} else { // assume regular string
-		assert(len <= 17);
-		str_char_copy(label, buf);
-		++buf_ptr; // pointer past '@'
-		--len; // remove '@'
+	// labels in strings start with '@'
+	int skip = *(char*)label == BC_LABEL || *(char*)label == BC_LABEL_STRING ? 0 : 1;
+	len -= skip;
+	if (len < 0 || len > MAX_LABEL_SIZE){
+		// too short or too long to be the name of any label
+		p->exec.error = ERR_LABEL_NOT_FOUND;
+		return p->exec.code.size;
 	}
-	assert(len <= 16);
+	str_char_copy(label, buf);
+	buf_ptr += skip; // pointer past '@'
 	iprintf("[find=%s, %d]\n", buf_ptr, len);
 	index = label_index(&p->exec.code.labels, buf_ptr, len);
 	if (index == LABEL_NOT_FOUND){
-- 
2.43.0


From f2dec3d8c9edb32d51abfda1337fc89099fe10b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:34 +0000
Subject: [PATCH 23/37] fix: READ of more variables than data is left; numbers
 in DATA with spaces or many digits

---
 source/interpreter/data.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/source/interpreter/data.c b/source/interpreter/data.c
index 99ed89b..e82933a 100644
--- a/source/interpreter/data.c
+++ b/source/interpreter/data.c
@@ -39,7 +39,6 @@ int read_one_u8(struct ptc* p, const u8* src, size_t len, struct stack_entry* de
 		(*(struct string**)dest->value.ptr) = s;
 		s->uses = 1;
 	} else if (dest->type == (VAR_VARIABLE | VAR_NUMBER)){
-		u8 conversion[16] = {0}; // this buffer size is very arbitrary
 		// skip leading spaces, but only for numbers
 		// strings may contain spaces when quoted
 		while (i < len && src[i] == ' '){
@@ -48,24 +47,24 @@ int read_one_u8(struct ptc* p, const u8* src, size_t len, struct stack_entry* de
 		if (i >= len){
 			return READ_ONE_ERR;
 		}
+		start = i;
 		// Read number!
-		for (; i < len && i - start < 16; ++i){
+		for (; i < len; ++i){
 			u8 c = src[i];
 			if (is_number(c) || c == '-' || c == '.'){
-				conversion[i - start] = c;
+				iprintf(":%c", c);
 			} else if (c == BC_DATA_DELIM){ 
 				break; // stop reading here
 			} else {
 				return READ_ONE_ERR;
 			}
-			iprintf(":%c", conversion[i - start]);
 		}
 		// Convert!
-		*((fixp*)dest->value.ptr) = u8_to_num(conversion, i - start);
+		*((fixp*)dest->value.ptr) = u8_to_num((u8*)src + start, i - start);
 	} else {
 		return READ_ONE_ERR;
 	}
-	return i - start;
+	return i;
 }
 
 // Finds and sets the data index to the next available slot
@@ -104,6 +103,9 @@ void cmd_read(struct ptc* p){
 	iprintf("READ from: ");
 	// Iterate over variables on stack
 	for (int i = 0; i < p->stack.stack_i; ++i){
+		if (p->exec.data_index == BC_SCAN_NOT_FOUND){
+			ERROR(ERR_OUT_OF_DATA); // not enough data for every variable
+		}
 		block_size = data_block[1];
 		iprintf("src=%d size=%d", (int)p->exec.data_index, block_size);
 		iprintf(" data=\"%.*s\"", block_size, &data_block[DATA_DATA_OFS + p->exec.data_offset]);
-- 
2.43.0


From 451ff18cc13c082d664446f6749fd97d5ed25479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:35 +0000
Subject: [PATCH 24/37] fix: minus after a hexadecimal literal subtracts, minus
 after [ negates

---
 source/interpreter/tokens.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/source/interpreter/tokens.c b/source/interpreter/tokens.c
index dcd277f..5f046da 100644
--- a/source/interpreter/tokens.c
+++ b/source/interpreter/tokens.c
@@ -1218,12 +1218,14 @@ void tok_prio(struct tokenizer* state){
 					state->tokens[i].prio = nest + 4;
 					break;
 				case OP_SUBTRACT:
-					if ((i>0 && state->tokens[i-1].type == number) ||
+					if (i>0 && (state->tokens[i-1].type == number ||
+							state->tokens[i-1].type == base_number ||
 							state->tokens[i-1].type == name ||
 							state->tokens[i-1].type == sysvar || 
 							(state->tokens[i-1].type == operation && (
-								state->tokens[i-1].cmd > OP_OPEN_PAREN
-							))){
+								state->tokens[i-1].cmd == OP_CLOSE_PAREN ||
+								state->tokens[i-1].cmd == OP_CLOSE_BRACKET
+							)))){
 						state->tokens[i].prio = nest + 4;
 					} else {
 						state->tokens[i].cmd = OP_NEGATE;
-- 
2.43.0


From a30c8ef13c919508c7fc1f98e576c2d092e29044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:08 +0000
Subject: [PATCH 25/37] fix: names longer than 16 and string literals longer
 than 255 characters overflowed

---
 source/interpreter/tokens.c | 14 +++++++++++---
 source/interpreter/tokens.h |  2 +-
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/source/interpreter/tokens.c b/source/interpreter/tokens.c
index 5f046da..49b5308 100644
--- a/source/interpreter/tokens.c
+++ b/source/interpreter/tokens.c
@@ -1278,7 +1278,7 @@ void tok_with_condition(struct tokenizer* state, bool(*condition)(char)){
 	state->tokens[state->token_i].ofs = state->cursor;
 	char c;
 	do {
-		state->tokens[state->token_i].len++;
+		if (state->tokens[state->token_i].len < 255) state->tokens[state->token_i].len++;
 		state->cursor++;
 		c = state->source->data[state->cursor];
 	} while (condition(c));
@@ -1317,7 +1317,7 @@ int tok_none(struct tokenizer* state){
 		//whitespace is ignored
 		state->cursor++;
 	} else if (c == '"'){
-		tok_string(state);
+		return tok_string(state);
 	} else if (c == '&') {
 		tok_base_number(state);
 	} else if (is_number(c) || c == '.') {
@@ -1399,13 +1399,19 @@ int tok_name(struct tokenizer* state){
 	} else if (0 <= (index = tok_in_str_index(sysvars, state->source->data, &state->tokens[state->token_i]))){
 		state->tokens[state->token_i].type = sysvar;
 		state->tokens[state->token_i].cmd = index; // overrides len
+	} else {
+		// name of a variable: up to 16 characters and the type suffix
+		struct token* t = &state->tokens[state->token_i];
+		if (t->len - (state->source->data[t->ofs + t->len - 1] == '$') > 16){
+			err = ERR_SYNTAX;
+		}
 	}
 	
 	state->token_i++;
 	return err;
 }
 
-void tok_string(struct tokenizer* state){
+int tok_string(struct tokenizer* state){
 //	iprintf("Entered string %d\n", state->cursor);
 	if (state->source->data[state->cursor] == '"'){
 		state->cursor++;
@@ -1416,6 +1422,7 @@ void tok_string(struct tokenizer* state){
 	state->tokens[state->token_i].ofs = state->cursor;
 	while (state->source->data[state->cursor] != '"' &&
 			state->source->data[state->cursor] != '\r'){
+		if (state->tokens[state->token_i].len == 255) return ERR_STRING_TOO_LONG;
 		state->tokens[state->token_i].len++;
 		state->cursor++;
 	}
@@ -1424,6 +1431,7 @@ void tok_string(struct tokenizer* state){
 	}
 	state->token_i++;
 //	iprintf("Exited string %d\n", state->token_i);
+	return ERR_NONE;
 }
 
 void tok_base_number(struct tokenizer* state){
diff --git a/source/interpreter/tokens.h b/source/interpreter/tokens.h
index 9fc917a..bb1f4bc 100644
--- a/source/interpreter/tokens.h
+++ b/source/interpreter/tokens.h
@@ -123,7 +123,7 @@ int tok_none(struct tokenizer* state);
 
 int tok_name(struct tokenizer* state);
 
-void tok_string(struct tokenizer* state);
+int tok_string(struct tokenizer* state);
 
 void tok_number(struct tokenizer* state);
 
-- 
2.43.0


From 2fcff9090fbac48ad8cdd40ec31f584e01ab0ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:49 +0000
Subject: [PATCH 26/37] fix: error at the end of a line dropped the next line;
 & without H or B read past the line

---
 source/interpreter/tokens.c | 33 +++++++++++++++++++++++----------
 source/interpreter/tokens.h |  4 ++--
 2 files changed, 25 insertions(+), 12 deletions(-)

diff --git a/source/interpreter/tokens.c b/source/interpreter/tokens.c
index 49b5308..2d90d21 100644
--- a/source/interpreter/tokens.c
+++ b/source/interpreter/tokens.c
@@ -257,7 +257,12 @@ int tokenize_full(struct program* src, struct bytecode* out, void* system, int o
 			state.output->data[state.output->size++] = BC_ERROR;
 			state.output->data[state.output->size++] = error;
 			iprintf("Error at: %d\n", (int)state.output->size);
-			while (state.source->data[state.cursor++] != '\r');
+			// skip the rest of the line (the error may be at its end)
+			if (state.cursor == (u32)old_cursor || state.source->data[state.cursor-1] != '\r'){
+				while (state.cursor < state.source->size && state.source->data[state.cursor++] != '\r');
+			}
+			state.is_comment = false;
+			state.state = TKR_NONE;
 			error = ERR_NONE;
 			state.token_i = 0;
 			continue;
@@ -284,7 +289,7 @@ int tokenize_full(struct program* src, struct bytecode* out, void* system, int o
 			int line_view = state.cursor - old_cursor;
 			line_view = line_view > 31 ? 31 : line_view;
 			memcpy(state.system->exec.error_info, &state.source->data[old_cursor], line_view);
-			state.system->exec.error_info[line_view+1] = '\0';
+			state.system->exec.error_info[line_view] = '\0';
 		}
 		iprintf("tokenize error: %s\n", error_messages[error]);
 	}
@@ -1319,9 +1324,9 @@ int tok_none(struct tokenizer* state){
 	} else if (c == '"'){
 		return tok_string(state);
 	} else if (c == '&') {
-		tok_base_number(state);
+		return tok_base_number(state);
 	} else if (is_number(c) || c == '.') {
-		tok_number(state);
+		return tok_number(state);
 	} else if (c == ',' || c == ';' || c == '+' || c == '-' || c == '*' || c == '/' || c == '%' ||
 			c == '(' || c == ')' || c == '[' || c == ']'){
 		tok_single(state, operation);
@@ -1434,27 +1439,35 @@ int tok_string(struct tokenizer* state){
 	return ERR_NONE;
 }
 
-void tok_base_number(struct tokenizer* state){
+int tok_base_number(struct tokenizer* state){
 	state->tokens[state->token_i].type = base_number;
 	state->tokens[state->token_i].len = 2;
 	state->tokens[state->token_i].ofs = state->cursor;
-	state->cursor += 2;
-	do {
+	state->cursor++;
+	if (state->source->data[state->cursor] != 'H' && state->source->data[state->cursor] != 'B'){
+		return ERR_SYNTAX;
+	}
+	state->cursor++;
+	while (is_number(state->source->data[state->cursor])
+	         || (state->source->data[state->cursor] >= 'A' && state->source->data[state->cursor] <= 'F')){
+		if (state->tokens[state->token_i].len == 255) return ERR_SYNTAX;
 		state->tokens[state->token_i].len++;
 		state->cursor++;
-	} while (is_number(state->source->data[state->cursor])
-	         || (state->source->data[state->cursor] >= 'A' && state->source->data[state->cursor] <= 'F'));
+	}
 	state->token_i++;
+	return ERR_NONE;
 }
 
-void tok_number(struct tokenizer* state){
+int tok_number(struct tokenizer* state){
 	state->tokens[state->token_i].type = number;
 	state->tokens[state->token_i].len = 0;
 	state->tokens[state->token_i].ofs = state->cursor;
 	do {
+		if (state->tokens[state->token_i].len == 255) return ERR_SYNTAX;
 		state->tokens[state->token_i].len++;
 		state->cursor++;
 	} while (is_number(state->source->data[state->cursor]) || state->source->data[state->cursor] == '.');
 	state->token_i++;
+	return ERR_NONE;
 }
 
diff --git a/source/interpreter/tokens.h b/source/interpreter/tokens.h
index bb1f4bc..9c60e6a 100644
--- a/source/interpreter/tokens.h
+++ b/source/interpreter/tokens.h
@@ -125,7 +125,7 @@ int tok_name(struct tokenizer* state);
 
 int tok_string(struct tokenizer* state);
 
-void tok_number(struct tokenizer* state);
+int tok_number(struct tokenizer* state);
 
 int tok_convert(struct tokenizer* state);
 
@@ -141,7 +141,7 @@ bool check_cmd(const char* stack, int stack_len, const char* valid);
 /// Returns error code
 int tok_test(struct tokenizer* state);
 
-void tok_base_number(struct tokenizer* state);
+int tok_base_number(struct tokenizer* state);
 
 // debug
 void print_token(struct tokenizer* state, struct token t);
-- 
2.43.0


From 12a06ddc429e271395fc495822bb7431ddec0e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:11 +0000
Subject: [PATCH 27/37] fix: long lines, deep parentheses and unmatched )
 overflowed the tokenizer's tables

---
 source/interpreter/tokens.c | 21 ++++++++++++++++-----
 source/interpreter/tokens.h |  2 +-
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/source/interpreter/tokens.c b/source/interpreter/tokens.c
index 2d90d21..7323753 100644
--- a/source/interpreter/tokens.c
+++ b/source/interpreter/tokens.c
@@ -326,7 +326,8 @@ int tok_convert(struct tokenizer* state){
 	
 	tok_prio(state);
 	
-	tok_eval(state);
+	int eval_res = tok_eval(state);
+	if (eval_res != ERR_NONE) return eval_res;
 	
 	int test_res = tok_test(state);
 	if (test_res != ERR_NONE) return test_res;
@@ -454,7 +455,7 @@ bool check_cmd(const char* stack, int stack_len, const char* valid){
 
 int tok_test(struct tokenizer* state){
 	// This is argument count and argument type validation.
-	char stack[40];
+	char stack[TOKENS_LINE_MAX+1]; // every token adds at most one
 	u8 stack_i = 0;
 	int argc = 0;
 	stack[0] = 0; // Fixes undefined reads detected via -fanalyzer
@@ -549,6 +550,7 @@ int tok_test(struct tokenizer* state){
 				break;
 				
 			case function:
+				if (argc > stack_i) return ERR_TEST_FUNCTION;
 				if (argc){
 					stack_i -= argc;
 				}
@@ -567,6 +569,7 @@ int tok_test(struct tokenizer* state){
 				
 			case array_name:
 			case name:
+				if (argc > stack_i) return ERR_TEST_ARRAY;
 				if (argc){
 					// process argc counts first
 					const char* arr_valid = "N,NN";
@@ -589,6 +592,7 @@ int tok_test(struct tokenizer* state){
 				break;
 				
 			case dim_arr:
+				if (argc > stack_i) return ERR_TEST_ARRAY;
 				if (argc){
 					// process argc counts first
 					const char* dim_valid = "N,NN";
@@ -964,10 +968,10 @@ struct eval {
 	struct token* op_stack[100];
 	u8 op_i;
 	/// Arguments stack
-	u8 argc_stack[64];
+	u8 argc_stack[TOKENS_LINE_MAX+1];
 	u8 argc_i;
 	// reordered tokens for conversion
-	struct token result[100];
+	struct token result[2*TOKENS_LINE_MAX];
 	u8 result_i; // first unused entry
 };
 
@@ -987,7 +991,7 @@ void tok_eval_clean_stack(struct eval* e, u16 prio){
 // This one is infinitely less bad than than the PTC-EmkII attempt. :)
 // That one was awful. Go look at it if you want to laugh at bad code.
 // I'm still amazed it worked in the end.
-void tok_eval(struct tokenizer* state){
+int tok_eval(struct tokenizer* state){
 	struct eval e = {0};
 	bool is_for = false;
 	bool is_dim = false;
@@ -1030,6 +1034,7 @@ void tok_eval(struct tokenizer* state){
 					}
 				}
 			} else { // assumed ) or ]
+				if (!e.argc_i) return ERR_SYNTAX; // nothing to close
 				// handle 0-args PI(), BUTTON() case
 				if (state->tokens[i-1].type == operation && state->tokens[i-1].cmd == OP_OPEN_PAREN){
 					e.argc_stack[e.argc_i] = 0;
@@ -1186,10 +1191,12 @@ void tok_eval(struct tokenizer* state){
 		print_token(state, e.result[i]);
 	}
 	
+	if (e.result_i > TOKENS_LINE_MAX) return ERR_SYNTAX; // line too long
 	for (size_t i = 0; i < e.result_i; ++i){
 		state->tokens[i] = e.result[i];
 	}
 	state->token_i = e.result_i;
+	return ERR_NONE;
 }
 
 // take one line (to /r) and calculate priorities of tokens
@@ -1308,6 +1315,10 @@ int tok_none(struct tokenizer* state){
 		return ERR_NONE;
 	}
 	
+	if (state->token_i >= TOKENS_LINE_MAX - 1 && c != ' '){
+		return ERR_SYNTAX; // line too long (one entry is left for its end)
+	}
+	
 	if (is_name_start(c)){
 		return tok_name(state);
 	} else if (c == '?'){
diff --git a/source/interpreter/tokens.h b/source/interpreter/tokens.h
index 9c60e6a..3217eca 100644
--- a/source/interpreter/tokens.h
+++ b/source/interpreter/tokens.h
@@ -131,7 +131,7 @@ int tok_convert(struct tokenizer* state);
 
 void tok_prio(struct tokenizer* state);
 
-void tok_eval(struct tokenizer* state);
+int tok_eval(struct tokenizer* state);
 
 int tok_code(struct tokenizer* state);
 
-- 
2.43.0


From b3d7affe1bd7ff9d452a53f02d8d7d7cac18f0ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:55 +0000
Subject: [PATCH 28/37] fix: a DATA line longer than 255 characters corrupted
 the program

---
 source/interpreter/tokens.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/source/interpreter/tokens.c b/source/interpreter/tokens.c
index 7323753..0dc28d1 100644
--- a/source/interpreter/tokens.c
+++ b/source/interpreter/tokens.c
@@ -663,6 +663,7 @@ int tok_data(struct tokenizer* state, struct token start_t, char* data, idx* siz
 //		++start;
 //	} // skip to first non-whitespace
 	int end = state->cursor;
+	int error = ERR_NONE;
 
 	data[(*size)++] = BC_DATA;
 	char* data_size = &data[(*size)++]; // write as copying characters
@@ -733,6 +734,10 @@ int tok_data(struct tokenizer* state, struct token start_t, char* data, idx* siz
 		}
 
 		// Add character to output
+		if ((u8)*data_size == 255){
+			error = ERR_STRING_TOO_LONG; // length is stored in one byte
+			break;
+		}
 		data[(*size)++] = c;
 		(*data_size)++;
 	}
@@ -742,7 +747,7 @@ int tok_data(struct tokenizer* state, struct token start_t, char* data, idx* siz
 	}
 
 	state->token_i = 0;
-	return ERR_NONE;
+	return error;
 	// End of DATA special rules
 }
 
@@ -759,7 +764,8 @@ int tok_code(struct tokenizer* state){
 				bool first_of_line = state->tokens[i].type == first_of_line_command;
 				state->tokens[i].type = command;
 				if (state->tokens[i].cmd == CMD_DATA){
-					tok_data(state, state->tokens[i], data, size);
+					int data_res = tok_data(state, state->tokens[i], data, size);
+					if (data_res != ERR_NONE) return data_res;
 				} else {
 					// convert token to command
 	//				iprintf("command: %d, %d\n", j, state->tokens[i].cmd);
-- 
2.43.0


From 90990c510a26c53326c8f590c7a06d08410b8185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:15 +0000
Subject: [PATCH 29/37] fix: literals of 128 or more characters moved execution
 backwards

---
 source/interpreter/runner.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/interpreter/runner.c b/source/interpreter/runner.c
index beef7ec..2abc296 100644
--- a/source/interpreter/runner.c
+++ b/source/interpreter/runner.c
@@ -192,8 +192,8 @@ ITCM_CODE void _run(struct bytecode code, struct ptc* p, bool init_exec) {
 	while (r->index < r->code.size && !p->exec.error){
 		// get one instruction and execute it
 		start_time(&p->time);
-		char instr = r->code.data[r->index++];
-		char data = r->code.data[r->index++];
+		u8 instr = r->code.data[r->index++];
+		u8 data = r->code.data[r->index++];
 		
 		iprintf("%c ", instr);
 		
@@ -410,7 +410,7 @@ ITCM_CODE void _run(struct bytecode code, struct ptc* p, bool init_exec) {
 				iprintf("name=");
 				if (data >= 'A'){
 					iprintf("%c ", data);
-					if (!get_new_arr_var(&p->vars, &data, 1, VAR_NUMBER | VAR_ARRAY, a, b))
+					if (!get_new_arr_var(&p->vars, (char*)&data, 1, VAR_NUMBER | VAR_ARRAY, a, b))
 						r->error = p->vars.error;
 				} else {
 					char* x = (char*)&r->code.data[r->index];
-- 
2.43.0


From 724033720ad442330f1816a5328bc6d865fde453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:09 +0000
Subject: [PATCH 30/37] fix: INPUT prompt at the end of the screen, full input
 lines, and strings held by INPUT/LINPUT variables

---
 source/subsystem/console.c | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/source/subsystem/console.c b/source/subsystem/console.c
index 2b85027..e6e05cb 100644
--- a/source/subsystem/console.c
+++ b/source/subsystem/console.c
@@ -238,7 +238,7 @@ u16* shared_input(struct ptc* p){
 		} else if ((keyboard == 15 || check_pressed(&p->input, BUTTON_ID_Y))){
 			// Copy characters back
 			if (out_index > 0){
-				for (int i = out_index-1; i < (int)out_index_max; ++i){
+				for (int i = out_index-1; i < (int)out_index_max-1; ++i){
 					outcol[i] = outcol[i+1];
 					output[i] = output[i+1];
 				}
@@ -248,7 +248,7 @@ u16* shared_input(struct ptc* p){
 		} else if (keyboard == 67){
 			// Copy characters back
 			if (out_index < out_index_max){
-				for (int i = out_index; i < (int)out_index_max; ++i){
+				for (int i = out_index; i < (int)out_index_max-1; ++i){
 					outcol[i] = outcol[i+1];
 					output[i] = output[i+1];
 				}
@@ -289,8 +289,10 @@ void con_prompt(struct console* con, void* prompt_str){
 	// Displays prompt string
 	if (prompt_str) // only display string if it exists
 		con_puts(con, prompt_str);
+	con_scroll(con); // previous text may have ended in the last column of the last line
 	con_put(con, to_wide('?'));
 	if (con->x) con_newline(con, true); // only newline if necessary for user to have full line of input
+	con_scroll(con);
 }
 
 void con_reprompt(struct console* con, void* prompt_str){
@@ -348,18 +350,19 @@ void cmd_input(struct ptc* p){
 			con_reprompt(con, prompt_str);
 			continue;
 		}
-		u8 conversion_copy[CONSOLE_WIDTH];
+		u8 conversion_copy[CONSOLE_WIDTH+1];
 		int prev_i = 0;
 		int out_i = 0;
 		
 		for (int i = 0; i < len; ){
 			struct stack_entry* e = ARG(index+i);
-			u8 c = to_char(output[out_i]);
+			// a line without any space left ends after its last character
+			u8 c = out_i < CONSOLE_WIDTH ? to_char(output[out_i]) : '\0';
 			conversion_copy[out_i++] = c;
 			if (e->type == (VAR_NUMBER | VAR_VARIABLE)){
 				// validate first entry is numeric
 				if (is_number(c) || c == '.' || c == '-'){
-				} else if (c == ',' || c == '\0' || c == ' ' || out_i >= CONSOLE_WIDTH){
+				} else if (c == ',' || c == '\0' || c == ' '){
 					// convert from previous to out_i
 					if (out_i - prev_i - 1 == 0){
 						valid = false;
@@ -376,18 +379,18 @@ void cmd_input(struct ptc* p){
 					break;
 				}
 			} else if (e->type == (VAR_STRING | VAR_VARIABLE)){
-				if (c == ',' || c == '\0' || out_i >= CONSOLE_WIDTH){
+				if (c == ',' || c == '\0'){
 					struct string* s = get_new_str(&p->strs);
 					if (!s) ERROR(ERR_OUT_OF_MEMORY);
 					
-					if (*(void**)e->value.ptr != NULL && **(char**)e->value.ptr == STRING_CHAR){
+					if (*(void**)e->value.ptr != NULL && is_dyn_str(*(struct string**)e->value.ptr)){
 						(*(struct string**)e->value.ptr)->uses--;
 					}
 					(*(struct string**)e->value.ptr) = s;
 					
 					// TODO:TEST:LOW Check that wide strings work here
 					bool require_wide = false;
-					for (int j = prev_i; j < out_i; ++j){
+					for (int j = prev_i; j < out_i - 1; ++j){
 						if (!is_char(output[j])){
 							require_wide = true;
 							break;
@@ -397,7 +400,7 @@ void cmd_input(struct ptc* p){
 					s->type = require_wide ? STRING_WIDE : STRING_CHAR;
 					s->uses = 1;
 					s->len = out_i - prev_i - 1;
-					for (int j = prev_i; j < out_i; ++j){
+					for (int j = prev_i; j < out_i - 1; ++j){
 						if (require_wide){
 							s->ptr.w[j - prev_i] = output[j];
 						} else {
@@ -437,13 +440,16 @@ void cmd_linput(struct ptc* p){
 	con_prompt(con, prompt_str);
 	
 	u16* output = shared_input(p);
-	if (p->exec.error) return;
+	if (p->exec.error){
+		con_newline(con, true);
+		return;
+	}
 
 	// Now store the result to a new string
 	struct string* s = get_new_str(&p->strs);
 	if (!s) ERROR(ERR_OUT_OF_MEMORY);
 	
-	if (*(void**)e->value.ptr != NULL && **(char**)e->value.ptr == STRING_CHAR){
+	if (*(void**)e->value.ptr != NULL && is_dyn_str(*(struct string**)e->value.ptr)){
 		(*(struct string**)e->value.ptr)->uses--;
 	}
 	(*(struct string**)e->value.ptr) = s;
-- 
2.43.0


From 51802c35f5f5817859cca381e1257c0919fe5873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:09 +0000
Subject: [PATCH 31/37] fix: wide codes that are no character were converted to
 other characters or read outside the tables (INKEY$)

---
 source/interpreter/strs.c | 5 +++--
 source/subsystem/input.c  | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/source/interpreter/strs.c b/source/interpreter/strs.c
index a711fd4..2eb7936 100644
--- a/source/interpreter/strs.c
+++ b/source/interpreter/strs.c
@@ -379,9 +379,10 @@ int to_char(u16 w){
 	} else if (wh == 0xff){
 		if (wl == 0x70) return 0xb0;
 		if (wl == 0xe5) return 0x5c;
-		return wl + 0x20; // TODO:IMPL:LOW returns some false values?
+		if (wl < 0x60) return wl + 0x20;
+		// others are not characters of PTC
 	} else if (wh == 0x30){
-		return katakana[wl] + 0xa1;
+		if (katakana[wl] != '?') return katakana[wl] + 0xa1;
 	}
 	iprintf("Error converting u16 to u8 char: 0x%x\n", w);
 	return -1;
diff --git a/source/subsystem/input.c b/source/subsystem/input.c
index 05273c9..1b9b192 100644
--- a/source/subsystem/input.c
+++ b/source/subsystem/input.c
@@ -198,7 +198,7 @@ void func_inkey(struct ptc* p){
 		return;
 	}
 	u16 inkey = get_inkey(i);
-	if (inkey){
+	if (inkey && is_char(inkey)){
 		//TODO:CODE:LOW Doesn't handle wide characters
 		stack_push(&p->stack, (struct stack_entry){VAR_STRING, {.ptr = &single_char_strs[3 * to_char(inkey)]}});
 	} else {
-- 
2.43.0


From 526ff4835091972224d27e434d187c89f61a54ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:55 +0000
Subject: [PATCH 32/37] fix: COLOR with a value outside 0-15 reports Out of
 range

---
 source/subsystem/console.c | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/source/subsystem/console.c b/source/subsystem/console.c
index e6e05cb..3acac3d 100644
--- a/source/subsystem/console.c
+++ b/source/subsystem/console.c
@@ -151,14 +151,13 @@ void cmd_print(struct ptc* p){
 
 void cmd_color(struct ptc* p){
 	struct console* c = &p->console;
+	int fg = c->col & COL_FG_MASK;
+	int bg = c->col >> 4;
+	STACK_INT_RANGE(0,0,15,fg);
 	if (p->stack.stack_i == 2){
-		c->col = 0;
-		c->col |= STACK_INT(0); // FG
-		c->col |= STACK_INT(1) << 4; // BG
-	} else if (p->stack.stack_i == 1){
-		c->col &= ~COL_FG_MASK; // clear FG value
-		c->col |= STACK_INT(0); // FG
+		STACK_INT_RANGE(1,0,15,bg);
 	}
+	c->col = fg | bg << 4;
 	p->stack.stack_i = 0;
 }
 
-- 
2.43.0


From cd92b79aba64624d0e3a51910676792d564ea227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:56 +0000
Subject: [PATCH 33/37] fix: GPUTCHR left out the top row of the screen

---
 source/subsystem/graphics.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/subsystem/graphics.c b/source/subsystem/graphics.c
index 2d6bc3b..925b2a3 100644
--- a/source/subsystem/graphics.c
+++ b/source/subsystem/graphics.c
@@ -271,7 +271,7 @@ void cmd_gputchr(struct ptc* p){
 					for (int j = 0; j < size; ++j){
 						int xp = x_start + x*size + j;
 						int yp = y_start + y*size + i;
-						if (col1 && xp >= 0 && xp < GRP_WIDTH && yp && yp < GRP_HEIGHT){
+						if (col1 && xp >= 0 && xp < GRP_WIDTH && yp >= 0 && yp < GRP_HEIGHT){
 							grp_pixel(dest, xp, yp, 16*pal+col1, p->graphics.drawmode);
 						}
 					}
@@ -280,7 +280,7 @@ void cmd_gputchr(struct ptc* p){
 					for (int j = 0; j < size; ++j){
 						int xp = x_start + x*size + j + size;
 						int yp = y_start + y*size + i;
-						if (col2 && xp >= 0 && xp < GRP_WIDTH && yp && yp < GRP_HEIGHT){
+						if (col2 && xp >= 0 && xp < GRP_WIDTH && yp >= 0 && yp < GRP_HEIGHT){
 							grp_pixel(dest, xp, yp, 16*pal+col2, p->graphics.drawmode);
 						}
 					}
-- 
2.43.0


From 34ec5079186a7953096d70514f5ac825a1274bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:13 +0000
Subject: [PATCH 34/37] fix: GPAINT failed when the fill colour counts as
 inside, and accessed memory outside the page for a start off the screen

---
 source/subsystem/graphics.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/source/subsystem/graphics.c b/source/subsystem/graphics.c
index 925b2a3..cda7061 100644
--- a/source/subsystem/graphics.c
+++ b/source/subsystem/graphics.c
@@ -450,8 +450,10 @@ void cmd_gcircle(struct ptc* p){
 // Based on "combined-scan-and-fill" algorithm listed at
 // https://en.wikipedia.org/wiki/Flood_fill?useskin=monobook
 // match: positive = only fill this color negative = fill any other color
-static inline bool inside(u8* data, int x, int y, int match){
+// c: fill color; pixels that already have it are never filled (again)
+static inline bool inside(u8* data, int x, int y, int match, int c){
 	if (x < 0 || x >= GRP_WIDTH || y < 0 || y >= GRP_HEIGHT) return 0;
+	if (data[grp_index(x,y)] == c) return 0;
 	
 	return match >= 0 ? (data[grp_index(x,y)] == match) : (data[grp_index(x,y)] != -match - 1); // matching first color
 }
@@ -489,6 +491,9 @@ void cmd_gpaint(struct ptc* p){
 		c = p->graphics.color;
 	}
 	u8* data = p->res.grp[p->graphics.info[p->graphics.screen].drawpage];
+	if (x < 0 || x >= GRP_WIDTH || y < 0 || y >= GRP_HEIGHT){
+		return; // starting point is not on the page
+	}
 
 	int match;
 	if (p->stack.stack_i > 3){
@@ -509,8 +514,8 @@ void cmd_gpaint(struct ptc* p){
 		PAINT_STACK_GET(x1, x2, y, dy);
 		
 		x = x1;
-		if (inside(data, x, y, match)){
-			while(inside(data, x-1, y, match)){
+		if (inside(data, x, y, match, c)){
+			while(inside(data, x-1, y, match, c)){
 				data[grp_index(x-1, y)] = c;
 				--x;
 			}
@@ -519,7 +524,7 @@ void cmd_gpaint(struct ptc* p){
 			}
 		}
 		while(x1 <= x2){
-			while(inside(data, x1, y, match)){
+			while(inside(data, x1, y, match, c)){
 				data[grp_index(x1, y)] = c;
 				++x1;
 			}
@@ -530,7 +535,7 @@ void cmd_gpaint(struct ptc* p){
 				PAINT_STACK_ADD(x2 + 1, x1 - 1, y - dy, -dy);
 			}
 			++x1;
-			while (x1 < x2 && !inside(data, x1, y, match)){
+			while (x1 < x2 && !inside(data, x1, y, match, c)){
 				++x1;
 			}
 			x = x1;
-- 
2.43.0


From e87d236fa8cdfd17c361c0fc529079eb1266792a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:34 +0000
Subject: [PATCH 35/37] fix: GBOX drew only two sides and GFILL nothing when
 the corners are not given top left first

---
 source/subsystem/graphics.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/source/subsystem/graphics.c b/source/subsystem/graphics.c
index cda7061..185df71 100644
--- a/source/subsystem/graphics.c
+++ b/source/subsystem/graphics.c
@@ -52,6 +52,15 @@ void cmd_gcls(struct ptc* p){
 	}
 }
 
+// Corners of a rectangle can be given in any order
+static inline void order_coords(int* a, int* b){
+	if (*a > *b){
+		int temp = *a;
+		*a = *b;
+		*b = temp;
+	}
+}
+
 void cmd_gfill(struct ptc* p){
 	//GFILL x1 y1 x2 y2 [c]
 	//TODO:ERR:LOW Check argument clamping accuracy
@@ -65,6 +74,8 @@ void cmd_gfill(struct ptc* p){
 	y1 = y1 < 0 ? 0 : y1 > GRP_HEIGHT ? GRP_HEIGHT : y1;
 	x2 = x2 < 0 ? 0 : x2 > GRP_WIDTH ? GRP_WIDTH : x2;
 	y2 = y2 < 0 ? 0 : y2 > GRP_HEIGHT ? GRP_HEIGHT : y2;
+	order_coords(&x1, &x2);
+	order_coords(&y1, &y2);
 	
 	if (p->stack.stack_i == 5){
 		STACK_INT_RANGE(4,0,255,color);
@@ -93,6 +104,8 @@ void cmd_gbox(struct ptc* p){
 	y1 = y1 < 0 ? 0 : y1 > GRP_HEIGHT ? GRP_HEIGHT : y1;
 	x2 = x2 < 0 ? 0 : x2 > GRP_WIDTH ? GRP_WIDTH : x2;
 	y2 = y2 < 0 ? 0 : y2 > GRP_HEIGHT ? GRP_HEIGHT : y2;
+	order_coords(&x1, &x2);
+	order_coords(&y1, &y2);
 	
 	if (p->stack.stack_i == 5){
 		int c = STACK_INT(4);
-- 
2.43.0


From 7a5dfce0ec2336ec78b29957ce973c032cd22941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:42 +0000
Subject: [PATCH 36/37] fix: GBOX and GFILL drew parts left of or above the
 screen on its edge

---
 source/subsystem/graphics.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/source/subsystem/graphics.c b/source/subsystem/graphics.c
index 185df71..80f128f 100644
--- a/source/subsystem/graphics.c
+++ b/source/subsystem/graphics.c
@@ -70,10 +70,10 @@ void cmd_gfill(struct ptc* p){
 	int y2 = STACK_INT(3);
 	u8 color;
 	
-	x1 = x1 < 0 ? 0 : x1 > GRP_WIDTH ? GRP_WIDTH : x1;
-	y1 = y1 < 0 ? 0 : y1 > GRP_HEIGHT ? GRP_HEIGHT : y1;
-	x2 = x2 < 0 ? 0 : x2 > GRP_WIDTH ? GRP_WIDTH : x2;
-	y2 = y2 < 0 ? 0 : y2 > GRP_HEIGHT ? GRP_HEIGHT : y2;
+	x1 = x1 < 0 ? -1 : x1 > GRP_WIDTH ? GRP_WIDTH : x1;
+	y1 = y1 < 0 ? -1 : y1 > GRP_HEIGHT ? GRP_HEIGHT : y1;
+	x2 = x2 < 0 ? -1 : x2 > GRP_WIDTH ? GRP_WIDTH : x2;
+	y2 = y2 < 0 ? -1 : y2 > GRP_HEIGHT ? GRP_HEIGHT : y2;
 	order_coords(&x1, &x2);
 	order_coords(&y1, &y2);
 	
@@ -100,10 +100,10 @@ void cmd_gbox(struct ptc* p){
 	int y2 = STACK_INT(3);
 	u8 color;
 	
-	x1 = x1 < 0 ? 0 : x1 > GRP_WIDTH ? GRP_WIDTH : x1;
-	y1 = y1 < 0 ? 0 : y1 > GRP_HEIGHT ? GRP_HEIGHT : y1;
-	x2 = x2 < 0 ? 0 : x2 > GRP_WIDTH ? GRP_WIDTH : x2;
-	y2 = y2 < 0 ? 0 : y2 > GRP_HEIGHT ? GRP_HEIGHT : y2;
+	x1 = x1 < 0 ? -1 : x1 > GRP_WIDTH ? GRP_WIDTH : x1;
+	y1 = y1 < 0 ? -1 : y1 > GRP_HEIGHT ? GRP_HEIGHT : y1;
+	x2 = x2 < 0 ? -1 : x2 > GRP_WIDTH ? GRP_WIDTH : x2;
+	y2 = y2 < 0 ? -1 : y2 > GRP_HEIGHT ? GRP_HEIGHT : y2;
 	order_coords(&x1, &x2);
 	order_coords(&y1, &y2);
 	
-- 
2.43.0


From 117fb524e120d33d3a05f9e216f16bef4b5148c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:03 +0000
Subject: [PATCH 37/37] fix: GPAINT starting on a border pixel filled the area
 above it

---
 source/subsystem/graphics.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/subsystem/graphics.c b/source/subsystem/graphics.c
index 80f128f..006f38a 100644
--- a/source/subsystem/graphics.c
+++ b/source/subsystem/graphics.c
@@ -516,6 +516,9 @@ void cmd_gpaint(struct ptc* p){
 	} else {
 		match = data[grp_index(x,y)];
 	}
+	if (!inside(data, x, y, match, c)){
+		return; // nothing to fill here
+	}
 	int stack_i = 0;
 	u32 stack[PAINT_STACK_MAX];
 	
-- 
2.43.0

