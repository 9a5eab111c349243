From cc6826b7c80b8daea99562ca95b4f710a7d40f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:49 +0000
Subject: [PATCH 001/119] fix: arena allocations account for alignment padding
 (blocks could overlap and run past the arena)

---
 base/dependencies/memory.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/base/dependencies/memory.cpp b/base/dependencies/memory.cpp
index 8c32c81..3cfa370 100644
--- a/base/dependencies/memory.cpp
+++ b/base/dependencies/memory.cpp
@@ -348,7 +348,8 @@ void* arena_allocator_proc( void* allocator_data, AllocType type, ssize size, ss
 		case EAllocation_ALLOC :
 		{
 			void* end        = pointer_add( arena->PhysicalStart, arena->TotalUsed );
-			ssize total_size = align_forward_s64( size, alignment );
+			ssize padding    = pointer_diff( end, align_forward( end, alignment ) );
+			ssize total_size = padding + align_forward_s64( size, alignment );
 
 			// NOTE: Out of memory
 			if ( arena->TotalUsed + total_size > (ssize) arena->TotalSize )
-- 
2.43.0


From 285748ab4777208ef1426596aefe5394318257bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:18 +0000
Subject: [PATCH 002/119] fix: array insertion writes the items into the
 array's storage (append_items, append_at, append_items_at, reserve)

---
 base/dependencies/containers.hpp | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/base/dependencies/containers.hpp b/base/dependencies/containers.hpp
index 6418ce5..c85b6cd 100644
--- a/base/dependencies/containers.hpp
+++ b/base/dependencies/containers.hpp
@@ -189,7 +189,7 @@ bool array_append_items(Array<Type>* array, Type* items, usize item_num)
 		header = array_get_header(* array);
 	}
 
-	mem_copy((Type*)array + header->Num, items, item_num * sizeof(Type));
+	mem_copy(array->Data + header->Num, items, item_num * sizeof(Type));
 	header->Num += item_num;
 
 	return true;
@@ -204,7 +204,7 @@ bool array_append_at(Array<Type>* array, Type item, usize idx)
 
 	ssize slot = idx;
 	if (slot >= (ssize)(header->Num))
-		slot = header->Num - 1;
+		slot = header->Num;
 
 	if (slot < 0)
 		slot = 0;
@@ -220,6 +220,7 @@ bool array_append_at(Array<Type>* array, Type item, usize idx)
 	Type* target = &(*array)[slot];
 
 	mem_move(target + 1, target, (header->Num - slot) * sizeof(Type));
+	*target = item;
 	header->Num++;
 
 	return true;
@@ -230,23 +231,23 @@ bool array_append_items_at(Array<Type>* array, Type* items, usize item_num, usiz
 {
 	GEN_ASSERT(  array != nullptr);
 	GEN_ASSERT(* array != nullptr);
-	ArrayHeader* header = get_header(array);
+	ArrayHeader* header = array_get_header(* array);
 
 	if (idx >= header->Num)
 	{
 		return array_append_items(array, items, item_num);
 	}
 
-	if (item_num > header->Capacity)
+	if (header->Num + item_num > header->Capacity)
 	{
-		if (! grow(array, header->Capacity + item_num))
+		if (! array_grow(array, header->Capacity + item_num))
 			return false;
 
-		header = get_header(array);
+		header = array_get_header(* array);
 	}
 
-	Type* target = array.Data + idx + item_num;
-	Type* src    = array.Data + idx;
+	Type* target = array->Data + idx + item_num;
+	Type* src    = array->Data + idx;
 
 	mem_move(target, src, (header->Num - idx) * sizeof(Type));
 	mem_copy(src, items, item_num * sizeof(Type));
@@ -355,10 +356,10 @@ bool array_reserve(Array<Type>* array, usize new_capacity)
 {
 	GEN_ASSERT(  array != nullptr);
 	GEN_ASSERT(* array != nullptr);
-	ArrayHeader* header = array_get_header(array);
+	ArrayHeader* header = array_get_header(* array);
 
 	if (header->Capacity < new_capacity)
-		return set_capacity(array, new_capacity);
+		return array_set_capacity(array, new_capacity);
 
 	return true;
 }
-- 
2.43.0


From 33b670018c335ba72fefe2b4bf2959ea8c2bdfdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:08 +0000
Subject: [PATCH 003/119] fix: hash table remove, rehash and iteration call the
 existing functions

---
 base/dependencies/containers.hpp | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/base/dependencies/containers.hpp b/base/dependencies/containers.hpp
index c85b6cd..4edf9a4 100644
--- a/base/dependencies/containers.hpp
+++ b/base/dependencies/containers.hpp
@@ -578,7 +578,7 @@ void hashtable_map(HashTable<Type> table, void (*map_proc)(u64 key, Type value))
 	GEN_ASSERT_NOT_NULL(table.Entries);
 	GEN_ASSERT_NOT_NULL(map_proc);
 
-	for (ssize idx = 0; idx < ssize(num(table.Entries)); ++idx) {
+	for (ssize idx = 0; idx < ssize(array_num(table.Entries)); ++idx) {
 		map_proc(table.Entries[idx].Key, table.Entries[idx].Value);
 	}
 }
@@ -589,7 +589,7 @@ void hashtable_map_mut(HashTable<Type> table, void (*map_proc)(u64 key, Type* va
 	GEN_ASSERT_NOT_NULL(table.Entries);
 	GEN_ASSERT_NOT_NULL(map_proc);
 
-	for (ssize idx = 0; idx < ssize(num(table.Entries)); ++idx) {
+	for (ssize idx = 0; idx < ssize(array_num(table.Entries)); ++idx) {
 		map_proc(table.Entries[idx].Key, & table.Entries[idx].Value);
 	}
 }
@@ -640,19 +640,19 @@ void hashtable_rehash_fast(HashTable<Type> table)
 	GEN_ASSERT_NOT_NULL(table.Entries);
 	ssize idx;
 
-	for (idx = 0; idx < ssize(num(table.Entries)); idx++)
+	for (idx = 0; idx < ssize(array_num(table.Entries)); idx++)
 		table.Entries[idx].Next = -1;
 
-	for (idx = 0; idx < ssize(num(table.Hashes)); idx++)
+	for (idx = 0; idx < ssize(array_num(table.Hashes)); idx++)
 		table.Hashes[idx] = -1;
 
-	for (idx = 0; idx < ssize(num(table.Entries)); idx++)
+	for (idx = 0; idx < ssize(array_num(table.Entries)); idx++)
 	{
 		HashTableEntry<Type>* entry;
 		HashTableFindResult find_result;
 
 		entry = &table.Entries[idx];
-		find_result = find(table, entry->Key);
+		find_result = hashtable__find(table, entry->Key);
 
 		if (find_result.PrevIndex < 0)
 			table.Hashes[find_result.HashIndex] = idx;
@@ -665,11 +665,11 @@ template<typename Type> forceinline
 void hashtable_remove(HashTable<Type> table, u64 key) {
 	GEN_ASSERT_NOT_NULL(table.Hashes);
 	GEN_ASSERT_NOT_NULL(table.Entries);
-	HashTableFindResult find_result = find(table, key);
+	HashTableFindResult find_result = hashtable__find(table, key);
 
 	if (find_result.EntryIndex >= 0) {
-		remove_at(table.Entries, find_result.EntryIndex);
-		rehash_fast(table);
+		array_remove_at(table.Entries, find_result.EntryIndex);
+		hashtable_rehash_fast(table);
 	}
 }
 
@@ -677,7 +677,7 @@ template<typename Type> forceinline
 void hashtable_remove_entry(HashTable<Type> table, ssize idx) {
 	GEN_ASSERT_NOT_NULL(table.Hashes);
 	GEN_ASSERT_NOT_NULL(table.Entries);
-	remove_at(table.Entries, idx);
+	array_remove_at(table.Entries, idx);
 }
 
 template<typename Type> inline
@@ -718,7 +718,7 @@ template<typename Type> forceinline
 ssize hashtable_slot(HashTable<Type> table, u64 key) {
 	GEN_ASSERT_NOT_NULL(table.Hashes);
 	GEN_ASSERT_NOT_NULL(table.Entries);
-	for (ssize idx = 0; idx < ssize(num(table.Hashes)); ++idx)
+	for (ssize idx = 0; idx < ssize(array_num(table.Hashes)); ++idx)
 		if (table.Hashes[idx] == key)
 			return idx;
 
-- 
2.43.0


From ca934b0e1c634581b6e11e7ee4e4318825a67cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:44 +0000
Subject: [PATCH 004/119] fix: string comparison sign, starts_with over the
 whole prefix, clear terminates the string

---
 base/dependencies/string_ops.hpp | 2 +-
 base/dependencies/strings.hpp    | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/base/dependencies/string_ops.hpp b/base/dependencies/string_ops.hpp
index 78fa555..dfb6fb4 100644
--- a/base/dependencies/string_ops.hpp
+++ b/base/dependencies/string_ops.hpp
@@ -137,7 +137,7 @@ s32 c_str_compare_len( const char* s1, const char* s2, ssize len )
 	for ( ; len > 0; s1++, s2++, len-- )
 	{
 		if ( *s1 != *s2 )
-			return ( ( s1 < s2 ) ? -1 : +1 );
+			return ( ( *( u8* )s1 < *( u8* )s2 ) ? -1 : +1 );
 		else if ( *s1 == '\0' )
 			return 0;
 	}
diff --git a/base/dependencies/strings.hpp b/base/dependencies/strings.hpp
index 866e944..3ed1ccb 100644
--- a/base/dependencies/strings.hpp
+++ b/base/dependencies/strings.hpp
@@ -470,6 +470,7 @@ ssize strbuilder_capacity(StrBuilder const str) {
 forceinline
 void strbuilder_clear(StrBuilder str) {
 	strbuilder_get_header(str)->Length = 0;
+	* scast(char*, str) = '\0';
 }
 
 forceinline
@@ -513,7 +514,7 @@ b32 strbuilder_starts_with_string(StrBuilder const str, StrBuilder substring) {
 	if (strbuilder_length(substring) > strbuilder_length(str))
 		return false;
 
-	b32 result = c_str_compare_len(str, substring, strbuilder_length(substring) - 1) == 0;
+	b32 result = c_str_compare_len(str, substring, strbuilder_length(substring)) == 0;
 	return result;
 }
 
-- 
2.43.0


From afcd2b61d0f8487bde8c06454bc8226da0571c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:40 +0000
Subject: [PATCH 005/119] fix: formatted printing stays inside the buffer it
 was given

---
 base/dependencies/printing.cpp | 34 ++++++++++++++++++++++------------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/base/dependencies/printing.cpp b/base/dependencies/printing.cpp
index 684f0ea..865421a 100644
--- a/base/dependencies/printing.cpp
+++ b/base/dependencies/printing.cpp
@@ -77,6 +77,7 @@ internal ssize _print_string( char* text, ssize max_len, _format_info* info, cha
 			ssize padding = info->width - len;
 
 			char pad = ( info->flags & GEN_FMT_ZERO ) ? '0' : ' ';
+			remaining -= res;
 			while ( padding-- > 0 && remaining-- > 0 )
 				*text++ = pad, res++;
 		}
@@ -98,10 +99,14 @@ internal ssize _print_string( char* text, ssize max_len, _format_info* info, cha
 
 	if ( info )
 	{
-		if ( info->flags & GEN_FMT_UPPER )
-			c_str_to_upper( begin );
-		else if ( info->flags & GEN_FMT_LOWER )
-			c_str_to_lower( begin );
+		ssize idx;
+		for ( idx = 0; idx < res; idx++ )
+		{
+			if ( info->flags & GEN_FMT_UPPER )
+				begin[idx] = char_to_upper( begin[idx] );
+			else if ( info->flags & GEN_FMT_LOWER )
+				begin[idx] = char_to_lower( begin[idx] );
+		}
 	}
 
 	return res;
@@ -118,6 +123,8 @@ internal ssize _print_repeated_char( char* text, ssize max_len, _format_info* in
 {
 	ssize  res = 0;
 	s32 rem = ( info ) ? ( info->width > 0 ) ? info->width : 1 : 1;
+	if ( rem > max_len )
+		rem = scast( s32, max_len );
 	res     = rem;
 	while ( rem-- > 0 )
 		*text++ = arg;
@@ -241,7 +248,7 @@ internal ssize _print_f64( char* text, ssize max_len, _format_info* info, b32 is
 neverinline ssize c_str_fmt_va( char* text, ssize max_len, char const* fmt, va_list va )
 {
 	char const* text_begin = text;
-	ssize          remaining  = max_len, res;
+	ssize          remaining  = max_len - 1, res; // NOTE: The null terminator always has room.
 
 	while ( *fmt )
 	{
@@ -249,8 +256,12 @@ neverinline ssize c_str_fmt_va( char* text, ssize max_len, char const* fmt, va_l
 		ssize        len  = 0;
 		info.precision    = -1;
 
-		while ( *fmt && *fmt != '%' && remaining )
-			*text++ = *fmt++;
+		while ( *fmt && *fmt != '%' )
+		{
+			if ( remaining > 0 )
+				*text++ = *fmt, remaining--;
+			fmt++;
+		}
 
 		if ( *fmt == '%' )
 		{
@@ -520,11 +531,10 @@ neverinline ssize c_str_fmt_va( char* text, ssize max_len, char const* fmt, va_l
 			}
 		}
 
-		text += len;
-		if ( len >= remaining )
-			remaining = min( remaining, 1 );
-		else
-			remaining -= len;
+		if ( len > remaining )
+			len = remaining;
+		text      += len;
+		remaining -= len;
 	}
 
 	*text++ = '\0';
-- 
2.43.0


From ef63c29f30ceb0d14039f73564c5ff28b0979a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:06 +0000
Subject: [PATCH 006/119] fix: the lexer looked and ran past the end of its
 text

---
 base/components/lexer.cpp | 133 ++++++++++++++++++++------------------
 1 file changed, 69 insertions(+), 64 deletions(-)

diff --git a/base/components/lexer.cpp b/base/components/lexer.cpp
index f501f70..712aafa 100644
--- a/base/components/lexer.cpp
+++ b/base/components/lexer.cpp
@@ -103,11 +103,10 @@ void lexer_end_line( LexContext* ctx )
 	while ( ctx->left && (* ctx->scanner) == ' ' )
 		move_forward();
 
-	if ( ctx->left && (* ctx->scanner) == '\r' ) {
+	if ( ctx->left && (* ctx->scanner) == '\r' )
 		move_forward();
-		move_forward();
-	}
-	else if ( ctx->left && (* ctx->scanner) == '\n' )
+
+	if ( ctx->left && (* ctx->scanner) == '\n' )
 		move_forward();
 }
 #define end_line() lexer_end_line(ctx)
@@ -172,11 +171,11 @@ s32 lex_preprocessor_define( LexContext* ctx )
 				skip_whitespace();
 				last_parameter = parameter;
 
-				while ( (* ctx->scanner) == '\\' ) {
+				while ( ctx->left && (* ctx->scanner) == '\\' ) {
 					move_forward();
 					skip_whitespace();
 				}
-				if (* ctx->scanner != ')' )
+				if ( ctx->left == 0 || * ctx->scanner != ')' )
 				{
 					log_failure("lex_preprocessor_define(%d, %d): Expected a ')' after '...' (varaidc macro param) %S\n"
 						, ctx->line
@@ -187,12 +186,12 @@ s32 lex_preprocessor_define( LexContext* ctx )
 				}
 				break;
 			}
-			else if ( (* ctx->scanner) == '\\' ) {
+			else if ( ctx->left && (* ctx->scanner) == '\\' ) {
 				move_forward();
 				skip_whitespace();
 				continue;
 			}
-			else if ( char_is_alpha( (* ctx->scanner) ) || (* ctx->scanner) == '_' )
+			else if ( ctx->left && ( char_is_alpha( (* ctx->scanner) ) || (* ctx->scanner) == '_' ) )
 			{
 				Token parameter = { { ctx->scanner, 1 }, Tok_Preprocess_Define_Param, ctx->line, ctx->column, TF_Preprocess };
 				move_forward();
@@ -215,11 +214,11 @@ s32 lex_preprocessor_define( LexContext* ctx )
 				return Lex_ReturnNull;
 			}
 
-			if (* ctx->scanner == ')' )
+			if ( ctx->left && * ctx->scanner == ')' )
 				break;
 
 			// There should be a comma
-			if ( * ctx->scanner != ',' ) {
+			if ( ctx->left == 0 || * ctx->scanner != ',' ) {
 				log_failure("lex_preprocessor_define(%d, %d): Expected a comma after parameter %S for %S\n"
 					, ctx->line
 					, ctx->column
@@ -233,7 +232,7 @@ s32 lex_preprocessor_define( LexContext* ctx )
 			move_forward();
 		}
 		
-		if ( * ctx->scanner != ')' ) {
+		if ( ctx->left == 0 || * ctx->scanner != ')' ) {
 			log_failure("lex_preprocessor_define(%d, %d): Expected a ')' after last_parameter %S for %S (ran out of characters...)\n"
 				, ctx->line
 				, ctx->column
@@ -303,13 +302,13 @@ s32 lex_preprocessor_directive( LexContext* ctx )
 				move_forward();
 				ctx->token.Text.Len++;
 
-				if ( (* ctx->scanner) == '\r' )
+				if ( ctx->left && (* ctx->scanner) == '\r' )
 				{
 					move_forward();
 					ctx->token.Text.Len++;
 				}
 
-				if ( (* ctx->scanner) == '\n' )
+				if ( ctx->left && (* ctx->scanner) == '\n' )
 				{
 					move_forward();
 					ctx->token.Text.Len++;
@@ -319,19 +318,19 @@ s32 lex_preprocessor_directive( LexContext* ctx )
 				{
 					log_failure( "gen::Parser::lex: Invalid escape sequence '\\%c' (%d, %d)"
 								" in preprocessor directive (%d, %d)\n%.100s"
-						, (* ctx->scanner), ctx->line, ctx->column
+						, ctx->left ? (* ctx->scanner) : ' ', ctx->line, ctx->column
 						, ctx->token.Line, ctx->token.Column, ctx->token.Text );
 					break;
 				}
 			}
 
-			if ( (* ctx->scanner) == '\r' )
+			if ( ctx->left && (* ctx->scanner) == '\r' )
 			{
 				move_forward();
 				ctx->token.Text.Len++;
 			}
 
-			if ( (* ctx->scanner) == '\n' )
+			if ( ctx->left && (* ctx->scanner) == '\n' )
 			{
 				move_forward();
 				ctx->token.Text.Len++;
@@ -377,12 +376,12 @@ s32 lex_preprocessor_directive( LexContext* ctx )
 	{
 		preprocess_content.Type = Tok_String;
 
-		if ( (* ctx->scanner) != '"' && (* ctx->scanner) != '<' )
+		if ( ctx->left == 0 || ( (* ctx->scanner) != '"' && (* ctx->scanner) != '<' ) )
 		{
 			StrBuilder directive_str = strbuilder_fmt_buf( _ctx->Allocator_Temp, "%.*s", min( 80, ctx->left + preprocess_content.Text.Len ), ctx->token.Text.Ptr );
 
 			log_failure( "gen::Parser::lex: Expected '\"' or '<' after #include, not '%c' (%d, %d)\n%s"
-				, (* ctx->scanner)
+				, ctx->left ? (* ctx->scanner) : ' '
 				, preprocess_content.Line
 				, preprocess_content.Column
 				, (char*) directive_str
@@ -398,15 +397,18 @@ s32 lex_preprocessor_directive( LexContext* ctx )
 			preprocess_content.Text.Len++;
 		}
 
-		move_forward();
-		preprocess_content.Text.Len++;
+		if ( ctx->left )
+		{
+			move_forward();
+			preprocess_content.Text.Len++;
+		}
 
-		if ( (* ctx->scanner) == '\r' && ctx->scanner[1] == '\n' )
+		if ( ctx->left > 1 && (* ctx->scanner) == '\r' && ctx->scanner[1] == '\n' )
 		{
 			move_forward();
 			move_forward();
 		}
-		else if ( (* ctx->scanner) == '\n' )
+		else if ( ctx->left && (* ctx->scanner) == '\n' )
 		{
 			move_forward();
 		}
@@ -432,13 +434,13 @@ s32 lex_preprocessor_directive( LexContext* ctx )
 			move_forward();
 			preprocess_content.Text.Len++;
 
-			if ( (* ctx->scanner) == '\r' )
+			if ( ctx->left && (* ctx->scanner) == '\r' )
 			{
 				move_forward();
 				preprocess_content.Text.Len++;
 			}
 
-			if ( (* ctx->scanner) == '\n' )
+			if ( ctx->left && (* ctx->scanner) == '\n' )
 			{
 				move_forward();
 				preprocess_content.Text.Len++;
@@ -451,7 +453,7 @@ s32 lex_preprocessor_directive( LexContext* ctx )
 
 				log_failure( "gen::Parser::lex: Invalid escape sequence '\\%c' (%d, %d)"
 							" in preprocessor directive '%s' (%d, %d)\n%s"
-					, (* ctx->scanner), ctx->line, ctx->column
+					, ctx->left ? (* ctx->scanner) : ' ', ctx->line, ctx->column
 					, directive_str, preprocess_content.Line, preprocess_content.Column
 					, content_str );
 				return Lex_ReturnNull;
@@ -459,13 +461,13 @@ s32 lex_preprocessor_directive( LexContext* ctx )
 			}
 		}
 
-		if ( (* ctx->scanner) == '\r' )
+		if ( ctx->left && (* ctx->scanner) == '\r' )
 		{
 			break;
 			//move_forward();
 		}
 
-		if ( (* ctx->scanner) == '\n' )
+		if ( ctx->left && (* ctx->scanner) == '\n' )
 		{
 			//move_forward();
 			break;
@@ -502,7 +504,7 @@ void lex_found_token( LexContext* ctx )
 	{
 		skip_whitespace();
 
-		if ( (* ctx->scanner) != '"' ) {
+		if ( ctx->left == 0 || (* ctx->scanner) != '"' ) {
 			type         = Tok_Spec_Extern;
 			ctx->token.Flags |= TF_Specifier;
 		}
@@ -610,13 +612,13 @@ TokArray lex( Str content )
 
 		if ( c.column == 1 )
 		{
-			if ( (* ctx->scanner) == '\r')
+			if ( ctx->left && (* ctx->scanner) == '\r' )
 			{
 				move_forward();
 				c.token.Text.Len = 1;
 			}
 
-			if ( (* ctx->scanner) == '\n' )
+			if ( ctx->left && (* ctx->scanner) == '\n' )
 			{
 				move_forward();
 
@@ -650,13 +652,13 @@ TokArray lex( Str content )
 								Token thanks_c = { { c.scanner, 0 }, Tok_Invalid, c.line, c.column, TF_Null };
 								c.token = thanks_c;
 							}
-							if ( (* ctx->scanner) == '\r')
+							if ( ctx->left && (* ctx->scanner) == '\r' )
 							{
 								move_forward();
 								c.token.Text.Len = 1;
 							}
 
-							if ( (* ctx->scanner) == '\n' )
+							if ( ctx->left && (* ctx->scanner) == '\n' )
 							{
 								c.token.Type = Tok_NewLine;
 								c.token.Text.Len++;
@@ -686,10 +688,10 @@ TokArray lex( Str content )
 					move_forward();
 				}
 
-				if ( (* ctx->scanner) == '.' )
+				if ( ctx->left && (* ctx->scanner) == '.' )
 				{
 					move_forward();
-					if( (* ctx->scanner) == '.' )
+					if ( ctx->left && (* ctx->scanner) == '.' )
 					{
 						c.token.Text.Len = 3;
 						c.token.Type     = Tok_Varadic_Argument;
@@ -698,9 +700,9 @@ TokArray lex( Str content )
 					}
 					else
 					{
-						StrBuilder context_str = strbuilder_fmt_buf( _ctx->Allocator_Temp, "%s", c.scanner, min( 100, c.left ) );
+						StrBuilder context_str = strbuilder_fmt_buf( _ctx->Allocator_Temp, "%.*s", min( 100, c.left ), c.scanner );
 
-						log_failure( "gen::lex: invalid varadic argument, expected '...' got '..%c' (%d, %d)\n%s", (* ctx->scanner), c.line, c.column, context_str );
+						log_failure( "gen::lex: invalid varadic argument, expected '...' got '..%c' (%d, %d)\n%s", c.left ? (* ctx->scanner) : ' ', c.line, c.column, context_str );
 					}
 				}
 
@@ -717,7 +719,7 @@ TokArray lex( Str content )
 				if (c.left)
 					move_forward();
 
-				if ( (* ctx->scanner) == '&' )	// &&
+				if ( ctx->left && (* ctx->scanner) == '&' )	// &&
 				{
 					c.token.Text.Len = 2;
 					c.token.Type     = Tok_Ampersand_DBL;
@@ -739,7 +741,7 @@ TokArray lex( Str content )
 				if (c.left)
 					move_forward();
 
-				if ( (* ctx->scanner) == ':' )
+				if ( ctx->left && (* ctx->scanner) == ':' )
 				{
 					move_forward();
 					c.token.Type = Tok_Access_StaticSymbol;
@@ -779,7 +781,7 @@ TokArray lex( Str content )
 				{
 					move_forward();
 
-					if ( (* ctx->scanner) == ']' )
+					if ( ctx->left && (* ctx->scanner) == ']' )
 					{
 						c.token.Text.Len = 2;
 						c.token.Type     = Tok_Operator;
@@ -832,7 +834,7 @@ TokArray lex( Str content )
 					move_forward();
 					c.token.Text.Len++;
 
-					if ( (* ctx->scanner) == '\'' )
+					if ( ctx->left && (* ctx->scanner) == '\'' )
 					{
 						move_forward();
 						c.token.Text.Len++;
@@ -874,7 +876,7 @@ TokArray lex( Str content )
 				if (c.left)
 					move_forward();
 
-				if ( (* ctx->scanner) == '=' )
+				if ( ctx->left && (* ctx->scanner) == '=' )
 				{
 					c.token.Text.Len++;
 					c.token.Flags |= TF_Assign;
@@ -909,13 +911,13 @@ TokArray lex( Str content )
 				move_forward();
 				while ( c.left )
 				{
-					if ( (* ctx->scanner) == '"' )
+					if ( ctx->left && (* ctx->scanner) == '"' )
 					{
 						move_forward();
 						break;
 					}
 
-					if ( (* ctx->scanner) == '\\' )
+					if ( ctx->left && (* ctx->scanner) == '\\' )
 					{
 						move_forward();
 						c.token.Text.Len++;
@@ -958,7 +960,7 @@ TokArray lex( Str content )
 				if (c.left)
 					move_forward();
 
-				if ( (* ctx->scanner) == '=' )
+				if ( ctx->left && (* ctx->scanner) == '=' )
 				{
 					c.token.Text.Len++;
 					c.token.Flags = TF_Operator;
@@ -1013,7 +1015,7 @@ TokArray lex( Str content )
 				if (c.left)
 					move_forward();
 
-				if ( (* ctx->scanner) == '=' )
+				if ( ctx->left && (* ctx->scanner) == '=' )
 				{
 					c.token.Text.Len++;
 					c.token.Flags |= TF_Assign;
@@ -1045,21 +1047,21 @@ TokArray lex( Str content )
 				{
 					move_forward();
 
-					if ( (* ctx->scanner) == '>'  )
+					if ( ctx->left && (* ctx->scanner) == '>' )
 					{
 						c.token.Text.Len++;
 //						token.Type = Tok_Access_PointerToMemberSymbol;
 						c.token.Flags |= TF_AccessOperator;
 						move_forward();
 
-						if ( (* ctx->scanner) == '*' )
+						if ( ctx->left && (* ctx->scanner) == '*' )
 						{
 //							token.Type = Tok_Access_PointerToMemberOfPointerSymbol;
 							c.token.Text.Len++;
 							move_forward();
 						}
 					}
-					else if ( (* ctx->scanner) == '=' )
+					else if ( ctx->left && (* ctx->scanner) == '=' )
 					{
 						c.token.Text.Len++;
 						// token.Type = Tok_Assign_Subtract;
@@ -1089,14 +1091,14 @@ TokArray lex( Str content )
 
 				if ( c.left )
 				{
-					if ( (* ctx->scanner) == '=' )
+					if ( ctx->left && (* ctx->scanner) == '=' )
 					{
 						// token.Type = TokeType::Assign_Divide;
 						move_forward();
 						c.token.Text.Len++;
 						c.token.Flags = TF_Assign;
 					}
-					else if ( (* ctx->scanner) == '/' )
+					else if ( ctx->left && (* ctx->scanner) == '/' )
 					{
 						c.token.Type     = Tok_Comment;
 						c.token.Text.Len = 2;
@@ -1109,12 +1111,12 @@ TokArray lex( Str content )
 							c.token.Text.Len++;
 						}
 
-						if ( (* ctx->scanner) == '\r' )
+						if ( ctx->left && (* ctx->scanner) == '\r' )
 						{
 							move_forward();
 							c.token.Text.Len++;
 						}
-						if ( (* ctx->scanner) == '\n' )
+						if ( ctx->left && (* ctx->scanner) == '\n' )
 						{
 							move_forward();
 							c.token.Text.Len++;
@@ -1122,35 +1124,38 @@ TokArray lex( Str content )
 						array_append( _ctx->Lexer_Tokens, c.token );
 						continue;
 					}
-					else if ( (* ctx->scanner) == '*' )
+					else if ( ctx->left && (* ctx->scanner) == '*' )
 					{
 						c.token.Type     = Tok_Comment;
 						c.token.Text.Len = 2;
 						c.token.Flags    = TF_Null;
 						move_forward();
 
-						bool star   = (* ctx->scanner)    == '*';
-						bool slash  = c.scanner[1] == '/';
+						bool star   = c.left > 1 && (* ctx->scanner)    == '*';
+						bool slash  = c.left > 1 && c.scanner[1] == '/';
 						bool at_end = star && slash;
 						while ( c.left && ! at_end  )
 						{
 							move_forward();
 							c.token.Text.Len++;
 
-							star   = (* ctx->scanner)    == '*';
-							slash  = c.scanner[1] == '/';
+							star   = c.left > 1 && (* ctx->scanner)    == '*';
+							slash  = c.left > 1 && c.scanner[1] == '/';
 							at_end = star && slash;
 						}
-						c.token.Text.Len += 2;
-						move_forward();
-						move_forward();
+						if ( at_end )
+						{
+							c.token.Text.Len += 2;
+							move_forward();
+							move_forward();
+						}
 
-						if ( (* ctx->scanner) == '\r' )
+						if ( ctx->left && (* ctx->scanner) == '\r' )
 						{
 							move_forward();
 							c.token.Text.Len++;
 						}
-						if ( (* ctx->scanner) == '\n' )
+						if ( ctx->left && (* ctx->scanner) == '\n' )
 						{
 							move_forward();
 							c.token.Text.Len++;
@@ -1271,11 +1276,11 @@ TokArray lex( Str content )
 			{
 				Token thanks_c = { { c.scanner, 0 }, Tok_Invalid, c.line, c.column, TF_Null };
 				c.token = thanks_c;
-				if ( (* ctx->scanner) == '\r') {
+				if ( ctx->left && (* ctx->scanner) == '\r' ) {
 					move_forward();
 					c.token.Text.Len = 1;
 				}
-				if ( (* ctx->scanner) == '\n' ) 
+				if ( ctx->left && (* ctx->scanner) == '\n' ) 
 				{
 					c.token.Type = Tok_NewLine;
 					c.token.Text.Len++;
-- 
2.43.0


From 3c2857556807d4d3e67a797f4e1cb67f1f9829ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:30 +0000
Subject: [PATCH 007/119] fix: a string token left out its closing quote

---
 base/components/lexer.cpp  | 3 ++-
 base/components/parser.cpp | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/base/components/lexer.cpp b/base/components/lexer.cpp
index 712aafa..c03fda4 100644
--- a/base/components/lexer.cpp
+++ b/base/components/lexer.cpp
@@ -911,9 +911,10 @@ TokArray lex( Str content )
 				move_forward();
 				while ( c.left )
 				{
-					if ( ctx->left && (* ctx->scanner) == '"' )
+					if ( (* ctx->scanner) == '"' )
 					{
 						move_forward();
+						c.token.Text.Len++;
 						break;
 					}
 
diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index b064e04..438ec98 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -4059,7 +4059,7 @@ CodeExtern parser_parse_extern_link()
 	// extern "<Name>"
 
 	name.Text.Ptr += 1;
-	name.Text.Len -= 1;
+	name.Text.Len -= 2;
 
 	CodeExtern
 	result       = (CodeExtern) make_code();
-- 
2.43.0


From ad26b1fa0f9d968e7eabee26373636a550d1aff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:56 +0000
Subject: [PATCH 008/119] fix: tokens carried the position of the white space
 before them

---
 base/components/lexer.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/base/components/lexer.cpp b/base/components/lexer.cpp
index c03fda4..f6b9563 100644
--- a/base/components/lexer.cpp
+++ b/base/components/lexer.cpp
@@ -636,6 +636,9 @@ TokArray lex( Str content )
 		if ( c.left <= 0 )
 			break;
 
+		c.token.Line   = c.line;
+		c.token.Column = c.column;
+
 		switch ( (* ctx->scanner) )
 		{
 			case '#':
-- 
2.43.0


From 42f11bad6829220aca6d40b3b95dc5003aa1f2e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:23 +0000
Subject: [PATCH 009/119] fix: the lexer never produced the attribute brackets
 the parser expects

---
 base/components/lexer.cpp | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/base/components/lexer.cpp b/base/components/lexer.cpp
index f6b9563..f493f5e 100644
--- a/base/components/lexer.cpp
+++ b/base/components/lexer.cpp
@@ -594,6 +594,9 @@ TokArray lex( Str content )
 
 	b32 preprocess_args = true;
 
+	b32 within_attribute = false; // Between [[ and ]]
+	s32 square_depth     = 0;     // Square braces opened within the attribute
+
 	while (c.left )
 	{
 		#if 0
@@ -790,6 +793,16 @@ TokArray lex( Str content )
 						c.token.Type     = Tok_Operator;
 						move_forward();
 					}
+					else if ( ctx->left && ! within_attribute && (* ctx->scanner) == '[' )
+					{
+						c.token.Text.Len = 2;
+						c.token.Type     = Tok_Attribute_Open;
+						within_attribute = true;
+						square_depth     = 0;
+						move_forward();
+					}
+					else
+						square_depth++;
 				}
 				goto FoundToken;
 			}
@@ -801,6 +814,16 @@ TokArray lex( Str content )
 
 				if (c.left)
 					move_forward();
+
+				if ( within_attribute && square_depth == 0 && ctx->left && (* ctx->scanner) == ']' )
+				{
+					c.token.Text.Len = 2;
+					c.token.Type     = Tok_Attribute_Close;
+					within_attribute = false;
+					move_forward();
+				}
+				else
+					square_depth--;
 				goto FoundToken;
 			}
 			case '(':
-- 
2.43.0


From 13c72169f4fd5b10ea0862353f84abab1f146483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:50 +0000
Subject: [PATCH 010/119] fix: a lone carriage return ending an unsupported
 directive ran past the text

---
 base/components/lexer.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/base/components/lexer.cpp b/base/components/lexer.cpp
index f493f5e..eec1c55 100644
--- a/base/components/lexer.cpp
+++ b/base/components/lexer.cpp
@@ -337,8 +337,11 @@ s32 lex_preprocessor_directive( LexContext* ctx )
 				break;
 			}
 
-			move_forward();
-			ctx->token.Text.Len++;
+			if ( ctx->left )
+			{
+				move_forward();
+				ctx->token.Text.Len++;
+			}
 		}
 
 		ctx->token.Text.Len = ctx->token.Text.Len + ctx->token.Text.Ptr - hash;
-- 
2.43.0


From 6a10c1ba23fd70449930d027d54bddc7b2b8b57a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:18 +0000
Subject: [PATCH 011/119] fix: an escaped quote in a directive ended its string

---
 base/components/lexer.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/base/components/lexer.cpp b/base/components/lexer.cpp
index eec1c55..c117d89 100644
--- a/base/components/lexer.cpp
+++ b/base/components/lexer.cpp
@@ -291,6 +291,14 @@ s32 lex_preprocessor_directive( LexContext* ctx )
 		s32 within_char   = false;
 		while ( ctx->left )
 		{
+			if ( * ctx->scanner == '\\' && ( within_string || within_char ) && ctx->left > 1 )
+			{
+				move_forward();
+				move_forward();
+				ctx->token.Text.Len += 2;
+				continue;
+			}
+
 			if ( * ctx->scanner == '"' && ! within_char )
 				within_string ^= true;
 
@@ -426,6 +434,14 @@ s32 lex_preprocessor_directive( LexContext* ctx )
 	// Consume preprocess content
 	while ( ctx->left )
 	{
+		if ( (* ctx->scanner) == '\\' && ( within_string || within_char ) && ctx->left > 1 )
+		{
+			move_forward();
+			move_forward();
+			preprocess_content.Text.Len += 2;
+			continue;
+		}
+
 		if ( (* ctx->scanner) == '"' && ! within_char )
 			within_string ^= true;
 
-- 
2.43.0


From a304099f9a178fb7de07422e2404fe84631b8a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:15 +0000
Subject: [PATCH 012/119] fix: attributes were never recognized, nor nested
 parentheses in them

---
 base/components/lexer.cpp  |  3 ++-
 base/components/parser.cpp | 16 +++++++++++++---
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/base/components/lexer.cpp b/base/components/lexer.cpp
index c117d89..db9e5d9 100644
--- a/base/components/lexer.cpp
+++ b/base/components/lexer.cpp
@@ -516,7 +516,7 @@ void lex_found_token( LexContext* ctx )
 	if (type <= Tok_Access_Public && type >= Tok_Access_Private ) {
 		ctx->token.Flags |= TF_AccessSpecifier;
 	}
-	if ( type > Tok___Attributes_Start ) {
+	if ( type > Tok___Attributes_Start || type == Tok_Decl_GNU_Attribute || type == Tok_Decl_MSVC_Attribute ) {
 		ctx->token.Flags |= TF_Attribute;
 	}
 	if ( type == Tok_Decl_Extern_Linkage )
@@ -816,6 +816,7 @@ TokArray lex( Str content )
 					{
 						c.token.Text.Len = 2;
 						c.token.Type     = Tok_Attribute_Open;
+						c.token.Flags   |= TF_Attribute;
 						within_attribute = true;
 						square_depth     = 0;
 						move_forward();
diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index 438ec98..6468890 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -605,8 +605,13 @@ CodeAttributes parse_attributes()
 			eat( Tok_Paren_Open );
 			// __attribute__((
 
-			while ( left && currtok.Type != Tok_Paren_Close )
+			s32 level = 0;
+			while ( left && ( currtok.Type != Tok_Paren_Close || level > 0 ) )
 			{
+				if ( currtok.Type == Tok_Paren_Open )
+					level++;
+				if ( currtok.Type == Tok_Paren_Close )
+					level--;
 				eat( currtok.Type );
 			}
 			// __attribute__(( <Content>
@@ -623,8 +628,13 @@ CodeAttributes parse_attributes()
 			eat( Tok_Paren_Open );
 			// __declspec(
 
-			while ( left && currtok.Type != Tok_Paren_Close )
+			s32 level = 0;
+			while ( left && ( currtok.Type != Tok_Paren_Close || level > 0 ) )
 			{
+				if ( currtok.Type == Tok_Paren_Open )
+					level++;
+				if ( currtok.Type == Tok_Paren_Close )
+					level--;
 				eat( currtok.Type );
 			}
 			// __declspec( <Content>
@@ -645,7 +655,7 @@ CodeAttributes parse_attributes()
 				eat( Tok_Paren_Open );
 
 				s32 level = 0;
-				while (left && currtok.Type != Tok_Paren_Close && level == 0)
+				while (left && (currtok.Type != Tok_Paren_Close || level > 0))
 				{
 					if (currtok.Type == Tok_Paren_Open)
 						++ level;
-- 
2.43.0


From ade12e9e8725d3471a3c3b3531324c2c974c7483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:11 +0000
Subject: [PATCH 013/119] fix: a class with a parent printed with the wrong
 arguments

---
 base/components/code_serialization.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/components/code_serialization.cpp b/base/components/code_serialization.cpp
index 9ec168b..14f2a69 100644
--- a/base/components/code_serialization.cpp
+++ b/base/components/code_serialization.cpp
@@ -158,7 +158,7 @@ void class_to_strbuilder_def( CodeClass self, StrBuilder* result )
 	if ( self->ParentType )
 	{
 		Str access_level = access_spec_to_str( self->ParentAccess );
-		strbuilder_append_fmt( result, " : %S %SB", self->Name, access_level, typename_to_strbuilder(self->ParentType) );
+		strbuilder_append_fmt( result, " : %S %SB", access_level, typename_to_strbuilder(self->ParentType) );
 
 		CodeTypename interface = cast(CodeTypename, self->ParentType->Next);
 		if ( interface )
-- 
2.43.0


From 369b8a2456ed4255dd045491a16c1f302631bd43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:43 +0000
Subject: [PATCH 014/119] fix: pure and deleted functions printed or parsed
 wrongly, export joined to the return type

---
 base/components/code_serialization.cpp | 6 +++---
 base/components/parser.cpp             | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/base/components/code_serialization.cpp b/base/components/code_serialization.cpp
index 14f2a69..f1f6ac3 100644
--- a/base/components/code_serialization.cpp
+++ b/base/components/code_serialization.cpp
@@ -462,7 +462,7 @@ void fn_to_strbuilder_def(CodeFn self, StrBuilder* result )
 	GEN_ASSERT(self);
 	GEN_ASSERT(result);
 	if ( bitfield_is_set( u32, self->ModuleFlags, ModuleFlag_Export ))
-		strbuilder_append_str( result, txt("export") );
+		strbuilder_append_str( result, txt("export ") );
 
 	if ( self->Attributes )
 		strbuilder_append_fmt( result, " %SB ", attributes_to_strbuilder(self->Attributes) );
@@ -531,7 +531,7 @@ void fn_to_strbuilder_fwd(CodeFn self, StrBuilder* result )
 	{
 		for ( Specifier* spec = begin_CodeSpecifiers(self->Specs); spec != end_CodeSpecifiers(self->Specs); spec = next_CodeSpecifiers(self->Specs, spec) )
 		{
-			if ( ! spec_is_trailing( * spec ) || ! ( * spec != Spec_Pure) )
+			if ( ! spec_is_trailing( * spec ) )
 			{
 				Str spec_str = spec_to_str( * spec );
 				strbuilder_append_fmt( result, " %.*s", spec_str.Len, spec_str.Ptr );
@@ -562,7 +562,7 @@ void fn_to_strbuilder_fwd(CodeFn self, StrBuilder* result )
 	{
 		for ( Specifier* spec = begin_CodeSpecifiers(self->Specs); spec != end_CodeSpecifiers(self->Specs); spec = next_CodeSpecifiers(self->Specs, spec) )
 		{
-			if ( spec_is_trailing( * spec ) )
+			if ( spec_is_trailing( * spec ) && * spec != Spec_Pure && * spec != Spec_Delete )
 			{
 				Str spec_str = spec_to_str( * spec );
 				strbuilder_append_fmt( result, " %.*s", spec_str.Len, spec_str.Ptr );
diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index 6468890..60ce9d9 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -1473,7 +1473,7 @@ CodeFn parse_function_after_name(
 			specifiers       = (CodeSpecifiers) make_code();
 			specifiers->Type = CT_Specifiers;
 		}
-		if ( str_are_equal(nexttok.Text, txt("delete")))
+		if ( str_are_equal(currtok.Text, txt("delete")))
 		{
 			specifiers_append(specifiers, Spec_Delete);
 			eat(currtok.Type);	
-- 
2.43.0


From 9b540d8eabff37000045515343e5efd859e7737f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:21 +0000
Subject: [PATCH 015/119] fix: constructors and destructors printed without
 specifiers, = default or name, and failed on their own

---
 base/components/code_serialization.cpp | 88 ++++++++++++++++++--------
 base/components/interface.parsing.cpp  |  3 +-
 base/components/parser.cpp             | 47 +++++++++-----
 3 files changed, 95 insertions(+), 43 deletions(-)

diff --git a/base/components/code_serialization.cpp b/base/components/code_serialization.cpp
index f1f6ac3..1b2825b 100644
--- a/base/components/code_serialization.cpp
+++ b/base/components/code_serialization.cpp
@@ -70,8 +70,14 @@ void constructor_to_strbuilder_def(CodeConstructor self, StrBuilder* result )
 {
 	GEN_ASSERT(self);
 	GEN_ASSERT(result);
-	Code ClassStructParent = self->Parent->Parent;
-	if (ClassStructParent) {
+	if ( self->Specs )
+	{
+		for ( Specifier* spec = begin_CodeSpecifiers(self->Specs); spec != end_CodeSpecifiers(self->Specs); spec = next_CodeSpecifiers(self->Specs, spec) )
+			strbuilder_append_fmt( result, "%S ", spec_to_str( * spec ) );
+	}
+
+	Code ClassStructParent = self->Parent ? self->Parent->Parent : NullCode;
+	if (ClassStructParent && (ClassStructParent->Type == CT_Class || ClassStructParent->Type == CT_Struct)) {
 		strbuilder_append_str( result, ClassStructParent->Name );
 	}
 	else {
@@ -87,7 +93,7 @@ void constructor_to_strbuilder_def(CodeConstructor self, StrBuilder* result )
 		strbuilder_append_fmt( result, " : %SB", code_to_strbuilder(self->InitializerList) );
 
 	if ( self->InlineCmt )
-		strbuilder_append_fmt( result, " // %S", self->InlineCmt->Content );
+		strbuilder_append_fmt( result, " %S", self->InlineCmt->Content );
 
 	strbuilder_append_fmt( result, "\n{\n%SB\n}\n", code_to_strbuilder(self->Body) );
 }
@@ -96,8 +102,14 @@ void constructor_to_strbuilder_fwd(CodeConstructor self, StrBuilder* result )
 {
 	GEN_ASSERT(self);
 	GEN_ASSERT(result);
-	Code ClassStructParent = self->Parent->Parent;
-	if (ClassStructParent) {
+	if ( self->Specs )
+	{
+		for ( Specifier* spec = begin_CodeSpecifiers(self->Specs); spec != end_CodeSpecifiers(self->Specs); spec = next_CodeSpecifiers(self->Specs, spec) )
+			strbuilder_append_fmt( result, "%S ", spec_to_str( * spec ) );
+	}
+
+	Code ClassStructParent = self->Parent ? self->Parent->Parent : NullCode;
+	if (ClassStructParent && (ClassStructParent->Type == CT_Class || ClassStructParent->Type == CT_Struct)) {
 		strbuilder_append_str( result, ClassStructParent->Name );
 	}
 	else {
@@ -113,7 +125,7 @@ void constructor_to_strbuilder_fwd(CodeConstructor self, StrBuilder* result )
 		strbuilder_append_fmt( result, " = %SB", code_to_strbuilder(self->Body) );
 
 	if ( self->InlineCmt )
-		strbuilder_append_fmt( result, "; // %S\n", self->InlineCmt->Content );
+		strbuilder_append_fmt( result, ";  %S", self->InlineCmt->Content );
 	else
 		strbuilder_append_str( result, txt(";\n") );
 }
@@ -256,19 +268,28 @@ void destructor_to_strbuilder_def(CodeDestructor self, StrBuilder* result )
 {
 	GEN_ASSERT(self);
 	GEN_ASSERT(result);
-	if ( self->Name.Len )
+	if ( self->Specs )
 	{
-		strbuilder_append_fmt( result, "%S()", self->Name );
+		for ( Specifier* spec = begin_CodeSpecifiers(self->Specs); spec != end_CodeSpecifiers(self->Specs); spec = next_CodeSpecifiers(self->Specs, spec) )
+		{
+			if ( ! spec_is_trailing( * spec ) )
+				strbuilder_append_fmt( result, "%S ", spec_to_str( * spec ) );
+		}
 	}
-	else if ( self->Specs )
+
+	if ( self->Name.Len )
+		strbuilder_append_fmt( result, "%S()", self->Name );
+	else
+		strbuilder_append_fmt( result, "~%S()", self->Parent->Parent->Name );
+
+	if ( self->Specs )
 	{
-		if ( specifiers_has(self->Specs, Spec_Virtual ) )
-			strbuilder_append_fmt( result, "virtual ~%S()", self->Parent->Name );
-		else
-			strbuilder_append_fmt( result, "~%S()", self->Parent->Name );
+		for ( Specifier* spec = begin_CodeSpecifiers(self->Specs); spec != end_CodeSpecifiers(self->Specs); spec = next_CodeSpecifiers(self->Specs, spec) )
+		{
+			if ( spec_is_trailing( * spec ) )
+				strbuilder_append_fmt( result, " %S", spec_to_str( * spec ) );
+		}
 	}
-	else
-		strbuilder_append_fmt( result, "~%S()", self->Parent->Name );
 
 	strbuilder_append_fmt( result, "\n{\n%SB\n}\n", code_to_strbuilder(self->Body) );
 }
@@ -279,23 +300,36 @@ void destructor_to_strbuilder_fwd(CodeDestructor self, StrBuilder* result )
 	GEN_ASSERT(result);
 	if ( self->Specs )
 	{
-		if ( specifiers_has(self->Specs, Spec_Virtual ) )
-			strbuilder_append_fmt( result, "virtual ~%S();\n", self->Parent->Name );
-		else
-			strbuilder_append_fmt( result, "~%S()", self->Parent->Name );
-
-		if ( specifiers_has(self->Specs, Spec_Pure ) )
-			strbuilder_append_str( result, txt(" = 0;") );
-		else if (self->Body)
-			strbuilder_append_fmt( result, " = %SB;", code_to_strbuilder(self->Body) );
+		for ( Specifier* spec = begin_CodeSpecifiers(self->Specs); spec != end_CodeSpecifiers(self->Specs); spec = next_CodeSpecifiers(self->Specs, spec) )
+		{
+			if ( ! spec_is_trailing( * spec ) )
+				strbuilder_append_fmt( result, "%S ", spec_to_str( * spec ) );
+		}
 	}
+
+	if ( self->Name.Len )
+		strbuilder_append_fmt( result, "%S()", self->Name );
 	else
-		strbuilder_append_fmt( result, "~%S();", self->Parent->Name );
+		strbuilder_append_fmt( result, "~%S()", self->Parent->Parent->Name );
+
+	if ( self->Specs )
+	{
+		for ( Specifier* spec = begin_CodeSpecifiers(self->Specs); spec != end_CodeSpecifiers(self->Specs); spec = next_CodeSpecifiers(self->Specs, spec) )
+		{
+			if ( spec_is_trailing( * spec ) && * spec != Spec_Pure )
+				strbuilder_append_fmt( result, " %S", spec_to_str( * spec ) );
+		}
+	}
+
+	if ( self->Specs && specifiers_has(self->Specs, Spec_Pure ) )
+		strbuilder_append_str( result, txt(" = 0") );
+	else if (self->Body)
+		strbuilder_append_fmt( result, " = %SB", code_to_strbuilder(self->Body) );
 
 	if ( self->InlineCmt )
-		strbuilder_append_fmt( result, "  %S", self->InlineCmt->Content );
+		strbuilder_append_fmt( result, ";  %S", self->InlineCmt->Content );
 	else
-		strbuilder_append_str( result, txt("\n"));
+		strbuilder_append_str( result, txt(";\n"));
 }
 
 StrBuilder enum_to_strbuilder(CodeEnum self)
diff --git a/base/components/interface.parsing.cpp b/base/components/interface.parsing.cpp
index d5f4bef..2652fd0 100644
--- a/base/components/interface.parsing.cpp
+++ b/base/components/interface.parsing.cpp
@@ -31,6 +31,8 @@ CodeConstructor parse_constructor( Str def )
 	if ( toks.Arr == nullptr )
 		return InvalidCode;
 
+	_ctx->parser.Tokens = toks;
+
 	// TODO(Ed): Constructors can have prefix attributes
 
 	CodeSpecifiers specifiers = NullCode;
@@ -77,7 +79,6 @@ CodeConstructor parse_constructor( Str def )
 		// <specifiers> ...
 	}
 
-	_ctx->parser.Tokens         = toks;
 	CodeConstructor result = parser_parse_constructor( specifiers );
 	return result;
 }
diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index 60ce9d9..5fd18fb 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -3552,13 +3552,12 @@ CodeConstructor parser_parse_constructor( CodeSpecifiers specifiers )
 		body = cast(CodeBody, parse_function_body());
 		// <Name> ( <Parameters> ) { <Body> }
 	}
-	// TODO(Ed): Add support for detecting constructor deletion
-	else if ( check( Tok_Operator) && currtok.Text.Ptr[ 0 ] == '=' )
-	{
-		body = cast(CodeBody, parse_assignment_expression());
-	}
 	else
 	{
+		if ( check( Tok_Operator) && currtok.Text.Ptr[ 0 ] == '=' )
+			body = cast(CodeBody, parse_assignment_expression());
+		// <Name> ( <Parameters> ) = <default/delete>
+
 		Token stmt_end = currtok;
 		eat( Tok_Statement_End );
 		// <Name> ( <Parameters> );
@@ -3586,7 +3585,10 @@ CodeConstructor parser_parse_constructor( CodeSpecifiers specifiers )
 		result->Type = CT_Constructor;
 	}
 	else
+	{
+		result->Body = cast(Code, body);
 		result->Type = CT_Constructor_Fwd;
+	}
 
 	if ( inline_cmt )
 		result->InlineCmt = inline_cmt;
@@ -3687,9 +3689,6 @@ CodeDestructor parser_parse_destructor( CodeSpecifiers specifiers )
 {
 	push_scope();
 
-	bool has_context         = _ctx->parser.Scope && _ctx->parser.Scope->Prev;
-	bool is_in_global_nspace = has_context && str_are_equal( _ctx->parser.Scope->Prev->ProcName, txt("parse_global_nspace") );
-
 	if ( check( Tok_Spec_Virtual ) )
 	{
 		if ( specifiers )
@@ -3701,9 +3700,10 @@ CodeDestructor parser_parse_destructor( CodeSpecifiers specifiers )
 	// <Virtual Specifier>
 
 	Token prefix_identifier = NullToken;
-	if (is_in_global_nspace)
+	if ( check( Tok_Identifier ) )
 		prefix_identifier = parse_identifier(nullptr);
 
+	Token tilde = currtok;
 	if ( left && currtok.Text.Ptr[ 0 ] == '~' )
 		eat( Tok_Operator );
 	else
@@ -3723,6 +3723,16 @@ CodeDestructor parser_parse_destructor( CodeSpecifiers specifiers )
 	eat( Tok_Paren_Close );
 	// <Virtual Specifier> ~<Name>()
 
+	while ( left && tok_is_specifier(currtok) && spec_is_trailing( str_to_specifier( currtok.Text ) ) )
+	{
+		if ( specifiers )
+			specifiers_append(specifiers, str_to_specifier( currtok.Text ) );
+		else
+			specifiers = def_specifier( str_to_specifier( currtok.Text ) );
+		eat( currtok.Type );
+	}
+	// <Virtual Specifier> ~<Name>() <Trailing Specifiers>
+
 	bool pure_virtual = false;
 
 	if ( check( Tok_Operator ) && currtok.Text.Ptr[ 0 ] == '=' )
@@ -3737,9 +3747,12 @@ CodeDestructor parser_parse_destructor( CodeSpecifiers specifiers )
 			eat( Tok_Number );
 			// <Virtual Specifier> ~<Name>() = 0
 
-			specifiers_append(specifiers, Spec_Pure );
+			if ( specifiers )
+				specifiers_append(specifiers, Spec_Pure );
+			else
+				specifiers = def_specifier( Spec_Pure );
 		}
-		else if ( left && c_str_compare_len( upcoming.Text.Ptr, "default", sizeof("default") - 1 ) == 0) 
+		else if ( left && ( str_are_equal( upcoming.Text, txt("default") ) || str_are_equal( upcoming.Text, txt("delete") ) ) )
 		{
 			body = cast(CodeBody, parse_assignment_expression());
 			// <Virtual Specifier> ~<
@@ -3772,10 +3785,11 @@ CodeDestructor parser_parse_destructor( CodeSpecifiers specifiers )
 
 	CodeDestructor result = ( CodeDestructor )make_code();
 
-	if ( tok_is_valid(prefix_identifier) ) {
-		prefix_identifier.Text.Len += 1 + identifier.Text.Len;
-		result->Name = cache_str( prefix_identifier.Text );
-	}
+	if ( ! tok_is_valid(prefix_identifier) )
+		prefix_identifier = tilde;
+
+	prefix_identifier.Text.Len = ( ( sptr )identifier.Text.Ptr + identifier.Text.Len ) - ( sptr )prefix_identifier.Text.Ptr;
+	result->Name = cache_str( prefix_identifier.Text );
 
 	if ( specifiers )
 		result->Specs = specifiers;
@@ -3785,7 +3799,10 @@ CodeDestructor parser_parse_destructor( CodeSpecifiers specifiers )
 		result->Type = CT_Destructor;
 	}
 	else
+	{
+		result->Body = cast(Code, body);
 		result->Type = CT_Destructor_Fwd;
+	}
 
 	if ( inline_cmt )
 		result->InlineCmt = inline_cmt;
-- 
2.43.0


From df8b8ca8ffab9d6ae1edfc5bc9429945f1b56e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:54 +0000
Subject: [PATCH 016/119] fix: several operators and conversions parsed or
 printed as another one, or failed

---
 base/components/code_serialization.cpp | 16 ++---
 base/components/interface.upfront.cpp  |  8 +--
 base/components/lexer.cpp              | 16 +++++
 base/components/parser.cpp             | 87 ++++++++++++++------------
 4 files changed, 72 insertions(+), 55 deletions(-)

diff --git a/base/components/code_serialization.cpp b/base/components/code_serialization.cpp
index 1b2825b..4268d53 100644
--- a/base/components/code_serialization.cpp
+++ b/base/components/code_serialization.cpp
@@ -663,9 +663,6 @@ void code_op_to_strbuilder_def(CodeOperator self, StrBuilder* result )
 	if ( self->Attributes )
 		strbuilder_append_fmt( result, "%SB ", attributes_to_strbuilder(self->Attributes) );
 
-	if ( self->Attributes )
-		strbuilder_append_fmt( result, "%SB ", attributes_to_strbuilder(self->Attributes) );
-
 	if ( self->Specs )
 	{
 		for ( Specifier* spec = begin_CodeSpecifiers(self->Specs); spec != end_CodeSpecifiers(self->Specs); spec = next_CodeSpecifiers(self->Specs, spec) )
@@ -748,12 +745,15 @@ void code_op_to_strbuilder_fwd(CodeOperator self, StrBuilder* result )
 	{
 		for ( Specifier* spec = begin_CodeSpecifiers(self->Specs); spec != end_CodeSpecifiers(self->Specs); spec = next_CodeSpecifiers(self->Specs, spec) )
 		{
-			if ( spec_is_trailing( * spec ) )
+			if ( spec_is_trailing( * spec ) && * spec != Spec_Delete )
 			{
 				Str spec_str = spec_to_str( * spec );
 				strbuilder_append_fmt( result, " %.*s", spec_str.Len, spec_str.Ptr );
 			}
 		}
+
+		if ( specifiers_has(self->Specs, Spec_Delete ) )
+			strbuilder_append_str( result, txt(" = delete") );
 	}
 
 	if ( self->InlineCmt )
@@ -789,7 +789,7 @@ void opcast_to_strbuilder_def(CodeOpCast self, StrBuilder* result )
 			if ( ! spec_is_trailing( * spec ) )
 			{
 				Str spec_str = spec_to_str( * spec );
-				strbuilder_append_fmt( result, "%*s ", spec_str.Len, spec_str.Ptr );
+				strbuilder_append_fmt( result, "%.*s ", spec_str.Len, spec_str.Ptr );
 			}
 		}
 
@@ -828,7 +828,7 @@ void opcast_to_strbuilder_fwd(CodeOpCast self, StrBuilder* result )
 			if ( ! spec_is_trailing( * spec ) )
 			{
 				Str spec_str = spec_to_str( * spec );
-				strbuilder_append_fmt( result, "%*s ", spec_str.Len, spec_str.Ptr );
+				strbuilder_append_fmt( result, "%.*s ", spec_str.Len, spec_str.Ptr );
 			}
 		}
 
@@ -839,7 +839,7 @@ void opcast_to_strbuilder_fwd(CodeOpCast self, StrBuilder* result )
 			if ( spec_is_trailing( * spec ) )
 			{
 				Str spec_str = spec_to_str( * spec );
-				strbuilder_append_fmt( result, " %*s", spec_str.Len, spec_str.Ptr );
+				strbuilder_append_fmt( result, " %.*s", spec_str.Len, spec_str.Ptr );
 			}
 		}
 
@@ -851,7 +851,7 @@ void opcast_to_strbuilder_fwd(CodeOpCast self, StrBuilder* result )
 	}
 
 	if ( self->InlineCmt )
-		strbuilder_append_fmt( result, "operator %SB();  %SB", typename_to_strbuilder(self->ValueType) );
+		strbuilder_append_fmt( result, "operator %SB();  %S", typename_to_strbuilder(self->ValueType), self->InlineCmt->Content );
 	else
 		strbuilder_append_fmt( result, "operator %SB();\n", typename_to_strbuilder(self->ValueType) );
 }
diff --git a/base/components/interface.upfront.cpp b/base/components/interface.upfront.cpp
index 94af5f7..4e6cd7f 100644
--- a/base/components/interface.upfront.cpp
+++ b/base/components/interface.upfront.cpp
@@ -139,7 +139,7 @@ OpValidateResult operator__validate( Operator op, CodeParams params_code, CodeTy
 					case 2:
 						check_param_eq_ret();
 
-						if ( ! code_is_equal((Code)params_get(params_code, 1), (Code)t_int ) )
+						if ( ! code_is_equal((Code)params_get(params_code, 1)->ValueType, (Code)t_int ) )
 						{
 							log_failure("gen::def_operator: "
 								"operator %S requires second parameter of non-member definition to be int for post-decrement",
@@ -350,11 +350,7 @@ OpValidateResult operator__validate( Operator op, CodeParams params_code, CodeTy
 			break;
 
 		case Op_PtrToMemOfPtr:
-			if ( params_code )
-			{
-				log_failure("gen::def_operator: operator %S expects no paramters - %S", operator_to_str(op), code_debug_str((Code)params_code));
-				return OpValResult_Fail;
-			}
+			check_params();
 			break;
 
 		case Op_Subscript:
diff --git a/base/components/lexer.cpp b/base/components/lexer.cpp
index db9e5d9..b31fe96 100644
--- a/base/components/lexer.cpp
+++ b/base/components/lexer.cpp
@@ -752,6 +752,15 @@ TokArray lex( Str content )
 					if (c.left)
 						move_forward();
 				}
+				else if ( ctx->left && (* ctx->scanner) == '=' )	// &=
+				{
+					c.token.Text.Len = 2;
+					c.token.Type     = Tok_Operator;
+					c.token.Flags    = TF_Operator | TF_Assign;
+
+					if (c.left)
+						move_forward();
+				}
 
 				goto FoundToken;
 			}
@@ -1079,6 +1088,13 @@ TokArray lex( Str content )
 					if (c.left)
 						move_forward();
 				}
+
+				if ( c.left && c.token.Text.Len == 2 && (* ctx->scanner) == '=' && ( c.token.Text.Ptr[1] == '<' || c.token.Text.Ptr[1] == '>' ) )	// <<= or >>=
+				{
+					c.token.Text.Len++;
+					c.token.Flags |= TF_Assign;
+					move_forward();
+				}
 				goto FoundToken;
 			}
 
diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index 5fd18fb..3551528 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -2219,8 +2219,8 @@ CodeOperator parse_operator_after_ret_type(
 		{
 			if ( currtok.Text.Ptr[1] == '>' )
 			{
-				if ( currtok.Text.Ptr[2] == '*' )
-					op = Op_MemberOfPointer;
+				if ( currtok.Text.Len == 3 )
+					op = Op_PtrToMemOfPtr;
 
 				else
 					op = Op_MemberOfPointer;
@@ -2231,6 +2231,9 @@ CodeOperator parse_operator_after_ret_type(
 			else if ( currtok.Text.Ptr[1] == '=' )
 				op = Op_Assign_Subtract;
 
+			else if ( currtok.Text.Ptr[1] == '-' )
+				op = Op_Decrement;
+
 			else
 				op = Op_Subtract;
 		}
@@ -2242,18 +2245,7 @@ CodeOperator parse_operator_after_ret_type(
 
 			else
 			{
-				Token finder = prevtok;
-				while ( finder.Type != Tok_Decl_Operator )
-				{
-					if ( finder.Type == Tok_Identifier)
-					{
-						op = Op_Indirection;
-						break;
-					}
-				}
-
-				if ( op == Op_Invalid)
-					op = Op_Multiply;
+				op = Op_Multiply;
 			}
 		}
 		break;
@@ -2372,13 +2364,21 @@ CodeOperator parse_operator_after_ret_type(
 		break;
 		case '(':
 		{
-			if ( currtok.Text.Ptr[1] == ')' )
+			if ( nexttok.Type == Tok_Paren_Close )
+			{
+				eat( Tok_Paren_Open );
 				op = Op_FunctionCall;
+			}
 
 			else
 				op = Op_Invalid;
 		}
 		break;
+		case ',':
+		{
+			op = Op_Comma;
+		}
+		break;
 		case '[':
 		{
 			if ( currtok.Text.Ptr[1] == ']' )
@@ -2467,8 +2467,18 @@ CodeOperator parse_operator_after_ret_type(
 	CodeParams params = parse_params(parser_use_parenthesis);
 	// <ExportFlag> <Attributes> <Specifiers> <ReturnType> <Qualifier::...> operator <Op> ( <Parameters> )
 
+	// Without parameters its the unary operator of a member
 	if ( params == nullptr && op == Op_Multiply )
-		op = Op_MemberOfPointer;
+		op = Op_Indirection;
+
+	else if ( params == nullptr && op == Op_BAnd )
+		op = Op_AddressOf;
+
+	else if ( params == nullptr && op == Op_Add )
+		op = Op_Unary_Plus;
+
+	else if ( params == nullptr && op == Op_Subtract )
+		op = Op_Unary_Minus;
 
 	while ( left && tok_is_specifier(currtok) )
 	{
@@ -4388,6 +4398,18 @@ CodeOpCast parser_parse_operator_cast( CodeSpecifiers specifiers )
 {
 	push_scope();
 
+	while ( left && tok_is_specifier(currtok) && ! spec_is_trailing( str_to_specifier( currtok.Text ) ) )
+	{
+		if ( specifiers == nullptr )
+			specifiers = def_specifier( str_to_specifier( currtok.Text ) );
+
+		else
+			specifiers_append(specifiers, str_to_specifier( currtok.Text ) );
+
+		eat( currtok.Type );
+	}
+	// <Specifiers>
+
 	// Operator's namespace if not within same class.
 	Token name = NullToken;
 	if ( check( Tok_Identifier ) )
@@ -4422,15 +4444,15 @@ CodeOpCast parser_parse_operator_cast( CodeSpecifiers specifiers )
 	// <Specifiers> <Qualifier> :: ... operator <UnderlyingType>()
 
 	// TODO(Ed) : operator cast can have const, volatile, l-value, r-value noexecept qualifying specifiers.
-	if ( check(Tok_Spec_Const))
+	while ( left && tok_is_specifier(currtok) && spec_is_trailing( str_to_specifier( currtok.Text ) ) )
 	{
 		if ( specifiers == nullptr )
-			specifiers = def_specifier( Spec_Const );
+			specifiers = def_specifier( str_to_specifier( currtok.Text ) );
 
 		else
-			specifiers_append(specifiers, Spec_Const );
+			specifiers_append(specifiers, str_to_specifier( currtok.Text ) );
 
-		eat( Tok_Spec_Const );
+		eat( currtok.Type );
 	}
 	// <Specifiers> <Qualifier> :: ... operator <UnderlyingType>() <const>
 
@@ -4439,28 +4461,8 @@ CodeOpCast parser_parse_operator_cast( CodeSpecifiers specifiers )
 
 	if ( check( Tok_BraceCurly_Open) )
 	{
-		eat( Tok_BraceCurly_Open );
-		// <Specifiers> <Qualifier> :: ... operator <UnderlyingType>() <const> {
-
-		Token body_str = currtok;
-
-		s32 level = 0;
-		while ( left && ( currtok.Type != Tok_BraceCurly_Close || level > 0 ) )
-		{
-			if ( currtok.Type == Tok_BraceCurly_Open )
-				level++;
-
-			else if ( currtok.Type == Tok_BraceCurly_Close )
-				level--;
-
-			eat( currtok.Type );
-		}
-		body_str.Text.Len = ( (sptr)prevtok.Text.Ptr + prevtok.Text.Len ) - (sptr)body_str.Text.Ptr;
-
-		eat( Tok_BraceCurly_Close );
+		body = parse_function_body();
 		// <Specifiers> <Qualifier> :: ... operator <UnderlyingType>() <const> { <Body> }
-
-		body = untyped_str( body_str.Text );
 	}
 	else
 	{
@@ -4486,6 +4488,9 @@ CodeOpCast parser_parse_operator_cast( CodeSpecifiers specifiers )
 		result->Type = CT_Operator_Cast_Fwd;
 	}
 
+	if ( inline_cmt )
+		result->InlineCmt = inline_cmt;
+
 	if ( specifiers )
 		result->Specs = specifiers;
 
-- 
2.43.0


From fd9db0e7a7b386609f598f5126aacb0303e26578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:58 +0000
Subject: [PATCH 017/119] fix: declarator lists lost or mangled arrays,
 bit-fields, parenthesized values and const

---
 base/components/code_serialization.cpp |  9 ---------
 base/components/parser.cpp             | 27 ++++++++++++++++++++------
 2 files changed, 21 insertions(+), 15 deletions(-)

diff --git a/base/components/code_serialization.cpp b/base/components/code_serialization.cpp
index 4268d53..ffd94a9 100644
--- a/base/components/code_serialization.cpp
+++ b/base/components/code_serialization.cpp
@@ -1286,9 +1286,6 @@ void var_to_strbuilder_ref(CodeVar self, StrBuilder* result )
 		if ( self->NextVar )
 			strbuilder_append_fmt( result, ", %SB", var_to_strbuilder(self->NextVar) );
 
-		if ( self->VarParenthesizedInit )
-			strbuilder_append_str( result, txt(" )"));
-
 		return;
 	}
 
@@ -1331,9 +1328,6 @@ void var_to_strbuilder_ref(CodeVar self, StrBuilder* result )
 		if ( self->NextVar )
 			strbuilder_append_fmt( result, ", %SB", var_to_strbuilder(self->NextVar) );
 
-		if ( self->VarParenthesizedInit )
-			strbuilder_append_str( result, txt(" )"));
-
 		if ( self->InlineCmt )
 			strbuilder_append_fmt( result, ";  %S", self->InlineCmt->Content);
 		else
@@ -1371,9 +1365,6 @@ void var_to_strbuilder_ref(CodeVar self, StrBuilder* result )
 	if ( self->NextVar )
 		strbuilder_append_fmt( result, ", %SB", var_to_strbuilder( self->NextVar) );
 
-	if ( self->VarParenthesizedInit )
-		strbuilder_append_str( result, txt(" )"));
-
 	strbuilder_append_str( result, txt(";") );
 
 	if ( self->InlineCmt )
diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index 3551528..293da4f 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -1361,7 +1361,7 @@ Code parse_assignment_expression()
 	}
 
 	s32 level = 0;
-	while ( left && currtok.Type != Tok_Statement_End && (currtok.Type != Tok_Comma || level > 0) )
+	while ( left && ((currtok.Type != Tok_Statement_End && currtok.Type != Tok_Comma) || level > 0) )
 	{
 		if (currtok.Type == Tok_BraceCurly_Open )
 			level++;
@@ -3356,7 +3356,15 @@ CodeVar parse_variable_after_name(
 			return InvalidCode;
 		}
 
-		while ( left && currtok.Type != Tok_Statement_End ) {
+		s32 level = 0;
+		while ( left && currtok.Type != Tok_Statement_End && (currtok.Type != Tok_Comma || level > 0) )
+		{
+			if ( currtok.Type == Tok_Paren_Open )
+				level++;
+
+			else if ( currtok.Type == Tok_Paren_Close )
+				level--;
+
 			eat( currtok.Type );
 		}
 
@@ -3410,7 +3418,16 @@ CodeVar parse_variable_after_name(
 	result->InlineCmt    = inline_cmt;
 
 	if (array_expr)
+	{
+		// A variable proceeding a comma has no type of its own
+		if ( ! type )
+		{
+			type              = (CodeTypename) make_code();
+			type->Type        = CT_Typename;
+			result->ValueType = type;
+		}
 		type->ArrExpr = array_expr;
+	}
 
 	if ( next_var ) {
 		result->NextVar         = next_var;
@@ -3447,13 +3464,11 @@ CodeVar parse_variable_declaration_list()
 			switch ( spec )
 			{
 				case Spec_Const:
-					if ( specifiers->NumEntries && specifiers->ArrSpecs[ specifiers->NumEntries - 1 ] != Spec_Ptr )
+					if ( specifiers == nullptr || specifiers->ArrSpecs[ specifiers->NumEntries - 1 ] != Spec_Ptr )
 					{
 						log_failure( "Error, const specifier must come after pointer specifier for variable declaration proceeding comma\n"
 						"(Parser will add and continue to specifiers, but will most likely fail to compile)\n%SB"
 						, parser_to_strbuilder(_ctx->parser) );
-
-						specifiers_append(specifiers, spec );
 					}
 				break;
 
@@ -3496,7 +3511,7 @@ CodeVar parse_variable_declaration_list()
 		else
 		{
 			last_var->NextVar         = var;
-			last_var->NextVar->Parent = cast(Code, var);
+			last_var->NextVar->Parent = cast(Code, last_var);
 			last_var                  = var;
 		}
 	}
-- 
2.43.0


From 49d340aec8c732e382075b4c44ca9824e77c896d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:59 +0000
Subject: [PATCH 018/119] fix: a const return type made the function and
 operator parsers loop forever

---
 base/components/parser.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index 293da4f..382f835 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -4283,8 +4283,9 @@ CodeFn parser_parse_function()
 				return InvalidCode;
 		}
 
+		// Ignore const specifiers, they're handled by the type
 		if ( spec == Spec_Const )
-			continue;
+			break;
 
 		specs_found[NumSpecifiers] = spec;
 		NumSpecifiers++;
@@ -4384,8 +4385,9 @@ CodeOperator parser_parse_operator()
 				return InvalidCode;
 		}
 
+		// Ignore const specifiers, they're handled by the type
 		if ( spec == Spec_Const )
-			continue;
+			break;
 
 		specs_found[NumSpecifiers] = spec;
 		NumSpecifiers++;
-- 
2.43.0


From 9971f405e77fb470536880398e99c631b2f8de24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:59 +0000
Subject: [PATCH 019/119] fix: parameter arrays, default values with operators
 or braces, macros carried to later parameters

---
 base/components/code_serialization.cpp | 15 +++++++--
 base/components/parser.cpp             | 44 +++++++++++++++-----------
 2 files changed, 38 insertions(+), 21 deletions(-)

diff --git a/base/components/code_serialization.cpp b/base/components/code_serialization.cpp
index ffd94a9..bf81ac1 100644
--- a/base/components/code_serialization.cpp
+++ b/base/components/code_serialization.cpp
@@ -878,6 +878,12 @@ void params_to_strbuilder_ref( CodeParams self, StrBuilder* result )
 	else if ( self->ValueType )
 		strbuilder_append_fmt( result, " %SB", typename_to_strbuilder(self->ValueType) );
 
+	if ( self->ValueType && self->ValueType->ArrExpr )
+	{
+		for ( Code arr_expr = self->ValueType->ArrExpr; arr_expr; arr_expr = arr_expr->Next )
+			strbuilder_append_fmt( result, "[ %SB ]", code_to_strbuilder(arr_expr) );
+	}
+
 	if ( self->PostNameMacro )
 	{
 		strbuilder_append_fmt( result, " %SB", code_to_strbuilder(self->PostNameMacro) );
@@ -1274,10 +1280,13 @@ void var_to_strbuilder_ref(CodeVar self, StrBuilder* result )
 			}
 		}
 
+		if ( self->BitfieldSize )
+			strbuilder_append_fmt( result, " : %SB", code_to_strbuilder(self->BitfieldSize) );
+
 		if ( self->Value )
 		{
 			if ( self->VarParenthesizedInit )
-				strbuilder_append_fmt( result, "( %SB ", code_to_strbuilder(self->Value) );
+				strbuilder_append_fmt( result, "( %SB )", code_to_strbuilder(self->Value) );
 			else
 				strbuilder_append_fmt( result, " = %SB", code_to_strbuilder(self->Value) );
 		}
@@ -1320,7 +1329,7 @@ void var_to_strbuilder_ref(CodeVar self, StrBuilder* result )
 		if ( self->Value )
 		{
 			if ( self->VarParenthesizedInit )
-				strbuilder_append_fmt( result, "( %SB ", code_to_strbuilder(self->Value) );
+				strbuilder_append_fmt( result, "( %SB )", code_to_strbuilder(self->Value) );
 			else
 				strbuilder_append_fmt( result, " = %SB", code_to_strbuilder(self->Value) );
 		}
@@ -1357,7 +1366,7 @@ void var_to_strbuilder_ref(CodeVar self, StrBuilder* result )
 	if ( self->Value )
 	{
 		if ( self->VarParenthesizedInit )
-			strbuilder_append_fmt( result, "( %SB ", code_to_strbuilder(self->Value) );
+			strbuilder_append_fmt( result, "( %SB )", code_to_strbuilder(self->Value) );
 		else
 			strbuilder_append_fmt( result, " = %SB", code_to_strbuilder(self->Value) );
 	}
diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index 382f835..5131216 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -2816,6 +2816,8 @@ CodeParams parse_params( bool use_template_capture )
 			eat( currtok.Type );
 			// ( <Macro> <ValueType> <Name>
 		}
+		type->ArrExpr = parse_array_decl();
+		// ( <Macro> <ValueType> <Name> [ <Expression> ]
 
 		// TODO(Ed): Use expression macro for this?
 		// Unreal has yet another type of macro:
@@ -2844,20 +2846,21 @@ CodeParams parse_params( bool use_template_capture )
 
 			s32 capture_level  = 0;
 			s32 template_level = 0;
-			while ( (left && ( currtok.Type != Tok_Comma ) && template_level >= 0 && CheckEndParams()) || (capture_level > 0 || template_level > 0) )
+			while ( left && ( ( currtok.Type != Tok_Comma && template_level >= 0 && CheckEndParams() ) || capture_level > 0 || template_level > 0 ) )
 			{
-				if (currtok.Text.Ptr[ 0 ] == '<')
+				if ( capture_level == 0 && str_are_equal(currtok.Text, txt("<")) )
 					++ template_level;
 
-				if (currtok.Text.Ptr[ 0 ] == '>')
-					-- template_level;
-				if (currtok.Type == Tok_Operator && currtok.Text.Ptr[1] == '>')
+				else if ( template_level > 0 && str_are_equal(currtok.Text, txt(">")) )
 					-- template_level;
 
-				if ( currtok.Type == Tok_Paren_Open)
+				else if ( template_level > 0 && str_are_equal(currtok.Text, txt(">>")) )
+					template_level -= 2;
+
+				if ( currtok.Type == Tok_Paren_Open || currtok.Type == Tok_BraceCurly_Open )
 					++ capture_level;
 
-				if ( currtok.Type == Tok_Paren_Close)
+				if ( currtok.Type == Tok_Paren_Close || currtok.Type == Tok_BraceCurly_Close )
 					-- capture_level;
 
 				value_tok.Text.Len = ( ( sptr )currtok.Text.Ptr + currtok.Text.Len ) - ( sptr )value_tok.Text.Ptr;
@@ -2877,7 +2880,8 @@ CodeParams parse_params( bool use_template_capture )
 	if ( name.Text.Len > 0 )
 		result->Name = cache_str( name.Text );
 
-	result->ValueType = type;
+	result->PostNameMacro = post_name_macro;
+	result->ValueType     = type;
 
 	if ( value )
 		result->Value = value;
@@ -2892,6 +2896,10 @@ CodeParams parse_params( bool use_template_capture )
 		Code type  = { nullptr };
 		Code value = { nullptr };
 
+		macro           = NullCode;
+		name            = NullToken;
+		post_name_macro = NullCode;
+
 		if ( check( Tok_Varadic_Argument ) )
 		{
 			eat( Tok_Varadic_Argument );
@@ -2927,6 +2935,8 @@ CodeParams parse_params( bool use_template_capture )
 				eat( currtok.Type );
 				// ( <Macro> <ValueType> <Name> = <Expression>, <Macro> <ValueType> <Name>
 			}
+			cast(CodeTypename, type)->ArrExpr = parse_array_decl();
+			// ( <Macro> <ValueType> <Name> = <Expression>, <Macro> <ValueType> <Name> [ <Expression> ]
 
 			// Unreal has yet another type of macro:
 			// template<class T UE_REQUIRES(TPointerIsConvertibleFromTo<T, UInterface>::Value)>
@@ -2953,23 +2963,21 @@ CodeParams parse_params( bool use_template_capture )
 
 				s32 capture_level  = 0;
 				s32 template_level = 0;
-				while ( (left
-				&& currtok.Type != Tok_Comma
-				&& template_level >= 0
-				&& CheckEndParams()) || (capture_level > 0 || template_level > 0) )
+				while ( left && ( ( currtok.Type != Tok_Comma && template_level >= 0 && CheckEndParams() ) || capture_level > 0 || template_level > 0 ) )
 				{
-					if (currtok.Text.Ptr[ 0 ] == '<')
+					if ( capture_level == 0 && str_are_equal(currtok.Text, txt("<")) )
 						++ template_level;
 
-					if (currtok.Text.Ptr[ 0 ] == '>')
-						-- template_level;
-					if (currtok.Type == Tok_Operator && currtok.Text.Ptr[1] == '>')
+					else if ( template_level > 0 && str_are_equal(currtok.Text, txt(">")) )
 						-- template_level;
 
-					if ( currtok.Type == Tok_Paren_Open)
+					else if ( template_level > 0 && str_are_equal(currtok.Text, txt(">>")) )
+						template_level -= 2;
+
+					if ( currtok.Type == Tok_Paren_Open || currtok.Type == Tok_BraceCurly_Open )
 						++ capture_level;
 
-					if ( currtok.Type == Tok_Paren_Close)
+					if ( currtok.Type == Tok_Paren_Close || currtok.Type == Tok_BraceCurly_Close )
 						-- capture_level;
 
 					value_tok.Text.Len = ( ( sptr )currtok.Text.Ptr + currtok.Text.Len ) - ( sptr )value_tok.Text.Ptr;
-- 
2.43.0


From 781d957097a88eafffd34bc5fc0525b1441de520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:58 +0000
Subject: [PATCH 020/119] fix: thread_local and volatile variables and
 attribute macros were refused in a global body

---
 base/components/parser.cpp             | 2 +-
 base/components/parser_case_macros.cpp | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index 5131216..d85c9e2 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -1776,7 +1776,7 @@ CodeBody parse_global_nspace( CodeType which )
 
 			case Tok_Preprocess_Macro_Expr: 
 			{
-				if (tok_is_attribute(currtok))
+				if ( ! tok_is_attribute(currtok))
 				{
 					log_failure("Unbounded macro expression residing in class/struct body\n%S", parser_to_strbuilder(_ctx->parser));
 					return InvalidCode;
diff --git a/base/components/parser_case_macros.cpp b/base/components/parser_case_macros.cpp
index 0157cba..a4be3b0 100644
--- a/base/components/parser_case_macros.cpp
+++ b/base/components/parser_case_macros.cpp
@@ -35,7 +35,9 @@ case Tok_Spec_Global:           \
 case Tok_Spec_Inline:           \
 case Tok_Spec_Internal_Linkage: \
 case Tok_Spec_NeverInline:      \
-case Tok_Spec_Static
+case Tok_Spec_Static:           \
+case Tok_Spec_ThreadLocal:      \
+case Tok_Spec_Volatile
 
 #define GEN_PARSER_CLASS_GLOBAL_NSPACE_ALLOWED_MEMBER_SPECIFIER_CASES \
 case Spec_Constexpr:        \
@@ -48,6 +50,7 @@ case Spec_Inline:           \
 case Spec_Mutable:          \
 case Spec_NeverInline:      \
 case Spec_Static:           \
+case Spec_Thread_Local:     \
 case Spec_Volatile
 
 #define GEN_PARSER_FRIEND_ALLOWED_SPECIFIER_CASES \
-- 
2.43.0


From f978acbc6437f42d2f83d2318081f3970f977d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:49 +0000
Subject: [PATCH 021/119] fix: token lookups past the last token read outside
 the token array

---
 base/components/lexer.cpp  | 31 ++++++++++++++++++++-----------
 base/components/parser.cpp |  5 +----
 2 files changed, 21 insertions(+), 15 deletions(-)

diff --git a/base/components/lexer.cpp b/base/components/lexer.cpp
index b31fe96..91abf91 100644
--- a/base/components/lexer.cpp
+++ b/base/components/lexer.cpp
@@ -19,14 +19,23 @@ StrBuilder tok_to_strbuilder(Token tok)
 
 bool lex__eat( TokArray* self, TokType type );
 
+// Token at idx, or an invalid token when there is none.
+internal
+Token* lex_at(TokArray* self, s32 idx)
+{
+	local_persist
+	Token none = {};
+	return idx >= 0 && idx < scast(s32, array_num(self->Arr)) ? & self->Arr[idx] : & none;
+}
+
 Token* lex_current(TokArray* self, bool skip_formatting )
 {
 	if ( skip_formatting )
 	{
-		while ( self->Arr[self->Idx].Type == Tok_NewLine || self->Arr[self->Idx].Type == Tok_Comment  )
+		while ( lex_at(self, self->Idx)->Type == Tok_NewLine || lex_at(self, self->Idx)->Type == Tok_Comment  )
 			self->Idx++;
 	}
-	return & self->Arr[self->Idx];
+	return lex_at(self, self->Idx);
 }
 
 Token* lex_peek(TokArray self, bool skip_formatting)
@@ -34,12 +43,12 @@ Token* lex_peek(TokArray self, bool skip_formatting)
 	s32 idx = self.Idx;
 	if ( skip_formatting )
 	{
-		while ( self.Arr[idx].Type == Tok_NewLine )
+		while ( lex_at(& self, idx)->Type == Tok_NewLine )
 			idx++;
 
-		return & self.Arr[idx];
+		return lex_at(& self, idx);
 	}
-	return & self.Arr[idx];
+	return lex_at(& self, idx);
 }
 
 Token* lex_previous(TokArray self, bool skip_formatting)
@@ -47,12 +56,12 @@ Token* lex_previous(TokArray self, bool skip_formatting)
 	s32 idx = self.Idx;
 	if ( skip_formatting )
 	{
-		while ( self.Arr[idx].Type == Tok_NewLine )
+		while ( lex_at(& self, idx)->Type == Tok_NewLine )
 			idx --;
 
-		return & self.Arr[idx];
+		return lex_at(& self, idx);
 	}
-	return & self.Arr[idx - 1];
+	return lex_at(& self, idx - 1);
 }
 
 Token* lex_next(TokArray self, bool skip_formatting)
@@ -60,12 +69,12 @@ Token* lex_next(TokArray self, bool skip_formatting)
 	s32 idx = self.Idx;
 	if ( skip_formatting )
 	{
-		while ( self.Arr[idx].Type == Tok_NewLine )
+		while ( lex_at(& self, idx)->Type == Tok_NewLine )
 			idx++;
 
-		return & self.Arr[idx + 1];
+		return lex_at(& self, idx + 1);
 	}
-	return & self.Arr[idx + 1];
+	return lex_at(& self, idx + 1);
 }
 
 enum
diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index d85c9e2..e0a28ab 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -38,7 +38,7 @@ StrBuilder parser_to_strbuilder(ParseContext ctx)
 
 	sptr        length  = scope_start.Text.Len;
 	char const* current = scope_start.Text.Ptr + length;
-	while ( current <= array_back( ctx.Tokens.Arr)->Text.Ptr && (* current) != '\n' && length < 74 )
+	while ( current && current < array_back( ctx.Tokens.Arr)->Text.Ptr && (* current) != '\n' && length < 74 )
 	{
 		current++;
 		length++;
@@ -52,9 +52,6 @@ StrBuilder parser_to_strbuilder(ParseContext ctx)
 	sptr   dist            = (sptr)last_valid.Text.Ptr - (sptr)scope_start.Text.Ptr + 2;
 	sptr   length_from_err = dist;
 
-	Str err_str        = { last_valid.Text.Ptr, length_from_err };
-	StrBuilder line_from_err = strbuilder_make_str( _ctx->Allocator_Temp, err_str );
-
 	if ( length_from_err < 100 )
 		strbuilder_append_fmt(& result, "\t(%d, %d):%*c\n", last_valid.Line, last_valid.Column, length_from_err, '^' );
 	else
-- 
2.43.0


From 61d5b7d2b1139826d63ccdf899a29f43c94d146d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:57 +0000
Subject: [PATCH 022/119] fix: variables of an in-place class, struct, enum or
 union type printed as something else

---
 base/components/code_serialization.cpp | 21 ++++++++++++++-------
 base/components/parser.cpp             |  2 ++
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/base/components/code_serialization.cpp b/base/components/code_serialization.cpp
index bf81ac1..207bf1c 100644
--- a/base/components/code_serialization.cpp
+++ b/base/components/code_serialization.cpp
@@ -1254,6 +1254,13 @@ void using_to_strbuilder_ref(CodeUsing self, StrBuilder* result )
 		strbuilder_append_str( result, txt("\n"));
 }
 
+// The type of a variable may be an in-place definition: struct { ... } name;
+internal
+StrBuilder var_type_to_strbuilder(CodeTypename type)
+{
+	return type->Type == CT_Typename ? typename_to_strbuilder(type) : code_to_strbuilder(cast(Code, type));
+}
+
 neverinline
 void var_to_strbuilder_ref(CodeVar self, StrBuilder* result )
 {
@@ -1268,7 +1275,7 @@ void var_to_strbuilder_ref(CodeVar self, StrBuilder* result )
 
 		strbuilder_append_str( result, self->Name );
 
-		if ( self->ValueType && self->ValueType->ArrExpr )
+		if ( self->ValueType && self->ValueType->Type == CT_Typename && self->ValueType->ArrExpr )
 		{
 			strbuilder_append_fmt( result, "[ %SB ]", code_to_strbuilder(self->ValueType->ArrExpr) );
 
@@ -1309,9 +1316,9 @@ void var_to_strbuilder_ref(CodeVar self, StrBuilder* result )
 		if ( self->Specs )
 			strbuilder_append_fmt( result, "%SB", specifiers_to_strbuilder(self->Specs) );
 
-		strbuilder_append_fmt( result, "%SB %S", typename_to_strbuilder(self->ValueType), self->Name );
+		strbuilder_append_fmt( result, "%SB %S", var_type_to_strbuilder(self->ValueType), self->Name );
 
-		if ( self->ValueType && self->ValueType->ArrExpr )
+		if ( self->ValueType && self->ValueType->Type == CT_Typename && self->ValueType->ArrExpr )
 		{
 			strbuilder_append_fmt( result, "[ %SB ]", code_to_strbuilder(self->ValueType->ArrExpr) );
 
@@ -1346,11 +1353,11 @@ void var_to_strbuilder_ref(CodeVar self, StrBuilder* result )
 	}
 
 	if ( self->BitfieldSize )
-		strbuilder_append_fmt( result, "%SB %S : %SB", typename_to_strbuilder(self->ValueType), self->Name, code_to_strbuilder(self->BitfieldSize) );
+		strbuilder_append_fmt( result, "%SB %S : %SB", var_type_to_strbuilder(self->ValueType), self->Name, code_to_strbuilder(self->BitfieldSize) );
 
-	else if ( self->ValueType && self->ValueType->ArrExpr )
+	else if ( self->ValueType && self->ValueType->Type == CT_Typename && self->ValueType->ArrExpr )
 	{
-		strbuilder_append_fmt( result, "%SB %S[ %SB ]", typename_to_strbuilder(self->ValueType), self->Name, code_to_strbuilder(self->ValueType->ArrExpr) );
+		strbuilder_append_fmt( result, "%SB %S[ %SB ]", var_type_to_strbuilder(self->ValueType), self->Name, code_to_strbuilder(self->ValueType->ArrExpr) );
 
 		Code next_arr_expr = self->ValueType->ArrExpr->Next;
 		while ( next_arr_expr )
@@ -1361,7 +1368,7 @@ void var_to_strbuilder_ref(CodeVar self, StrBuilder* result )
 	}
 
 	else
-		strbuilder_append_fmt( result, "%SB %S", typename_to_strbuilder(self->ValueType), self->Name );
+		strbuilder_append_fmt( result, "%SB %S", var_type_to_strbuilder(self->ValueType), self->Name );
 
 	if ( self->Value )
 	{
diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index e0a28ab..51067a5 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -1254,6 +1254,8 @@ Code parse_complicated_definition( TokType which )
 			_ctx->parser.Scope->Name = name.Text;
 
 			CodeVar result = parse_variable_after_name(ModuleFlag_None, NullCode, NullCode, type, name.Text);
+			if ( cast(Code, result) != Code_Invalid )
+				type->Parent = cast(Code, result);
 			parser_pop(& _ctx->parser);
 			return (Code) result;
 		}
-- 
2.43.0


From 6a1aa9721bb26f134710b595284e771b72209db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:57 +0000
Subject: [PATCH 023/119] fix: enum entries with calls or attributes failed,
 enum class lost its class, directives joined an entry's line

---
 base/components/code_serialization.cpp | 22 ++++++++++++++++------
 base/components/parser.cpp             | 17 +++++++++++++----
 2 files changed, 29 insertions(+), 10 deletions(-)

diff --git a/base/components/code_serialization.cpp b/base/components/code_serialization.cpp
index 207bf1c..e45ce09 100644
--- a/base/components/code_serialization.cpp
+++ b/base/components/code_serialization.cpp
@@ -396,18 +396,20 @@ void enum_to_strbuilder_fwd(CodeEnum self, StrBuilder* result )
 	if ( bitfield_is_set( u32, self->ModuleFlags, ModuleFlag_Export ))
 		strbuilder_append_str( result, txt("export ") );
 
+	strbuilder_append_str( result, txt("enum ") );
+
 	if ( self->Attributes )
 		strbuilder_append_fmt( result, "%SB ", attributes_to_strbuilder(self->Attributes) );
 
 	if ( self->UnderlyingType )
-		strbuilder_append_fmt( result, "enum %S : %SB", self->Name, typename_to_strbuilder(self->UnderlyingType) );
+		strbuilder_append_fmt( result, "%S : %SB", self->Name, typename_to_strbuilder(self->UnderlyingType) );
 	else if (self->UnderlyingTypeMacro)
 	{
 		log_fmt("IDENTIFIED A UNDERLYING ENUM MACRO");
-		strbuilder_append_fmt( result, "enum %S %SB", self->Name, code_to_strbuilder(self->UnderlyingTypeMacro) );
+		strbuilder_append_fmt( result, "%S %SB", self->Name, code_to_strbuilder(self->UnderlyingTypeMacro) );
 	}
 	else
-		strbuilder_append_fmt( result, "enum %S", self->Name );
+		strbuilder_append_str( result, self->Name );
 
 	if ( self->Parent == nullptr || ( self->Parent->Type != CT_Typedef && self->Parent->Type != CT_Variable ) )
 	{
@@ -445,11 +447,16 @@ void enum_to_strbuilder_class_def(CodeEnum self, StrBuilder* result )
 	}
 	else
 	{
-		strbuilder_append_fmt( result, "enum %S\n{\n%SB\n}", self->Name, body_to_strbuilder(self->Body) );
+		strbuilder_append_fmt( result, "enum class %S\n{\n%SB\n}", self->Name, body_to_strbuilder(self->Body) );
 	}
 
 	if ( self->Parent == nullptr || ( self->Parent->Type != CT_Typedef && self->Parent->Type != CT_Variable ) )
-		strbuilder_append_str( result, txt(";\n"));
+	{
+		if ( self->InlineCmt )
+			strbuilder_append_fmt( result, ";  %S", self->InlineCmt->Content );
+		else
+			strbuilder_append_str( result, txt(";\n"));
+	}
 }
 
 void enum_to_strbuilder_class_fwd(CodeEnum self, StrBuilder* result )
@@ -464,7 +471,10 @@ void enum_to_strbuilder_class_fwd(CodeEnum self, StrBuilder* result )
 	if ( self->Attributes )
 		strbuilder_append_fmt( result, "%SB ", attributes_to_strbuilder(self->Attributes) );
 
-	strbuilder_append_fmt( result, "%S : %SB", self->Name, typename_to_strbuilder(self->UnderlyingType) );
+	strbuilder_append_str( result, self->Name );
+
+	if ( self->UnderlyingType )
+		strbuilder_append_fmt( result, " : %SB", typename_to_strbuilder(self->UnderlyingType) );
 
 	if ( self->Parent == nullptr || ( self->Parent->Type != CT_Typedef && self->Parent->Type != CT_Variable ) )
 	{
diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index 51067a5..30fa7dc 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -3929,8 +3929,14 @@ CodeEnum parser_parse_enum( bool inplace_def )
 			}
 
 			if ( currtok_noskip.Type == Tok_Preprocess_Hash )
+			{
 				eat( Tok_Preprocess_Hash );
 
+				// A directive may not follow an entry on its line
+				if ( member->Type == CT_Untyped )
+					body_append(body, fmt_newline );
+			}
+
 			switch ( currtok_noskip.Type )
 			{
 				case Tok_NewLine:
@@ -3988,12 +3994,18 @@ CodeEnum parser_parse_enum( bool inplace_def )
 					eat( Tok_Identifier);
 					// <Name>
 
+					parse_attributes();
+					// <Name> <Attributes>
+
 					if ( currtok.Type == Tok_Operator && currtok.Text.Ptr[0] == '=' )
 					{
 						eat( Tok_Operator );
 						// <Name> =
 
-						while ( currtok.Type != Tok_Comma && currtok.Type != Tok_BraceCurly_Close ) {
+						s32 level = 0;
+						while ( left && ( level || ( currtok.Type != Tok_Comma && currtok.Type != Tok_BraceCurly_Close ) ) ) {
+							level += check( Tok_Paren_Open  ) || check( Tok_BraceCurly_Open  ) || check( Tok_BraceSquare_Open );
+							level -= check( Tok_Paren_Close ) || check( Tok_BraceCurly_Close ) || check( Tok_BraceSquare_Close );
 							eat( currtok.Type );
 						}
 					}
@@ -5591,9 +5603,6 @@ CodeUsing parser_parse_using()
 		
 		if ( bitfield_is_set( u32, currtok.Flags, TF_Assign ))
 		{
-			attributes = parse_attributes();
-			// <ModuleFlags> using <Name> <Attributes>
-
 			eat( Tok_Operator );
 			// <ModuleFlags> using <Name> <Attributes> =
 
-- 
2.43.0


From 3a4cd0c75d8b81c73d2b70c19397373476d262c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:04 +0000
Subject: [PATCH 024/119] fix: comments after classes, structs, enums and
 namespaces printed as broken comments or in the wrong place

---
 base/components/code_serialization.cpp | 33 +++++++++++++++-----------
 base/components/inlines.hpp            |  2 +-
 2 files changed, 20 insertions(+), 15 deletions(-)

diff --git a/base/components/code_serialization.cpp b/base/components/code_serialization.cpp
index e45ce09..8b7d686 100644
--- a/base/components/code_serialization.cpp
+++ b/base/components/code_serialization.cpp
@@ -183,15 +183,15 @@ void class_to_strbuilder_def( CodeClass self, StrBuilder* result )
 		}
 	}
 
-	if ( self->InlineCmt )
-	{
-		strbuilder_append_fmt( result, " // %S", self->InlineCmt->Content );
-	}
-
 	strbuilder_append_fmt( result, "\n{\n%SB\n}", body_to_strbuilder(self->Body) );
 
 	if ( self->Parent == nullptr || ( self->Parent->Type != CT_Typedef && self->Parent->Type != CT_Variable ) )
-		strbuilder_append_str( result, txt(";\n") );
+	{
+		if ( self->InlineCmt )
+			strbuilder_append_fmt( result, ";  %S", self->InlineCmt->Content );
+		else
+			strbuilder_append_str( result, txt(";\n") );
+	}
 }
 
 void class_to_strbuilder_fwd( CodeClass self, StrBuilder* result )
@@ -211,7 +211,7 @@ void class_to_strbuilder_fwd( CodeClass self, StrBuilder* result )
 	if ( self->Parent == nullptr || ( self->Parent->Type != CT_Typedef && self->Parent->Type != CT_Variable ) )
 	{
 		if ( self->InlineCmt )
-			strbuilder_append_fmt( result, "; // %S\n", self->InlineCmt->Content );
+			strbuilder_append_fmt( result, ";  %S", self->InlineCmt->Content );
 		else
 			strbuilder_append_str( result, txt(";\n") );
 	}
@@ -386,7 +386,12 @@ void enum_to_strbuilder_def(CodeEnum self, StrBuilder* result )
 	else strbuilder_append_fmt( result, "enum %S\n{\n%SB\n}", self->Name, body_to_strbuilder(self->Body) );
 
 	if ( self->Parent == nullptr || ( self->Parent->Type != CT_Typedef && self->Parent->Type != CT_Variable ) )
-		strbuilder_append_str( result, txt(";\n"));
+	{
+		if ( self->InlineCmt )
+			strbuilder_append_fmt( result, ";  %S", self->InlineCmt->Content );
+		else
+			strbuilder_append_str( result, txt(";\n"));
+	}
 }
 
 void enum_to_strbuilder_fwd(CodeEnum self, StrBuilder* result )
@@ -1019,15 +1024,15 @@ void struct_to_strbuilder_def( CodeStruct self, StrBuilder* result )
 		}
 	}
 
-	if ( self->InlineCmt )
-	{
-		strbuilder_append_fmt( result, " // %S", self->InlineCmt->Content );
-	}
-
 	strbuilder_append_fmt( result, "\n{\n%SB\n}", body_to_strbuilder(self->Body) );
 
 	if ( self->Parent == nullptr || ( self->Parent->Type != CT_Typedef && self->Parent->Type != CT_Variable ) )
-		strbuilder_append_str( result, txt(";\n"));
+	{
+		if ( self->InlineCmt )
+			strbuilder_append_fmt( result, ";  %S", self->InlineCmt->Content );
+		else
+			strbuilder_append_str( result, txt(";\n"));
+	}
 }
 
 void struct_to_strbuilder_fwd( CodeStruct self, StrBuilder* result )
diff --git a/base/components/inlines.hpp b/base/components/inlines.hpp
index 5bf6bf5..b05e798 100644
--- a/base/components/inlines.hpp
+++ b/base/components/inlines.hpp
@@ -298,7 +298,7 @@ void using_to_strbuilder_ns(CodeUsing self, StrBuilder* result )
 	GEN_ASSERT(self);
 	GEN_ASSERT(result);
 	if ( self->InlineCmt )
-		strbuilder_append_fmt( result, "using namespace $S;  %S", self->Name, self->InlineCmt->Content );
+		strbuilder_append_fmt( result, "using namespace %S;  %S", self->Name, self->InlineCmt->Content );
 	else
 		strbuilder_append_fmt( result, "using namespace %S;\n", self->Name );
 }
-- 
2.43.0


From 0d1a0741d9fb00d11fd3034b2049fcfe5ed89217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:04 +0000
Subject: [PATCH 025/119] fix: multi-dimensional array typedefs printed with a
 semicolon after each bound

---
 base/components/code_serialization.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/base/components/code_serialization.cpp b/base/components/code_serialization.cpp
index 8b7d686..f07a999 100644
--- a/base/components/code_serialization.cpp
+++ b/base/components/code_serialization.cpp
@@ -1086,19 +1086,17 @@ void typedef_to_strbuilder_ref(CodeTypedef self, StrBuilder* result )
 
 	if ( self->UnderlyingType->Type == CT_Typename && self->UnderlyingType->ArrExpr )
 	{
-		strbuilder_append_fmt( result, "[ %SB ];", code_to_strbuilder(self->UnderlyingType->ArrExpr) );
+		strbuilder_append_fmt( result, "[ %SB ]", code_to_strbuilder(self->UnderlyingType->ArrExpr) );
 
 		Code next_arr_expr = self->UnderlyingType->ArrExpr->Next;
 		while ( next_arr_expr )
 		{
-			strbuilder_append_fmt( result, "[ %SB ];", code_to_strbuilder(next_arr_expr) );
+			strbuilder_append_fmt( result, "[ %SB ]", code_to_strbuilder(next_arr_expr) );
 			next_arr_expr = next_arr_expr->Next;
 		}
 	}
-	else
-	{
-		strbuilder_append_str( result, txt(";") );
-	}
+
+	strbuilder_append_str( result, txt(";") );
 
 	if ( self->InlineCmt )
 		strbuilder_append_fmt( result, "  %S", self->InlineCmt->Content);
-- 
2.43.0


From 04c5f2e3a88b0408491529808ef776f12f668d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:05 +0000
Subject: [PATCH 026/119] fix: using declarations refused qualified names and
 printed attributes in the wrong place

---
 base/components/code_serialization.cpp | 8 ++++----
 base/components/parser.cpp             | 9 ++++-----
 2 files changed, 8 insertions(+), 9 deletions(-)

diff --git a/base/components/code_serialization.cpp b/base/components/code_serialization.cpp
index f07a999..dd0cef8 100644
--- a/base/components/code_serialization.cpp
+++ b/base/components/code_serialization.cpp
@@ -1237,12 +1237,12 @@ void using_to_strbuilder_ref(CodeUsing self, StrBuilder* result )
 	if ( bitfield_is_set( u32, self->ModuleFlags, ModuleFlag_Export ))
 		strbuilder_append_str( result, txt("export ") );
 
-	if ( self->Attributes )
-		strbuilder_append_fmt( result, "%SB ", attributes_to_strbuilder(self->Attributes) );
-
 	if ( self->UnderlyingType )
 	{
-		strbuilder_append_fmt( result, "using %S = %SB", self->Name, typename_to_strbuilder(self->UnderlyingType) );
+		if ( self->Attributes )
+			strbuilder_append_fmt( result, "using %S %SB = %SB", self->Name, attributes_to_strbuilder(self->Attributes), typename_to_strbuilder(self->UnderlyingType) );
+		else
+			strbuilder_append_fmt( result, "using %S = %SB", self->Name, typename_to_strbuilder(self->UnderlyingType) );
 
 		if ( self->UnderlyingType->ArrExpr )
 		{
diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index 30fa7dc..0ab3297 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -5591,9 +5591,8 @@ CodeUsing parser_parse_using()
 		// <ModuleFlags> using namespace
 	}
 
-	name = currtok;
+	name = parse_identifier(nullptr);
 	_ctx->parser.Scope->Name = name.Text;
-	eat( Tok_Identifier );
 	// <ModuleFlags> using <namespace> <Name>
 
 	if ( ! is_namespace )
@@ -5645,11 +5644,11 @@ CodeUsing parser_parse_using()
 
 		if ( attributes )
 			result->Attributes = attributes;
-
-		if ( inline_cmt )
-			result->InlineCmt = inline_cmt;
 	}
 
+	if ( inline_cmt )
+		result->InlineCmt = inline_cmt;
+
 	parser_pop(& _ctx->parser);
 	return result;
 }
-- 
2.43.0


From fe1378195edfcf202812944b7e1db09eca7c9a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:05 +0000
Subject: [PATCH 027/119] fix: friend declarations, forward unions and defines
 parsed alone failed

---
 base/components/inlines.hpp | 3 ++-
 base/components/parser.cpp  | 8 ++++----
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/base/components/inlines.hpp b/base/components/inlines.hpp
index b05e798..5d75930 100644
--- a/base/components/inlines.hpp
+++ b/base/components/inlines.hpp
@@ -110,7 +110,8 @@ void friend_to_strbuilder_ref(CodeFriend self, StrBuilder* result )
 	GEN_ASSERT(result);
 	strbuilder_append_fmt( result, "friend %SB", code_to_strbuilder(self->Declaration) );
 
-	if ( self->Declaration->Type != CT_Function && self->Declaration->Type != CT_Operator && (* result)[ strbuilder_length(* result) - 1 ] != ';' )
+	// Everything else ends its own statement
+	if ( self->Declaration->Type == CT_Typename )
 	{
 		strbuilder_append_str( result, txt(";") );
 	}
diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index 0ab3297..6770a1a 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -3655,7 +3655,7 @@ CodeDefine parser_parse_define()
 	// #define <Name>
 
 	Macro* macro = lookup_macro(define->Name);
-	if (macro_is_functional(* macro)) {
+	if (macro && macro_is_functional(* macro)) {
 		eat( Tok_Paren_Open );
 		// #define <Name> (
 
@@ -4236,7 +4236,7 @@ CodeFriend parser_parse_friend()
 	}
 
 	CodeComment inline_cmt = NullCode;
-	if ( function && function->Type == CT_Function_Fwd )
+	if ( ! function && ! op )
 	{
 		Token stmt_end = currtok;
 		eat( Tok_Statement_End );
@@ -5443,7 +5443,7 @@ CodeUnion parser_parse_union( bool inplace_def )
 
 	CodeBody body = { nullptr };
 
-	if ( ! inplace_def || ! check(Tok_Identifier) )
+	if ( check( Tok_BraceCurly_Open ) )
 	{
 		eat( Tok_BraceCurly_Open );
 		// <ModuleFlags> union <Attributes> <Name> {
@@ -5451,7 +5451,7 @@ CodeUnion parser_parse_union( bool inplace_def )
 		body = cast(CodeBody, make_code());
 		body->Type = CT_Union_Body;
 
-		while ( ! check_noskip( Tok_BraceCurly_Close ) )
+		while ( left && ! check_noskip( Tok_BraceCurly_Close ) )
 		{
 			if ( currtok_noskip.Type == Tok_Preprocess_Hash )
 				eat( Tok_Preprocess_Hash );
-- 
2.43.0


From ad87b136dda3ecb7e9c8739305961b4c214f2b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:16 +0000
Subject: [PATCH 028/119] fix: export blocks and exported declarations in a
 body lost export or failed

---
 base/components/code_serialization.cpp |  6 +++---
 base/components/inlines.hpp            |  3 ++-
 base/components/parser.cpp             | 15 +++++++++++++++
 3 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/base/components/code_serialization.cpp b/base/components/code_serialization.cpp
index dd0cef8..b54922e 100644
--- a/base/components/code_serialization.cpp
+++ b/base/components/code_serialization.cpp
@@ -38,16 +38,16 @@ void body_to_strbuilder_export( CodeBody body, StrBuilder* result )
 	GEN_ASSERT(result != nullptr);
 	strbuilder_append_fmt( result, "export\n{\n" );
 
-	Code curr = cast(Code, body);
+	Code curr = body->Front;
 	s32  left = body->NumEntries;
 	while ( left-- )
 	{
 		code_to_strbuilder_ref(curr, result);
 		// strbuilder_append_fmt( result, "%SB", code_to_strbuilder(curr) );
-		++curr;
+		curr = curr->Next;
 	}
 
-	strbuilder_append_fmt( result, "};\n" );
+	strbuilder_append_fmt( result, "}\n" );
 }
 
 StrBuilder constructor_to_strbuilder(CodeConstructor self)
diff --git a/base/components/inlines.hpp b/base/components/inlines.hpp
index 5d75930..63d4c78 100644
--- a/base/components/inlines.hpp
+++ b/base/components/inlines.hpp
@@ -426,7 +426,8 @@ void body_append( CodeBody self, Code other )
 	GEN_ASSERT(self);
 	GEN_ASSERT(other);
 
-	if (code_is_body(other)) {
+	// An export body has braces of its own
+	if (code_is_body(other) && other->Type != CT_Export_Body) {
 		body_append_body( self, cast(CodeBody, other) );
 		return;
 	}
diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index 6770a1a..9f5dd13 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -1630,6 +1630,14 @@ CodeBody parse_global_nspace( CodeType which )
 
 		b32 macro_found = false;
 
+		ModuleFlag mflags = ModuleFlag_None;
+		if ( currtok_noskip.Type == Tok_Module_Export && nexttok.Type != Tok_BraceCurly_Open )
+		{
+			mflags = ModuleFlag_Export;
+			eat( Tok_Module_Export );
+			// export
+		}
+
 		switch ( currtok_noskip.Type )
 		{
 			case Tok_Comma:
@@ -1905,6 +1913,9 @@ CodeBody parse_global_nspace( CodeType which )
 			return InvalidCode;
 		}
 
+		if ( mflags )
+			member->ModuleFlags = mflags;
+
 		// log_fmt("Global Body Member: %s", member->debug_str());
 		body_append(result, member );
 	}
@@ -4103,6 +4114,10 @@ internal inline
 CodeBody parser_parse_export_body()
 {
 	push_scope();
+	if ( check( Tok_Module_Export ) )
+		eat( Tok_Module_Export );
+	// export
+
 	CodeBody result = parse_global_nspace( CT_Export_Body );
 	parser_pop(& _ctx->parser);
 	return result;
-- 
2.43.0


From 1612feb18249cc1a7111209fed034fa0a88cf055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:16 +0000
Subject: [PATCH 029/119] fix: functions and initialized variables of a class,
 struct, enum or union type failed in a body

---
 base/components/parser.cpp | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index 9f5dd13..2a4c7a0 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -1171,14 +1171,23 @@ Code parse_complicated_definition( TokType which )
 	s32 level       = 0;
 	b32 had_def     = false;
 	b32 had_paren   = false;
+	b32 had_assign  = false;
 	for ( ; idx < array_num(tokens.Arr); idx++ )
 	{
+		if ( level == 0 && ! had_def && bitfield_is_set( u32, tokens.Arr[ idx ].Flags, TF_Assign ) )
+			had_assign = true;
+
 		if ( tokens.Arr[ idx ].Type == Tok_BraceCurly_Open )
+		{
+			if ( level == 0 && idx > 0 && ! had_assign )
+				had_paren = tokens.Arr[ idx - 1 ].Type == Tok_Paren_Close || tokens.Arr[ idx - 1 ].Type == Tok_Spec_Const;
+
 			level++;
+		}
 
 		if ( tokens.Arr[ idx ].Type == Tok_BraceCurly_Close ) {
 			level--;
-			had_def = level == 0;
+			had_def = level == 0 && ! had_assign;
 		}
 
 		b32 found_fn_def = had_def && had_paren;
@@ -1188,9 +1197,9 @@ Code parse_complicated_definition( TokType which )
 	}
 
 	is_fn_def = had_def && had_paren;
-	if (is_fn_def)
+	if (is_fn_def || had_assign)
 	{
-		// Function definition with <which> on return type
+		// Function definition or initialized variable with <which> on its type
 		Code result = parse_operator_function_or_variable(false, NullCode, NullCode);
 		// <which> <typename>(...) ... { ... }
 		parser_pop(& _ctx->parser);
@@ -1278,7 +1287,7 @@ Code parse_complicated_definition( TokType which )
 			parser_pop(& _ctx->parser);
 			return result;
 		}
-		else if ( is_indirection )
+		else if ( is_indirection || tok.Type == Tok_Comma )
 		{
 			// Its a indirection type with type ID using struct namespace.
 			// <which> <type_identifier>* <identifier>;
@@ -1326,9 +1335,9 @@ Code parse_complicated_definition( TokType which )
 		parser_pop(& _ctx->parser);
 		return result;
 	}
-	else if ( tok.Type == Tok_BraceSquare_Close )
+	else if ( tok.Type == Tok_BraceSquare_Close || tok.Type == Tok_Paren_Close )
 	{
-		// Its an array definition
+		// Its an array definition or a function
 		Code result = parse_operator_function_or_variable( false, NullCode, NullCode );
 		// <which> <type_identifier> <identifier> [ ... ];
 		parser_pop(& _ctx->parser);
-- 
2.43.0


From 66adcde0900dd51f57a6096a7ecb6e1f77638f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:16 +0000
Subject: [PATCH 030/119] fix: code_validate_body never advanced over the
 entries and never held

---
 base/components/ast.cpp | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/base/components/ast.cpp b/base/components/ast.cpp
index d8042b5..0ac8e1a 100644
--- a/base/components/ast.cpp
+++ b/base/components/ast.cpp
@@ -1182,7 +1182,7 @@ bool code_validate_body(Code self)
 		case CT_Class_Body:
 		{
 			CodeBody body = cast(CodeBody, self);
-			for (Code code_entry = begin_CodeBody(body); code_entry != end_CodeBody(body); next_CodeBody(body, code_entry)) switch (code_entry->Type)
+			for (Code code_entry = begin_CodeBody(body); code_entry != end_CodeBody(body); code_entry = next_CodeBody(body, code_entry)) switch (code_entry->Type)
 			{
 				GEN_AST_BODY_CLASS_UNALLOWED_TYPES_CASES:
 					log_failure("AST::validate_body: Invalid entry in body %S", code_debug_str(code_entry));
@@ -1196,7 +1196,7 @@ bool code_validate_body(Code self)
 		case CT_Enum_Body:
 		{
 			CodeBody body = cast(CodeBody, self);
-			for ( Code entry = begin_CodeBody(body); entry != end_CodeBody(body); next_CodeBody(body, entry) )
+			for ( Code entry = begin_CodeBody(body); entry != end_CodeBody(body); entry = next_CodeBody(body, entry) )
 			{
 				if ( entry->Type != CT_Untyped )
 				{
@@ -1209,7 +1209,7 @@ bool code_validate_body(Code self)
 		case CT_Export_Body:
 		{
 			CodeBody body = cast(CodeBody, self);
-			for (Code code_entry = begin_CodeBody(body); code_entry != end_CodeBody(body); next_CodeBody(body, code_entry)) switch (code_entry->Type)
+			for (Code code_entry = begin_CodeBody(body); code_entry != end_CodeBody(body); code_entry = next_CodeBody(body, code_entry)) switch (code_entry->Type)
 			{
 				GEN_AST_BODY_EXPORT_UNALLOWED_TYPES_CASES:
 					log_failure("AST::validate_body: Invalid entry in body %S", code_debug_str(code_entry));
@@ -1220,10 +1220,10 @@ bool code_validate_body(Code self)
 			}
 		}
 		break;
-		case CT_Extern_Linkage:
+		case CT_Extern_Linkage_Body:
 		{
 			CodeBody body = cast(CodeBody, self);
-			for (Code code_entry = begin_CodeBody(body); code_entry != end_CodeBody(body); next_CodeBody(body, code_entry)) switch (code_entry->Type)
+			for (Code code_entry = begin_CodeBody(body); code_entry != end_CodeBody(body); code_entry = next_CodeBody(body, code_entry)) switch (code_entry->Type)
 			{
 				GEN_AST_BODY_EXTERN_LINKAGE_UNALLOWED_TYPES_CASES:
 					log_failure("AST::validate_body: Invalid entry in body %S", code_debug_str(code_entry));
@@ -1237,7 +1237,7 @@ bool code_validate_body(Code self)
 		case CT_Function_Body:
 		{
 			CodeBody body = cast(CodeBody, self);
-			for (Code code_entry = begin_CodeBody(body); code_entry != end_CodeBody(body); next_CodeBody(body, code_entry)) switch (code_entry->Type)
+			for (Code code_entry = begin_CodeBody(body); code_entry != end_CodeBody(body); code_entry = next_CodeBody(body, code_entry)) switch (code_entry->Type)
 			{
 				GEN_AST_BODY_FUNCTION_UNALLOWED_TYPES_CASES:
 					log_failure("AST::validate_body: Invalid entry in body %S", code_debug_str(code_entry));
@@ -1251,7 +1251,7 @@ bool code_validate_body(Code self)
 		case CT_Global_Body:
 		{
 			CodeBody body = cast(CodeBody, self);
-			for ( Code entry = begin_CodeBody(body); entry != end_CodeBody(body); next_CodeBody(body, entry) )switch (entry->Type)
+			for ( Code entry = begin_CodeBody(body); entry != end_CodeBody(body); entry = next_CodeBody(body, entry) )switch (entry->Type)
 			{
 				GEN_AST_BODY_GLOBAL_UNALLOWED_TYPES_CASES:
 					log_failure("AST::validate_body: Invalid entry in body %S", code_debug_str(entry));
@@ -1262,7 +1262,7 @@ bool code_validate_body(Code self)
 		case CT_Namespace_Body:
 		{
 			CodeBody body = cast(CodeBody, self);
-			for ( Code entry = begin_CodeBody(body); entry != end_CodeBody(body); next_CodeBody(body, entry) ) switch (entry->Type)
+			for ( Code entry = begin_CodeBody(body); entry != end_CodeBody(body); entry = next_CodeBody(body, entry) ) switch (entry->Type)
 			{
 				GEN_AST_BODY_NAMESPACE_UNALLOWED_TYPES_CASES:
 					log_failure("AST::validate_body: Invalid entry in body %S", code_debug_str(entry));
@@ -1273,7 +1273,7 @@ bool code_validate_body(Code self)
 		case CT_Struct_Body:
 		{
 			CodeBody body = cast(CodeBody, self);
-			for ( Code entry = begin_CodeBody(body); entry != end_CodeBody(body); next_CodeBody(body, entry) ) switch (entry->Type)
+			for ( Code entry = begin_CodeBody(body); entry != end_CodeBody(body); entry = next_CodeBody(body, entry) ) switch (entry->Type)
 			{
 				GEN_AST_BODY_STRUCT_UNALLOWED_TYPES_CASES:
 					log_failure("AST::validate_body: Invalid entry in body %S", code_debug_str(entry));
@@ -1284,7 +1284,7 @@ bool code_validate_body(Code self)
 		case CT_Union_Body:
 		{
 			CodeBody body = cast(CodeBody, self);
-			for ( Code entry = begin_CodeBody(body); entry != end_CodeBody(body); next_CodeBody(body, entry) )
+			for ( Code entry = begin_CodeBody(body); entry != end_CodeBody(body); entry = next_CodeBody(body, entry) )
 			{
 				if ( entry->Type != CT_Untyped )
 				{
@@ -1299,5 +1299,5 @@ bool code_validate_body(Code self)
 			log_failure( "AST::validate_body: Invalid this AST does not have a body %S", code_debug_str(self) );
 			return false;
 	}
-	return false;
+	return true;
 }
-- 
2.43.0


From 1d7ddde63130bed0df480313618bf7de0fd3e803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:16 +0000
Subject: [PATCH 031/119] fix: more than 16 specifiers overran the specifier
 buffers

---
 base/components/parser.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index 2a4c7a0..50096e3 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -1011,7 +1011,7 @@ CodeBody parse_class_struct_body( TokType which, Token name )
 				Specifier specs_found[16] = { Spec_NumSpecifiers };
 				s32        NumSpecifiers = 0;
 
-				while ( left && tok_is_specifier(currtok) )
+				while ( left && NumSpecifiers < 16 && tok_is_specifier(currtok) )
 				{
 					Specifier spec = str_to_specifier( currtok.Text );
 
@@ -1815,7 +1815,7 @@ CodeBody parse_global_nspace( CodeType which )
 				Specifier specs_found[16] = { Spec_NumSpecifiers };
 				s32        NumSpecifiers = 0;
 
-				while ( left && tok_is_specifier(currtok) )
+				while ( left && NumSpecifiers < 16 && tok_is_specifier(currtok) )
 				{
 					Specifier spec = str_to_specifier( currtok.Text );
 
@@ -4193,7 +4193,7 @@ CodeFriend parser_parse_friend()
 		Specifier specs_found[ 16 ] = { Spec_NumSpecifiers };
 		s32       NumSpecifiers = 0;
 
-		while ( left && tok_is_specifier(currtok) )
+		while ( left && NumSpecifiers < 16 && tok_is_specifier(currtok) )
 		{
 			Specifier spec = str_to_specifier( currtok.Text );
 
@@ -4311,7 +4311,7 @@ CodeFn parser_parse_function()
 	attributes = parse_attributes();
 	// <export> <Attributes>
 
-	while ( left && tok_is_specifier(currtok) )
+	while ( left && NumSpecifiers < 16 && tok_is_specifier(currtok) )
 	{
 		Specifier spec = str_to_specifier( currtok.Text );
 
@@ -4413,7 +4413,7 @@ CodeOperator parser_parse_operator()
 	attributes = parse_attributes();
 	// <export> <Attributes>
 
-	while ( left && tok_is_specifier(currtok) )
+	while ( left && NumSpecifiers < 16 && tok_is_specifier(currtok) )
 	{
 		Specifier spec = str_to_specifier( currtok.Text );
 
@@ -4642,7 +4642,7 @@ CodeTemplate parser_parse_template()
 
 		// Specifiers Parsing
 		{
-			while ( left && tok_is_specifier(currtok) )
+			while ( left && NumSpecifiers < 16 && tok_is_specifier(currtok) )
 			{
 				Specifier spec = str_to_specifier( currtok.Text );
 
@@ -4772,7 +4772,7 @@ CodeTypename parser_parse_type( bool from_template, bool* typedef_is_function )
 	// <Attributes>
 
 	// Prefix specifiers
-	while ( left && tok_is_specifier(currtok) )
+	while ( left && NumSpecifiers < 16 && tok_is_specifier(currtok) )
 	{
 		Specifier spec = str_to_specifier( currtok.Text );
 
@@ -4911,7 +4911,7 @@ else if ( currtok.Type == Tok_DeclType )
 	}
 
 	// Suffix specifiers for typename.
-	while ( left && tok_is_specifier(currtok) )
+	while ( left && NumSpecifiers < 16 && tok_is_specifier(currtok) )
 	{
 		Specifier spec = str_to_specifier( currtok.Text );
 
@@ -5113,7 +5113,7 @@ else if ( currtok.Type == Tok_DeclType )
 		// <Attributes> <ReturnType> <All Kinds of nonsense> ( <Parameters> )
 
 		// Look for suffix specifiers for the function
-		while ( left && tok_is_specifier(currtok) )
+		while ( left && NumSpecifiers < 16 && tok_is_specifier(currtok) )
 		{
 			Specifier spec = str_to_specifier( currtok.Text );
 
@@ -5698,7 +5698,7 @@ CodeVar parser_parse_variable()
 	attributes = parse_attributes();
 	// <ModuleFlags> <Attributes>
 
-	while ( left && tok_is_specifier(currtok) )
+	while ( left && NumSpecifiers < 16 && tok_is_specifier(currtok) )
 	{
 		Specifier spec = str_to_specifier( currtok.Text );
 		switch  ( spec )
-- 
2.43.0


From 84c914f81b525f6cd2bb82ceabb53fb4daa77820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:16 +0000
Subject: [PATCH 032/119] fix: failed parses popped scopes that were never
 pushed, function types read past the tokens

---
 base/components/interface.parsing.cpp | 3 ---
 base/components/parser.cpp            | 9 ++++-----
 2 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/base/components/interface.parsing.cpp b/base/components/interface.parsing.cpp
index 2652fd0..7542520 100644
--- a/base/components/interface.parsing.cpp
+++ b/base/components/interface.parsing.cpp
@@ -120,10 +120,7 @@ CodeEnum parse_enum( Str def )
 
 	TokArray toks = lex( def );
 	if ( toks.Arr == nullptr )
-	{
-		parser_pop(& _ctx->parser);
 		return InvalidCode;
-	}
 
 	_ctx->parser.Tokens = toks;
 	return parser_parse_enum( parser_not_inplace_def);
diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index 50096e3..4cee96e 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -141,13 +141,11 @@ bool _check_parse_args( Str def, char const* func_name )
 	if ( def.Len <= 0 )
 	{
 		log_failure( c_str_fmt_buf("gen::%s: length must greater than 0", func_name) );
-		parser_pop(& _ctx->parser);
 		return false;
 	}
 	if ( def.Ptr == nullptr )
 	{
 		log_failure( c_str_fmt_buf("gen::%s: def was null", func_name) );
-		parser_pop(& _ctx->parser);
 		return false;
 	}
 	return true;
@@ -4950,21 +4948,22 @@ else if ( currtok.Type == Tok_DeclType )
 	bool   is_function_typename = false;
 	Token* last_capture         = nullptr;
 	{
+		Token* end     = _ctx->parser.Tokens.Arr + array_num(_ctx->parser.Tokens.Arr);
 		Token* scanner = _ctx->parser.Tokens.Arr + _ctx->parser.Tokens.Idx;
 
 		// An identifier being within a typename's signature only occurs if were parsing a typename for a typedef.
-		if ( typedef_is_function && scanner->Type == Tok_Identifier )
+		if ( typedef_is_function && scanner < end && scanner->Type == Tok_Identifier )
 		{
 			is_function_typename = true;
 			++scanner;
 		}
-		is_function_typename = scanner->Type == Tok_Paren_Open;
+		is_function_typename = scanner < end && scanner->Type == Tok_Paren_Open;
 
 		Token* first_capture = scanner;
 		if ( is_function_typename )
 		{
 			// Go to the end of the signature
-			while ( scanner->Type != Tok_Statement_End && scanner->Type != Tok_BraceCurly_Open )
+			while ( scanner < end - 1 && scanner->Type != Tok_Statement_End && scanner->Type != Tok_BraceCurly_Open )
 				++scanner;
 
 			// Go back to the first capture start found
-- 
2.43.0


From 27989651fba924f27aa1290b52fcb143ceeacda8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:13 +0000
Subject: [PATCH 033/119] fix: code_debug_str printed Prev for Next and
 dereferenced null links

---
 base/components/ast.cpp | 50 ++++++++++++++++++++---------------------
 1 file changed, 25 insertions(+), 25 deletions(-)

diff --git a/base/components/ast.cpp b/base/components/ast.cpp
index 0ac8e1a..bc1c4d2 100644
--- a/base/components/ast.cpp
+++ b/base/components/ast.cpp
@@ -29,7 +29,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 		break;
 
 		case CT_Untyped:
@@ -46,7 +46,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tContent: %S", self->Content );
 		break;
@@ -61,7 +61,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tInlineCmt   : %S", self->InlineCmt  ? self->InlineCmt->Content                                  : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tAttributes  : %S", self->Attributes ? strbuilder_to_str( code_to_strbuilder(self->Attributes) ) : txt("Null") );
@@ -75,7 +75,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tInlineCmt   : %S", self->InlineCmt  ? self->InlineCmt->Content                                  : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tAttributes  : %S", self->Attributes ? strbuilder_to_str( code_to_strbuilder(self->Attributes) ) : txt("Null") );
@@ -87,7 +87,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tInlineCmt      : %S", self->InlineCmt       ? self->InlineCmt->Content                                       : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tSpecs          : %S", self->Specs           ? strbuilder_to_str( code_to_strbuilder(self->Specs) )           : txt("Null") );
@@ -100,7 +100,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tInlineCmt      : %S", self->InlineCmt       ? self->InlineCmt->Content                                       : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tSpecs          : %S", self->Specs           ? strbuilder_to_str( code_to_strbuilder(self->Specs) )           : txt("Null") );
@@ -112,7 +112,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tInlineCmt      : %S", self->InlineCmt       ? self->InlineCmt->Content                             : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tSpecs          : %S", self->Specs           ? strbuilder_to_str( code_to_strbuilder(self->Specs) ) : txt("Null") );
@@ -127,7 +127,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tInlineCmt       : %S", self->InlineCmt      ? self->InlineCmt->Content                                     : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tAttributes      : %S", self->Attributes     ? strbuilder_to_str( code_to_strbuilder(self->Attributes) )    : txt("Null") );
@@ -140,7 +140,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tInlineCmt       : %S", self->InlineCmt      ? self->InlineCmt->Content                                     : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tAttributes      : %S", self->Attributes     ? strbuilder_to_str( code_to_strbuilder(self->Attributes) )    : txt("Null") );
@@ -152,7 +152,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tBody: %S", self->Body ? code_debug_str(self->Body) : txt("Null") );
 		break;
@@ -161,7 +161,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tInlineCmt  : %S", self->InlineCmt   ? self->InlineCmt->Content                                  : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tDeclaration: %S", self->Declaration ? strbuilder_to_str( code_to_strbuilder(self->Declaration)) : txt("Null") );
@@ -171,7 +171,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tInlineCmt : %S", self->InlineCmt  ? self->InlineCmt->Content                                  : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tAttributes: %S", self->Attributes ? strbuilder_to_str( code_to_strbuilder(self->Attributes) ) : txt("Null") );
@@ -185,7 +185,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tInlineCmt : %S", self->InlineCmt  ? self->InlineCmt->Content                                  : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tAttributes: %S", self->Attributes ? strbuilder_to_str( code_to_strbuilder(self->Attributes) ) : txt("Null") );
@@ -198,7 +198,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 		break;
 
 		case CT_Operator:
@@ -206,7 +206,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tInlineCmt : %S", self->InlineCmt  ? self->InlineCmt->Content                                  : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tAttributes: %S", self->Attributes ? strbuilder_to_str( code_to_strbuilder(self->Attributes) ) : txt("Null") );
@@ -222,7 +222,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tInlineCmt : %S", self->InlineCmt  ? self->InlineCmt->Content                                  : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tAttributes: %S", self->Attributes ? strbuilder_to_str( code_to_strbuilder(self->Attributes) ) : txt("Null") );
@@ -236,7 +236,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tInlineCmt : %S", self->InlineCmt  ? self->InlineCmt->Content                                : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tSpecs     : %S", self->Specs      ? strbuilder_to_str( code_to_strbuilder(self->Specs))     : txt("Null") );
@@ -248,7 +248,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tInlineCmt : %S", self->InlineCmt  ? self->InlineCmt->Content                                : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tSpecs     : %S", self->Specs      ? strbuilder_to_str( code_to_strbuilder(self->Specs))     : txt("Null") );
@@ -257,8 +257,8 @@ Str code_debug_str(Code self)
 
 		case CT_Parameters:
 			strbuilder_append_fmt( result, "\n\tNumEntries: %d", self->NumEntries );
-			strbuilder_append_fmt( result, "\n\tLast      : %S", self->Last->Name );
-			strbuilder_append_fmt( result, "\n\tNext      : %S", self->Next->Name );
+			strbuilder_append_fmt( result, "\n\tLast      : %S", self->Last ? self->Last->Name : txt("Null") );
+			strbuilder_append_fmt( result, "\n\tNext      : %S", self->Next ? self->Next->Name : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tValueType : %S", self->ValueType ? strbuilder_to_str( code_to_strbuilder(self->ValueType)) : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tValue     : %S", self->Value     ? strbuilder_to_str( code_to_strbuilder(self->Value))     : txt("Null") );
 		break;
@@ -289,7 +289,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tParams     : %S", self->Params      ? strbuilder_to_str( code_to_strbuilder(self->Params))      : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tDeclaration: %S", self->Declaration ? strbuilder_to_str( code_to_strbuilder(self->Declaration)) : txt("Null") );
@@ -299,7 +299,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tInlineCmt     : %S", self->InlineCmt      ? self->InlineCmt->Content                                     : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tUnderlyingType: %S", self->UnderlyingType ? strbuilder_to_str( code_to_strbuilder(self->UnderlyingType)) : txt("Null") );
@@ -317,7 +317,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tAttributes: %S", self->Attributes ? strbuilder_to_str( code_to_strbuilder(self->Attributes) ) : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tBody      : %S", self->Body       ? code_debug_str(self->Body)                                : txt("Null") );
@@ -327,7 +327,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tInlineCmt     : %S", self->InlineCmt      ? self->InlineCmt->Content                                      : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tAttributes    : %S", self->Attributes     ? strbuilder_to_str( code_to_strbuilder(self->Attributes) )     : txt("Null") );
@@ -349,7 +349,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tInlineCmt   : %S", self->InlineCmt    ? self->InlineCmt->Content                                    : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tAttributes  : %S", self->Attributes   ? strbuilder_to_str( code_to_strbuilder(self->Attributes) )   : txt("Null") );
-- 
2.43.0


From 1f97cbd83d019064b3bc50d7568acdf1c49ff3a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:14 +0000
Subject: [PATCH 034/119] fix: access_spec_to_str named protected private

---
 base/components/types.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/base/components/types.hpp b/base/components/types.hpp
index 18762ea..e736854 100644
--- a/base/components/types.hpp
+++ b/base/components/types.hpp
@@ -49,9 +49,9 @@ Str access_spec_to_str( AccessSpec type )
 	local_persist
 	Str lookup[ (u32)AccessSpec_Num_AccessSpec ] = {
 		{ "",        sizeof( "" )        - 1 },
-		{ "private", sizeof("prviate")   - 1 },
-		{ "private", sizeof("protected") - 1 },
-		{ "public",  sizeof("public")    - 1 },
+		{ "private",   sizeof("private")   - 1 },
+		{ "protected", sizeof("protected") - 1 },
+		{ "public",    sizeof("public")    - 1 },
 	};
 
 	Str invalid = { "Invalid", sizeof("Invalid") - 1 };
-- 
2.43.0


From bfb2186d833ee5033b7461f043654d8898786450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:14 +0000
Subject: [PATCH 035/119] fix: operator() without parameters and unary
 plus/minus were rejected

---
 base/components/interface.upfront.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/base/components/interface.upfront.cpp b/base/components/interface.upfront.cpp
index 4e6cd7f..3550e33 100644
--- a/base/components/interface.upfront.cpp
+++ b/base/components/interface.upfront.cpp
@@ -172,7 +172,7 @@ OpValidateResult operator__validate( Operator op, CodeParams params_code, CodeTy
 					return OpValResult_Fail;
 				}
 
-				if ( code_is_equal((Code)params_code->ValueType, (Code)ret_type ) )
+				if ( ! code_is_equal((Code)params_code->ValueType, (Code)ret_type ) )
 				{
 					log_failure("gen::def_operator: "
 						"operator %S is non-member symbol yet first paramter does not equal return type\n"
@@ -353,8 +353,14 @@ OpValidateResult operator__validate( Operator op, CodeParams params_code, CodeTy
 			check_params();
 			break;
 
-		case Op_Subscript:
 		case Op_FunctionCall:
+			// It may have no parameters.
+			if ( params_code ) {
+				check_params();
+			}
+			break;
+
+		case Op_Subscript:
 		case Op_Comma:
 			check_params();
 			break;
-- 
2.43.0


From 8d678ae2ce0a7c1b3f0d5d1675170e0f7128f5df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:14 +0000
Subject: [PATCH 036/119] fix: adding an interface to a class or struct without
 a parent dereferenced null

---
 base/components/inlines.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/base/components/inlines.hpp b/base/components/inlines.hpp
index 63d4c78..bc1c14c 100644
--- a/base/components/inlines.hpp
+++ b/base/components/inlines.hpp
@@ -480,6 +480,12 @@ void class_add_interface( CodeClass self, CodeTypename type )
 		// If your planning on adding a proper parent,
 		// then you'll need to move this over to ParentType->next and update ParentAccess accordingly.
 	}
+	else
+	{
+		self->ParentType   = type;
+		self->ParentAccess = AccessSpec_Public;
+		return;
+	}
 
 	while ( possible_slot->Next != nullptr )
 	{
@@ -699,6 +705,12 @@ void struct_add_interface(CodeStruct self, CodeTypename type )
 		// If your planning on adding a proper parent,
 		// then you'll need to move this over to ParentType->next and update ParentAccess accordingly.
 	}
+	else
+	{
+		self->ParentType   = type;
+		self->ParentAccess = AccessSpec_Public;
+		return;
+	}
 
 	while ( possible_slot->Next != nullptr )
 	{
-- 
2.43.0


From faca8976589d9a40bdc040ed7b43f01be1b39342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:14 +0000
Subject: [PATCH 037/119] fix: dimensions after an empty array dimension were
 lost

---
 base/components/parser.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index 4cee96e..2fd669c 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -496,6 +496,13 @@ Code parse_array_decl()
 		eat( Tok_Operator );
 		// []
 
+		// Its a multi-dimensional array
+		if ( check( Tok_BraceSquare_Open ))
+		{
+			array_expr->Next = parse_array_decl();
+			// [][ <Content> ]...
+		}
+
 		parser_pop(& _ctx->parser);
 		return array_expr;
 	}
-- 
2.43.0


From 7f41c026229e758ea2566a09785f48b9b78e795a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:14 +0000
Subject: [PATCH 038/119] fix: comments after unions were lost, typedefs of a
 macro failed

---
 base/components/ast_types.hpp          |  2 +-
 base/components/code_serialization.cpp | 14 +++++++++++--
 base/components/parser.cpp             | 28 ++++++++++----------------
 3 files changed, 24 insertions(+), 20 deletions(-)

diff --git a/base/components/ast_types.hpp b/base/components/ast_types.hpp
index 27bfae1..7d01b1d 100644
--- a/base/components/ast_types.hpp
+++ b/base/components/ast_types.hpp
@@ -1099,7 +1099,7 @@ struct AST_Union
 		char               _PAD_[ sizeof(Specifier) * AST_ArrSpecs_Cap + sizeof(AST*) ];
 		struct
 		{
-			char           _PAD_INLINE_CMT_[ sizeof(AST*) ];
+			CodeComment    InlineCmt;
 			CodeAttributes Attributes;
 			char           _PAD_PROPERTIES_[ sizeof(AST*) * 3 ];
 			CodeBody       Body;
diff --git a/base/components/code_serialization.cpp b/base/components/code_serialization.cpp
index b54922e..359d97d 100644
--- a/base/components/code_serialization.cpp
+++ b/base/components/code_serialization.cpp
@@ -1206,7 +1206,12 @@ void union_to_strbuilder_def(CodeUnion self, StrBuilder* result )
 	}
 
 	if ( self->Parent == nullptr || ( self->Parent->Type != CT_Typedef && self->Parent->Type != CT_Variable ) )
-		strbuilder_append_str( result, txt(";\n"));
+	{
+		if ( self->InlineCmt )
+			strbuilder_append_fmt( result, ";  %S", self->InlineCmt->Content );
+		else
+			strbuilder_append_str( result, txt(";\n"));
+	}
 }
 
 void union_to_strbuilder_fwd(CodeUnion self, StrBuilder* result )
@@ -1227,7 +1232,12 @@ void union_to_strbuilder_fwd(CodeUnion self, StrBuilder* result )
 	}
 
 	if ( self->Parent == nullptr || ( self->Parent->Type != CT_Typedef && self->Parent->Type != CT_Variable ) )
-		strbuilder_append_str( result, txt(";\n"));
+	{
+		if ( self->InlineCmt )
+			strbuilder_append_fmt( result, ";  %S", self->InlineCmt->Content );
+		else
+			strbuilder_append_str( result, txt(";\n"));
+	}
 }
 
 void using_to_strbuilder_ref(CodeUsing self, StrBuilder* result )
diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index 2fd669c..c9b837f 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -3177,23 +3177,8 @@ Code parse_simple_preprocess( TokType which )
 		}
 		else if (macro && macro->Type == MT_Typename && str_contains(_ctx->parser.Scope->Prev->ProcName, txt("parser_parse_typedef")))
 		{
-			if ( peektok.Type == Tok_Statement_End )
-			{
-				Token stmt_end = currtok;
-				eat( Tok_Statement_End );
-				// <Macro>;
-
-				full_macro.Text.Len += prevtok.Text.Len;
-
-				// TODO(Ed): Reveiw the context for this? (ESPECIALLY THIS)
-				if ( currtok_noskip.Type == Tok_Comment && currtok_noskip.Line == stmt_end.Line )
-				{
-					eat( Tok_Comment );
-					// <Macro>; <InlineCmt>
-
-					full_macro.Text.Len += prevtok.Text.Len;
-				}
-			}
+			// The typedef takes the end of the statement and its inline comment
+			goto Leave_Scope_Early;
 		}
 		else if (
 				str_contains(calling_proc, txt("parse_global_nspace"))
@@ -5568,10 +5553,18 @@ CodeUnion parser_parse_union( bool inplace_def )
 		// <ModuleFlags> union <Attributes> <Name> { <Body> }
 	}
 
+	CodeComment inline_cmt = NullCode;
 	if ( ! inplace_def )
+	{
+		Token stmt_end = currtok;
 		eat( Tok_Statement_End );
 		// <ModuleFlags> union <Attributes> <Name> { <Body> };
 
+		if ( currtok_noskip.Type == Tok_Comment && currtok_noskip.Line == stmt_end.Line )
+			inline_cmt = parse_comment();
+		// <ModuleFlags> union <Attributes> <Name> { <Body> }; <InlineCmt>
+	}
+
 	CodeUnion
 	result = (CodeUnion) make_code();
 	result->Type        = body ? CT_Union : CT_Union_Fwd;
@@ -5582,6 +5575,7 @@ CodeUnion parser_parse_union( bool inplace_def )
 
 	result->Body       = body;
 	result->Attributes = attributes;
+	result->InlineCmt  = inline_cmt;
 
 	parser_pop(& _ctx->parser);
 	return result;
-- 
2.43.0


From f14991038e9b7239d7119269dac9d121008ef6d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:23 +0000
Subject: [PATCH 039/119] fix: names of typedefs of enums with an underlying
 type were lost, enum_underlying failed in bodies

---
 base/components/code_serialization.cpp |  8 +++-
 base/components/parser.cpp             | 51 ++++++++++++++++++++++++--
 2 files changed, 53 insertions(+), 6 deletions(-)

diff --git a/base/components/code_serialization.cpp b/base/components/code_serialization.cpp
index 359d97d..fd02b21 100644
--- a/base/components/code_serialization.cpp
+++ b/base/components/code_serialization.cpp
@@ -432,7 +432,7 @@ void enum_to_strbuilder_class_def(CodeEnum self, StrBuilder* result )
 	if ( bitfield_is_set( u32, self->ModuleFlags, ModuleFlag_Export ))
 		strbuilder_append_str( result, txt("export ") );
 
-	if ( self->Attributes || self->UnderlyingType )
+	if ( self->Attributes || self->UnderlyingType || self->UnderlyingTypeMacro )
 	{
 		strbuilder_append_str( result, txt("enum class ") );
 
@@ -445,6 +445,10 @@ void enum_to_strbuilder_class_def(CodeEnum self, StrBuilder* result )
 		{
 			strbuilder_append_fmt( result, "%S : %SB\n{\n%SB\n}", self->Name, typename_to_strbuilder(self->UnderlyingType), body_to_strbuilder(self->Body) );
 		}
+		else if ( self->UnderlyingTypeMacro )
+		{
+			strbuilder_append_fmt( result, "%S %SB\n{\n%SB\n}", self->Name, code_to_strbuilder(self->UnderlyingTypeMacro), body_to_strbuilder(self->Body) );
+		}
 		else
 		{
 			strbuilder_append_fmt( result, "%S\n{\n%SB\n}", self->Name, body_to_strbuilder(self->Body) );
@@ -1079,7 +1083,7 @@ void typedef_to_strbuilder_ref(CodeTypedef self, StrBuilder* result )
 	strbuilder_append_str( result, txt("typedef "));
 
 	// Determines if the typedef is a function typename
-	if ( self->UnderlyingType->ReturnType )
+	if ( self->UnderlyingType->Type == CT_Typename && self->UnderlyingType->ReturnType )
 		strbuilder_append_string( result, code_to_strbuilder(self->UnderlyingType) );
 	else
 		strbuilder_append_fmt( result, "%SB %S", code_to_strbuilder(self->UnderlyingType), self->Name );
diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index c9b837f..e267779 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -1162,6 +1162,39 @@ CodeComment parse_comment()
 	return result;
 }
 
+// Index of the first token past the attributes starting at idx
+internal
+s32 parser_skip_attributes( TokArray tokens, s32 idx, s32 end )
+{
+	while ( idx < end && tok_is_attribute( tokens.Arr[idx] ) )
+	{
+		if ( tokens.Arr[idx].Type == Tok_Attribute_Open )
+		{
+			while ( idx < end && tokens.Arr[idx].Type != Tok_Attribute_Close )
+				++ idx;
+			++ idx;
+			continue;
+		}
+		++ idx;
+
+		if ( idx >= end || tokens.Arr[idx].Type != Tok_Paren_Open )
+			continue;
+
+		s32 level = 0;
+		for ( ; idx < end; ++ idx )
+		{
+			if ( tokens.Arr[idx].Type == Tok_Paren_Open )
+				++ level;
+			else if ( tokens.Arr[idx].Type == Tok_Paren_Close && -- level == 0 )
+			{
+				++ idx;
+				break;
+			}
+		}
+	}
+	return idx;
+}
+
 internal
 Code parse_complicated_definition( TokType which )
 {
@@ -1177,14 +1210,24 @@ Code parse_complicated_definition( TokType which )
 	b32 had_def     = false;
 	b32 had_paren   = false;
 	b32 had_assign  = false;
-	for ( ; idx < array_num(tokens.Arr); idx++ )
+
+	s32 num_tokens = scast(s32, array_num(tokens.Arr));
+	s32 name_idx   = tokens.Idx + 1;
+	if ( which == Tok_Decl_Enum && name_idx < num_tokens && tokens.Arr[name_idx].Type == Tok_Decl_Class )
+		++ name_idx;
+	name_idx = parser_skip_attributes( tokens, name_idx, num_tokens );
+
+	// <enum> <Name> <enum_underlying macro>
+	b32 has_underlying_macro = which == Tok_Decl_Enum && name_idx + 1 < num_tokens && tokens.Arr[name_idx + 1].Type == Tok_Preprocess_Macro_Expr;
+
+	for ( ; idx < num_tokens; idx++ )
 	{
 		if ( level == 0 && ! had_def && bitfield_is_set( u32, tokens.Arr[ idx ].Flags, TF_Assign ) )
 			had_assign = true;
 
 		if ( tokens.Arr[ idx ].Type == Tok_BraceCurly_Open )
 		{
-			if ( level == 0 && idx > 0 && ! had_assign )
+			if ( level == 0 && idx > 0 && ! had_assign && ! has_underlying_macro )
 				had_paren = tokens.Arr[ idx - 1 ].Type == Tok_Paren_Close || tokens.Arr[ idx - 1 ].Type == Tok_Spec_Const;
 
 			level++;
@@ -1211,11 +1254,11 @@ Code parse_complicated_definition( TokType which )
 		return result;
 	}
 
-	if ( ( idx - 2 ) == tokens.Idx )
+	if ( ( idx - 1 ) == name_idx || ( has_underlying_macro && tokens.Arr[idx - 1].Type == Tok_Paren_Close ) )
 	{
 		// It's a forward declaration only
 		Code result = parse_forward_or_definition( which, is_inplace );
-		// <class, enum, struct, or union> <Name>;
+		// <class, enum, struct, or union> <Attributes> <Name>;
 		parser_pop(& _ctx->parser);
 		return result;
 	}
-- 
2.43.0


From a097afb748dee2e74fdf6e67cac5abc003c38399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:23 +0000
Subject: [PATCH 040/119] fix: storage of the interface array's arena ended
 before its use

---
 base/components/parser.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index e267779..c406481 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -738,10 +738,8 @@ Code parse_class_struct( TokType which, bool inplace_def )
 
 	local_persist
 	char interface_arr_mem[ kilobytes(4) ] = {0};
-	Array(CodeTypename) interfaces; {
-		Arena arena = arena_init_from_memory( interface_arr_mem, kilobytes(4) );
-		interfaces  = array_init_reserve(CodeTypename, arena_allocator_info(& arena), 4 );
-	}
+	Arena               interfaces_arena = arena_init_from_memory( interface_arr_mem, kilobytes(4) );
+	Array(CodeTypename) interfaces       = array_init_reserve(CodeTypename, arena_allocator_info(& interfaces_arena), 4 );
 
 	// TODO(Ed) : Make an AST_DerivedType, we'll store any arbitary derived type into there as a linear linked list of them.
 	if ( check( Tok_Assign_Classifer ) )
-- 
2.43.0


From 7463af5a7da404f5933586c5d95c80a20371747e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:23 +0000
Subject: [PATCH 041/119] fix: attributes before the specifiers of a member
 were lost

---
 base/components/parser.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index c406481..25a2c29 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -1062,15 +1062,15 @@ CodeBody parse_class_struct_body( TokType which, Token name )
 					if ( attributes )
 					{
 						StrBuilder fused = strbuilder_make_reserve( _ctx->Allocator_Temp, attributes->Content.Len + more_attributes->Content.Len );
-						strbuilder_append_fmt( & fused, "%SB %SB", attributes->Content, more_attributes->Content );
+						strbuilder_append_fmt( & fused, "%S %S", attributes->Content, more_attributes->Content );
 
 						Str attrib_name     = strbuilder_to_str(fused);
 						attributes->Name    = cache_str( attrib_name );
 						attributes->Content = attributes->Name;
 						// <Attributes> <Specifiers> <Attributes>
 					}
-
-					attributes = more_attributes;
+					else
+						attributes = more_attributes;
 				}
 
 				if ( currtok.Type == Tok_Operator && currtok.Text.Ptr[0] == '~' )
-- 
2.43.0


From e04d6f044908fd48c7ba100f58a113cefb969270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:23 +0000
Subject: [PATCH 042/119] fix: constructor lookahead ran into following
 statements

---
 base/components/parser.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index 25a2c29..eb73f3b 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -2036,6 +2036,10 @@ Code parse_global_nspace_constructor_destructor( CodeSpecifiers specifiers )
 
 		if ( nav.Type == Tok_Paren_Open )
 			break;
+
+		// The statement is not a constructor or destructor
+		if ( nav.Type == Tok_Statement_End || nav.Type == Tok_BraceCurly_Open || bitfield_is_set( u32, nav.Flags, TF_Assign ) )
+			return result;
 	}
 
 	-- idx;
-- 
2.43.0


From 9223465a341ae10400127d372ee59826e2a615be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:23 +0000
Subject: [PATCH 043/119] fix: the end of statement after a macro was cut

---
 base/components/parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index eb73f3b..4def060 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -3235,7 +3235,7 @@ Code parse_simple_preprocess( TokType which )
 				Token stmt_end = currtok;
 				eat( Tok_Statement_End );
 				// <Macro>;
-				full_macro.Text.Len += prevtok.Text.Len;
+				full_macro.Text.Len = ( (sptr)prevtok.Text.Ptr + prevtok.Text.Len ) - (sptr)full_macro.Text.Ptr;
 			}
 		}
 	}
-- 
2.43.0


From 61cc908aa2d12946e58ffdcdcfcfc30dc862aafd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:24 +0000
Subject: [PATCH 044/119] fix: friend operators failed

---
 base/components/parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index 4def060..a14ae2b 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -4290,7 +4290,7 @@ CodeFriend parser_parse_friend()
 	}
 
 	// Operator declaration or definition
-	if ( currtok.Type == Tok_Decl_Operator ) {
+	else if ( currtok.Type == Tok_Decl_Operator ) {
 		op = parse_operator_after_ret_type( ModuleFlag_None, NullCode, specifiers, type );
 	}
 
-- 
2.43.0


From 810c342acb248599d1742f87b7fb40c5aa700001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:08 +0000
Subject: [PATCH 045/119] fix: constructor lookahead read past the tokens

---
 base/components/parser.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index a14ae2b..1e0f335 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -2004,15 +2004,17 @@ Code parse_global_nspace_constructor_destructor( CodeSpecifiers specifiers )
 
 	s32   idx = tokens.Idx;
 	Token nav = tokens.Arr[ idx ];
-	for ( ; idx < array_num(tokens.Arr); idx++, nav = tokens.Arr[ idx ] )
+	for ( ; idx < array_num(tokens.Arr); idx++ )
 	{
+		nav = tokens.Arr[ idx ];
 		if ( nav.Text.Ptr[0] == '<' )
 		{
 			// Skip templated expressions as they mey have expressions with the () operators
 			s32 capture_level  = 0;
 			s32 template_level = 0;
-			for ( ; idx < array_num(tokens.Arr); idx++, nav = tokens.Arr[idx] )
+			for ( ; idx < array_num(tokens.Arr); idx++ )
 			{
+				nav = tokens.Arr[idx];
 				if (nav.Text.Ptr[ 0 ] == '<')
 					++ template_level;
 
@@ -2042,6 +2044,10 @@ Code parse_global_nspace_constructor_destructor( CodeSpecifiers specifiers )
 			return result;
 	}
 
+	// There is nothing the parameters could belong to
+	if ( idx >= array_num(tokens.Arr) || idx - 2 < tokens.Idx )
+		return result;
+
 	-- idx;
 	Token tok_right = tokens.Arr[idx];
 	Token tok_left  = NullToken;
-- 
2.43.0


From 387e4bfc54ca337c1325e1dc68d91242ad8001b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:08 +0000
Subject: [PATCH 046/119] fix: parameter lists of only ... failed, ; after a
 macro in a union was printed apart

---
 base/components/interface.cpp | 1 +
 base/components/parser.cpp    | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/base/components/interface.cpp b/base/components/interface.cpp
index b3eaf45..217188d 100644
--- a/base/components/interface.cpp
+++ b/base/components/interface.cpp
@@ -139,6 +139,7 @@ void define_constants()
 	param_varadic->Type      = CT_Parameters;
 	param_varadic->Name      = cache_str( txt("...") );
 	param_varadic->ValueType = t_empty;
+	param_varadic->NumEntries = 1;
 	code_set_global((Code)param_varadic);
 
 	preprocess_else = (CodePreprocessCond) make_code();
diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index 1e0f335..fb5db6f 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -2856,6 +2856,8 @@ CodeParams parse_params( bool use_template_capture )
 		eat( Tok_Varadic_Argument );
 		// ( or <  ...
 
+		eat( use_template_capture ? Tok_Operator : Tok_Paren_Close );
+
 		parser_pop(& _ctx->parser);
 		return param_varadic;
 		// ( ... )
@@ -3234,6 +3236,7 @@ Code parse_simple_preprocess( TokType which )
 		else if (
 				str_contains(calling_proc, txt("parse_global_nspace"))
 			||	str_contains(calling_proc, txt("parse_class_struct_body"))
+			||	str_contains(calling_proc, txt("parser_parse_union"))
 		)
 		{
 			if (left && peektok.Type == Tok_Statement_End)
-- 
2.43.0


From 76e1874f8b96a1dc20c804912d0f3bb9b9fdfeac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:05 +0000
Subject: [PATCH 047/119] fix: commas in brackets ended an initial value

---
 base/components/parser.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index fb5db6f..9451217 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -1421,6 +1421,10 @@ Code parse_assignment_expression()
 			level++;
 		if (currtok.Type == Tok_BraceCurly_Close )
 			level--;
+		if (currtok.Type == Tok_BraceSquare_Open )
+			level++;
+		if (currtok.Type == Tok_BraceSquare_Close )
+			level--;
 		if (currtok.Type == Tok_Paren_Open)
 			level++;
 		else if (currtok.Type == Tok_Paren_Close)
-- 
2.43.0


From d2c5ee045b20d5c12266ca7a0bf86027719663c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:05 +0000
Subject: [PATCH 048/119] fix: commas in brackets ended a parameter's default
 value

---
 base/components/parser.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index 9451217..6fb9e63 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -2938,10 +2938,10 @@ CodeParams parse_params( bool use_template_capture )
 				else if ( template_level > 0 && str_are_equal(currtok.Text, txt(">>")) )
 					template_level -= 2;
 
-				if ( currtok.Type == Tok_Paren_Open || currtok.Type == Tok_BraceCurly_Open )
+				if ( currtok.Type == Tok_Paren_Open || currtok.Type == Tok_BraceCurly_Open || currtok.Type == Tok_BraceSquare_Open )
 					++ capture_level;
 
-				if ( currtok.Type == Tok_Paren_Close || currtok.Type == Tok_BraceCurly_Close )
+				if ( currtok.Type == Tok_Paren_Close || currtok.Type == Tok_BraceCurly_Close || currtok.Type == Tok_BraceSquare_Close )
 					-- capture_level;
 
 				value_tok.Text.Len = ( ( sptr )currtok.Text.Ptr + currtok.Text.Len ) - ( sptr )value_tok.Text.Ptr;
@@ -3055,10 +3055,10 @@ CodeParams parse_params( bool use_template_capture )
 					else if ( template_level > 0 && str_are_equal(currtok.Text, txt(">>")) )
 						template_level -= 2;
 
-					if ( currtok.Type == Tok_Paren_Open || currtok.Type == Tok_BraceCurly_Open )
+					if ( currtok.Type == Tok_Paren_Open || currtok.Type == Tok_BraceCurly_Open || currtok.Type == Tok_BraceSquare_Open )
 						++ capture_level;
 
-					if ( currtok.Type == Tok_Paren_Close || currtok.Type == Tok_BraceCurly_Close )
+					if ( currtok.Type == Tok_Paren_Close || currtok.Type == Tok_BraceCurly_Close || currtok.Type == Tok_BraceSquare_Close )
 						-- capture_level;
 
 					value_tok.Text.Len = ( ( sptr )currtok.Text.Ptr + currtok.Text.Len ) - ( sptr )value_tok.Text.Ptr;
-- 
2.43.0


From 00f93874202eba7148bd8cc88bb9d3b11a994d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:51 +0000
Subject: [PATCH 049/119] fix: #if and #ifndef print their newline

---
 base/components/inlines.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/base/components/inlines.hpp b/base/components/inlines.hpp
index bc1c14c..88e8e26 100644
--- a/base/components/inlines.hpp
+++ b/base/components/inlines.hpp
@@ -197,7 +197,7 @@ void preprocess_to_strbuilder_if(CodePreprocessCond cond, StrBuilder* result )
 {
 	GEN_ASSERT(cond);
 	GEN_ASSERT(result);
-	strbuilder_append_fmt( result, "#if %S", cond->Content );
+	strbuilder_append_fmt( result, "#if %S\n", cond->Content );
 }
 
 inline
@@ -213,7 +213,7 @@ void preprocess_to_strbuilder_ifndef(CodePreprocessCond cond, StrBuilder* result
 {
 	GEN_ASSERT(cond);
 	GEN_ASSERT(result);
-	strbuilder_append_fmt( result, "#ifndef %S", cond->Content );
+	strbuilder_append_fmt( result, "#ifndef %S\n", cond->Content );
 }
 
 inline
-- 
2.43.0


From 6f681b66faec2c610494403cbf21ed8950b64001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:51 +0000
Subject: [PATCH 050/119] fix: params_get always returned null

---
 base/components/inlines.hpp | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/base/components/inlines.hpp b/base/components/inlines.hpp
index 88e8e26..8b02bcb 100644
--- a/base/components/inlines.hpp
+++ b/base/components/inlines.hpp
@@ -528,15 +528,11 @@ CodeParams params_get(CodeParams self, s32 idx )
 {
 	GEN_ASSERT(self);
 	CodeParams param = self;
-	do
+	while ( param != nullptr && idx > 0 )
 	{
-		if ( ++ param != nullptr )
-			return NullCode;
-
-		param = cast(CodeParams, cast(Code, param)->Next);
+		param = param->Next;
+		idx--;
 	}
-	while ( --idx );
-
 	return param;
 }
 forceinline
-- 
2.43.0


From 4350a97ae6eeb430b48fa9a8aa4cc51c3d60ec1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:00 +0000
Subject: [PATCH 051/119] fix: operators without an explicit operand are
 members

---
 base/components/interface.upfront.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/base/components/interface.upfront.cpp b/base/components/interface.upfront.cpp
index 3550e33..dfe7bff 100644
--- a/base/components/interface.upfront.cpp
+++ b/base/components/interface.upfront.cpp
@@ -51,6 +51,7 @@ OpValidateResult operator__validate( Operator op, CodeParams params_code, CodeTy
 	if ( ! ret_type )
 	{
 		log_failure("gen::def_operator: ret_type is null but is required by operator %S", operator_to_str(op));
+		return OpValResult_Fail;
 	}
 
 	if ( ret_type->Type != CT_Typename )
@@ -157,6 +158,8 @@ OpValidateResult operator__validate( Operator op, CodeParams params_code, CodeTy
 						return OpValResult_Fail;
 				}
 			}
+			else
+				is_member_symbol = true;
 			break;
 
 		case Op_Unary_Plus:
@@ -345,12 +348,14 @@ OpValidateResult operator__validate( Operator op, CodeParams params_code, CodeTy
 			}
 			else
 			{
-				is_member_symbol = true;
+				is_member_symbol = ! params_code;
 			}
 			break;
 
 		case Op_PtrToMemOfPtr:
+		case Op_Comma:
 			check_params();
+			is_member_symbol = params_code->NumEntries == 1;
 			break;
 
 		case Op_FunctionCall:
@@ -358,11 +363,12 @@ OpValidateResult operator__validate( Operator op, CodeParams params_code, CodeTy
 			if ( params_code ) {
 				check_params();
 			}
+			is_member_symbol = true;
 			break;
 
 		case Op_Subscript:
-		case Op_Comma:
 			check_params();
+			is_member_symbol = true;
 			break;
 
 		case Op_New:
-- 
2.43.0


From c006ffdb612e6875c23385db7b29c3154f3401e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:01 +0000
Subject: [PATCH 052/119] fix: failure reports of missing names name what is
 missing

---
 base/components/interface.upfront.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/base/components/interface.upfront.cpp b/base/components/interface.upfront.cpp
index dfe7bff..eeb9c97 100644
--- a/base/components/interface.upfront.cpp
+++ b/base/components/interface.upfront.cpp
@@ -388,11 +388,11 @@ forceinline
 bool name__check( char const* context, Str name )
 {
 	if ( name.Len <= 0 ) {
-		log_failure( "gen::%s: Invalid name length provided - %d",  name.Len );
+		log_failure( "gen::%s: Invalid name length provided - %d", context, (s32)name.Len );
 		return false;
 	}
 	if ( name.Ptr == nullptr ) {
-		log_failure( "gen::%s: name is null" );
+		log_failure( "gen::%s: name is null", context );
 		return false;
 	}
 	return true;
@@ -813,7 +813,7 @@ CodeFn def_function( Str name, Opts_def_function p )
 CodeInclude def_include( Str path, Opts_def_include p )
 {
 	if ( path.Len <= 0 || path.Ptr == nullptr ) {
-		log_failure( "gen::def_include: Invalid path provided - %d" );
+		log_failure( "gen::def_include: Invalid path provided - %d", (s32)path.Len );
 		GEN_DEBUG_TRAP();
 		return InvalidCode;
 	}
-- 
2.43.0


From f4bddf3a3666cee61131dfba955f5d0335cc2efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:01 +0000
Subject: [PATCH 053/119] fix: def_comment read past the end of its text

---
 base/components/interface.upfront.cpp | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/base/components/interface.upfront.cpp b/base/components/interface.upfront.cpp
index eeb9c97..4efb6ec 100644
--- a/base/components/interface.upfront.cpp
+++ b/base/components/interface.upfront.cpp
@@ -448,26 +448,22 @@ CodeComment def_comment( Str content )
 	StrBuilder  cmt_formatted = strbuilder_make_reserve( _ctx->Allocator_Temp, kilobytes(1) );
 	char const* end           = content.Ptr + content.Len;
 	char const* scanner       = content.Ptr;
-	s32         curr          = 0;
 	do
 	{
-		char const* next   = scanner;
-		s32         length = 0;
-		while ( next != end && scanner[ length ] != '\n' )
+		Str line = { scanner, 0 };
+		while ( scanner != end && * scanner != '\n' )
 		{
-			next = scanner + length;
-			length++;
+			scanner++;
+			line.Len++;
 		}
-		length++;
 
-		strbuilder_append_fmt(& cmt_formatted, "//%.*s", length, scanner );
-		scanner += length;
+		strbuilder_append_str( & cmt_formatted, txt("//") );
+		strbuilder_append_str( & cmt_formatted, line );
+		strbuilder_append_str( & cmt_formatted, txt("\n") );
+		scanner++;
 	}
 	while ( scanner <= end );
 
-	if ( * strbuilder_back(cmt_formatted) != '\n' )
-		strbuilder_append_str( & cmt_formatted, txt("\n") );
-
 	Str name = strbuilder_to_str(cmt_formatted);
 
 	Code
-- 
2.43.0


From ac21bc521185d32e22155dbeaf3dc22220de0d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:01 +0000
Subject: [PATCH 054/119] fix: def_enum refused definitions without an
 underlying type

---
 base/components/interface.upfront.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/components/interface.upfront.cpp b/base/components/interface.upfront.cpp
index 4efb6ec..27a03a6 100644
--- a/base/components/interface.upfront.cpp
+++ b/base/components/interface.upfront.cpp
@@ -675,7 +675,7 @@ CodeEnum def_enum( Str name, Opts_def_enum p )
 	else if ( p.type_macro ) {
 		result->UnderlyingTypeMacro = p.type_macro;
 	}
-	else if ( result->Type != CT_Enum_Class_Fwd && result->Type != CT_Enum_Fwd )
+	else if ( result->Type == CT_Enum_Fwd )
 	{
 		log_failure( "gen::def_enum: enum forward declaration must have an underlying type" );
 		GEN_DEBUG_TRAP();
-- 
2.43.0


From 6cf8dd6107a29f400ed54c4cf6614f974ab82bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:01 +0000
Subject: [PATCH 055/119] fix: def_struct did not link its body to the struct

---
 base/components/interface.upfront.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/base/components/interface.upfront.cpp b/base/components/interface.upfront.cpp
index 27a03a6..372d634 100644
--- a/base/components/interface.upfront.cpp
+++ b/base/components/interface.upfront.cpp
@@ -1063,8 +1063,9 @@ CodeStruct def_struct( Str name, Opts_def_struct p )
 		result->Name = cache_str( name );
 
 	if ( p.body ) {
-		result->Type = CT_Struct;
-		result->Body = p.body;
+		result->Type         = CT_Struct;
+		result->Body         = p.body;
+		result->Body->Parent = cast(Code, result);
 	}
 	else {
 		result->Type = CT_Struct_Fwd;
-- 
2.43.0


From 82c122a3d36636e4b56d285a1e6614a48884b36a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:01 +0000
Subject: [PATCH 056/119] fix: def_using refused every type

---
 base/components/interface.upfront.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/components/interface.upfront.cpp b/base/components/interface.upfront.cpp
index 372d634..e27773b 100644
--- a/base/components/interface.upfront.cpp
+++ b/base/components/interface.upfront.cpp
@@ -1240,7 +1240,7 @@ CodeUnion def_union( Str name, CodeBody body, Opts_def_union p )
 
 CodeUsing def_using( Str name, CodeTypename type, Opts_def_using p )
 {
-	if ( ! name_check( def_using, name ) || null_check( def_using, type ) ) {
+	if ( ! name_check( def_using, name ) || ! null_check( def_using, type ) ) {
 		GEN_DEBUG_TRAP();
 		return InvalidCode;
 	}
-- 
2.43.0


From 7348f19fa5fb11b7c2bf9d9169b87ff2b7ed24ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:01 +0000
Subject: [PATCH 057/119] fix: class and namespace bodies from an array were of
 another kind

---
 base/components/interface.upfront.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/base/components/interface.upfront.cpp b/base/components/interface.upfront.cpp
index e27773b..ed09306 100644
--- a/base/components/interface.upfront.cpp
+++ b/base/components/interface.upfront.cpp
@@ -1382,7 +1382,7 @@ CodeBody def_class_body_arr( s32 num, Code* codes )
 
 	CodeBody
 	result       = (CodeBody) make_code();
-	result->Type = CT_Function_Body;
+	result->Type = CT_Class_Body;
 	do
 	{
 		Code entry = *codes;
@@ -1840,7 +1840,7 @@ CodeBody def_namespace_body_arr( s32 num, Code* codes )
 
 	CodeBody
 	result       = (CodeBody) make_code();
-	result->Type = CT_Global_Body;
+	result->Type = CT_Namespace_Body;
 	do
 	{
 		Code entry = *codes;
-- 
2.43.0


From 3d5148436c7148afe7e2c6cd1af28db33758b5ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:01 +0000
Subject: [PATCH 058/119] fix: def_params read past its array and dropped the
 first value and the count

---
 base/components/interface.upfront.cpp | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/base/components/interface.upfront.cpp b/base/components/interface.upfront.cpp
index ed09306..c801ca8 100644
--- a/base/components/interface.upfront.cpp
+++ b/base/components/interface.upfront.cpp
@@ -1452,14 +1452,13 @@ CodeDefineParams def_define_params_arr( s32 num, CodeDefineParams* codes )
 		log_failure("gen::def_define_params: Code in coes array is not of paramter for preprocessor define type - %s", code_debug_str(current) ); \
 		return InvalidCode;                                                                                                                       \
 	}
-	CodeDefineParams current = (CodeDefineParams)code_duplicate(* codes);
+	CodeDefineParams current = * codes;
 	check_current(current);
 
-	CodeDefineParams
-	result            = (CodeDefineParams) make_code();
-	result->Name      = current->Name;
-	result->Type      = current->Type;
-	while( codes++, current = * codes, num--, num > 0 ) {
+	CodeDefineParams result = (CodeDefineParams) code_duplicate(current);
+	while ( -- num ) {
+		codes++;
+		current = * codes;
 		check_current(current);
 		define_params_append(result, current );
 	}
@@ -1909,15 +1908,13 @@ CodeParams def_params_arr( s32 num, CodeParams* codes )
 		log_failure("gen::def_params: Code in coes array is not of paramter type - %s", code_debug_str(current) );     \
 		return InvalidCode;                                                                                            \
 	}
-	CodeParams current = (CodeParams)code_duplicate(* codes);
+	CodeParams current = * codes;
 	check_current(current);
 
-	CodeParams
-	result            = (CodeParams) make_code();
-	result->Name      = current->Name;
-	result->Type      = current->Type;
-	result->ValueType = current->ValueType;
-	while( codes++, current = * codes, num--, num > 0 ) {
+	CodeParams result = (CodeParams) code_duplicate(current);
+	while ( -- num ) {
+		codes++;
+		current = * codes;
 		check_current(current);
 		params_append(result, current );
 	}
-- 
2.43.0


From 59372c3fc6a2b23cf840fd3c9b07eb0c8b797f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:01 +0000
Subject: [PATCH 059/119] fix: def_params dereferenced null entries

---
 base/components/interface.upfront.cpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/base/components/interface.upfront.cpp b/base/components/interface.upfront.cpp
index c801ca8..71ac0e3 100644
--- a/base/components/interface.upfront.cpp
+++ b/base/components/interface.upfront.cpp
@@ -1417,7 +1417,10 @@ CodeDefineParams def_define_params( s32 num, ... )
 	Code_POD         pod   = va_arg(va, Code_POD);
 	CodeDefineParams param = pcast( CodeDefineParams, pod );
 
-	null_check( def_define_params, param );
+	if ( ! null_check( def_define_params, param ) ) {
+		GEN_DEBUG_TRAP();
+		return InvalidCode;
+	}
 	if ( param->Type != CT_Parameters_Define ) {
 		log_failure( "gen::def_define_params: param %d is not a parameter for a preprocessor define", num - num + 1 );
 		return InvalidCode;
@@ -1428,6 +1431,10 @@ CodeDefineParams def_define_params( s32 num, ... )
 	{
 		pod   = va_arg(va, Code_POD);
 		param = pcast( CodeDefineParams, pod );
+		if ( ! null_check( def_define_params, param ) ) {
+			GEN_DEBUG_TRAP();
+			return InvalidCode;
+		}
 		if ( param->Type != CT_Parameters_Define ) {
 			log_failure( "gen::def_define_params: param %d is not a parameter for a preprocessor define", num - num + 1 );
 			return InvalidCode;
@@ -1873,7 +1880,10 @@ CodeParams def_params( s32 num, ... )
 	Code_POD  pod   = va_arg(va, Code_POD);
 	CodeParams param = pcast( CodeParams, pod );
 
-	null_check( def_params, param );
+	if ( ! null_check( def_params, param ) ) {
+		GEN_DEBUG_TRAP();
+		return InvalidCode;
+	}
 	if ( param->Type != CT_Parameters ) {
 		log_failure( "gen::def_params: param %d is not a Parameters", num - num + 1 );
 		return InvalidCode;
@@ -1884,6 +1894,10 @@ CodeParams def_params( s32 num, ... )
 	{
 		pod   = va_arg(va, Code_POD);
 		param = pcast( CodeParams, pod );
+		if ( ! null_check( def_params, param ) ) {
+			GEN_DEBUG_TRAP();
+			return InvalidCode;
+		}
 		if ( param->Type != CT_Parameters ) {
 			log_failure( "gen::def_params: param %d is not a Parameters", num - num + 1 );
 			return InvalidCode;
-- 
2.43.0


From f5fe2a0a8963622cd43d8899285cdb2116fdf833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:39 +0000
Subject: [PATCH 060/119] fix: a body that is an entry of another body lost its
 own entries

---
 base/components/ast.hpp       | 10 +++++-----
 base/components/ast_types.hpp |  9 +++++++--
 docs/AST_Types.md             |  4 +++-
 3 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/base/components/ast.hpp b/base/components/ast.hpp
index 2c9f9af..aa6e11d 100644
--- a/base/components/ast.hpp
+++ b/base/components/ast.hpp
@@ -407,6 +407,10 @@ struct AST
 			};
 		};
 		StrCached  Content;          // Attributes, Comment, Execution, Include
+		struct {
+			Code       Front;              // Bodies; A body may be an entry itself (export), so its entries are kept apart from Prev & Next.
+			Code       Back;               // Bodies
+		};
 		struct {
 			Specifier  ArrSpecs[AST_ArrSpecs_Cap]; // Specifiers
 			Code       NextSpecs;              // Specifiers; If ArrSpecs is full, then NextSpecs is used.
@@ -415,13 +419,9 @@ struct AST
 	StrCached      Name;
 	union {
 		Code Prev;
-		Code Front;
 		Code Last;
 	};
-	union {
-		Code Next;
-		Code Back;
-	};
+	Code              Next;
 	Token*            Token; // Reference to starting token, only available if it was derived from parsing.
 	Code              Parent;
 	CodeType          Type;
diff --git a/base/components/ast_types.hpp b/base/components/ast_types.hpp
index 7d01b1d..46348d7 100644
--- a/base/components/ast_types.hpp
+++ b/base/components/ast_types.hpp
@@ -30,10 +30,15 @@ struct AST_Body
 {
 	union {
 		char  _PAD_[ sizeof(Specifier) * AST_ArrSpecs_Cap + sizeof(AST*) ];
+		struct
+		{
+			Code      Front;
+			Code      Back;
+		};
 	};
 	StrCached Name;
-	Code      Front;
-	Code      Back;
+	Code      Prev;
+	Code      Next;
 	Token*    Tok;
 	Code      Parent;
 	CodeType  Type;
diff --git a/docs/AST_Types.md b/docs/AST_Types.md
index dbba845..a26c6cf 100644
--- a/docs/AST_Types.md
+++ b/docs/AST_Types.md
@@ -25,9 +25,11 @@ These are containers representing a scope body of a definition that can be of th
 Fields:
 
 ```cpp
-StrCached Name;
 Code      Front;
 Code      Back;
+StrCached Name;
+Code      Prev;
+Code      Next;
 Token*    Tok;
 Code      Parent;
 CodeType  Type;
-- 
2.43.0


From 9d75103143185ea5437bac1710c190a22266b5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:49 +0000
Subject: [PATCH 061/119] fix: appending an entry that is already in a list
 dragged the entries behind it along

---
 base/components/inlines.hpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/base/components/inlines.hpp b/base/components/inlines.hpp
index 8b02bcb..d57ea17 100644
--- a/base/components/inlines.hpp
+++ b/base/components/inlines.hpp
@@ -323,7 +323,11 @@ void code_append( Code self, Code other )
 	GEN_ASSERT_MSG(self != other, "Attempted to recursively append Code AST to itself.");
 
 	if ( other->Parent != nullptr )
-		other = code_duplicate(other);
+	{
+		other       = code_duplicate(other);
+		other->Prev = NullCode;
+		other->Next = NullCode;
+	}
 
 	other->Parent = self;
 
@@ -507,7 +511,12 @@ void params_append( CodeParams appendee, CodeParams other )
 	Code entry = cast(Code, other);
 
 	if ( entry->Parent != nullptr )
-		entry = code_duplicate( entry );
+	{
+		entry             = code_duplicate( entry );
+		entry->Last       = NullCode;
+		entry->Next       = NullCode;
+		entry->NumEntries = 1;
+	}
 
 	entry->Parent = self;
 
-- 
2.43.0


From 65e6d4660a88b5e6b17a5de4f781d6c7bf3e9d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:49 +0000
Subject: [PATCH 062/119] fix: code_entry dereferenced null behind the last
 entry

---
 base/components/inlines.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/base/components/inlines.hpp b/base/components/inlines.hpp
index d57ea17..fba9a13 100644
--- a/base/components/inlines.hpp
+++ b/base/components/inlines.hpp
@@ -371,16 +371,16 @@ Code* code_entry( Code self, u32 idx )
 {
 	GEN_ASSERT(self != nullptr);
 	Code* current = & self->Front;
-	while ( idx >= 0 && current != nullptr )
+	while ( * current != nullptr )
 	{
 		if ( idx == 0 )
-			return rcast( Code*, current);
+			return current;
 
 		current = & ( * current )->Next;
 		idx--;
 	}
 
-	return rcast( Code*, current);
+	return nullptr;
 }
 forceinline
 bool code_is_valid(Code self)
-- 
2.43.0


From df51d425d158791a5d8f4867c43fb640c29a97ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:49 +0000
Subject: [PATCH 063/119] fix: iterating an empty body dereferenced null

---
 base/components/inlines.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/components/inlines.hpp b/base/components/inlines.hpp
index fba9a13..5aa845a 100644
--- a/base/components/inlines.hpp
+++ b/base/components/inlines.hpp
@@ -460,7 +460,7 @@ Code begin_CodeBody( CodeBody body) {
 forceinline
 Code end_CodeBody(CodeBody body ){
 	GEN_ASSERT(body);
-	return body->Back->Next;
+	return body->Back != nullptr ? body->Back->Next : NullCode;
 }
 inline
 Code next_CodeBody(CodeBody body, Code entry) {
-- 
2.43.0


From eac8319074d6e3d8a10794249bf6df44fdd711de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:49 +0000
Subject: [PATCH 064/119] fix: types used as interfaces of several classes were
 chained together

---
 base/components/inlines.hpp | 52 ++++++++++++++++++++++++-------------
 1 file changed, 34 insertions(+), 18 deletions(-)

diff --git a/base/components/inlines.hpp b/base/components/inlines.hpp
index 5aa845a..069ac17 100644
--- a/base/components/inlines.hpp
+++ b/base/components/inlines.hpp
@@ -476,21 +476,29 @@ void class_add_interface( CodeClass self, CodeTypename type )
 {
 	GEN_ASSERT(self);
 	GEN_ASSERT(type);
-	CodeTypename possible_slot = self->ParentType;
-	if ( possible_slot != nullptr )
-	{
-		// Were adding an interface to parent type, so we need to make sure the parent type is public.
-		self->ParentAccess = AccessSpec_Public;
-		// If your planning on adding a proper parent,
-		// then you'll need to move this over to ParentType->next and update ParentAccess accordingly.
-	}
-	else
+	// The list is linked through the types, so it's made of copies: the ones given may be used elsewhere as well.
+	type         = cast(CodeTypename, code_duplicate(cast(Code, type)));
+	type->Parent = cast(Code, self);
+	type->Next   = NullCode;
+
+	if ( self->ParentType == nullptr )
 	{
 		self->ParentType   = type;
 		self->ParentAccess = AccessSpec_Public;
 		return;
 	}
+	if ( self->ParentType->Parent != cast(Code, self) )
+	{
+		self->ParentType         = cast(CodeTypename, code_duplicate(cast(Code, self->ParentType)));
+		self->ParentType->Parent = cast(Code, self);
+	}
 
+	// Were adding an interface to parent type, so we need to make sure the parent type is public.
+	self->ParentAccess = AccessSpec_Public;
+	// If your planning on adding a proper parent,
+	// then you'll need to move this over to ParentType->next and update ParentAccess accordingly.
+
+	CodeTypename possible_slot = self->ParentType;
 	while ( possible_slot->Next != nullptr )
 	{
 		possible_slot = cast(CodeTypename, possible_slot->Next);
@@ -702,21 +710,29 @@ Specifier* next_CodeSpecifiers(CodeSpecifiers self, Specifier* spec_iter)
 inline
 void struct_add_interface(CodeStruct self, CodeTypename type )
 {
-	CodeTypename possible_slot = self->ParentType;
-	if ( possible_slot != nullptr )
-	{
-		// Were adding an interface to parent type, so we need to make sure the parent type is public.
-		self->ParentAccess = AccessSpec_Public;
-		// If your planning on adding a proper parent,
-		// then you'll need to move this over to ParentType->next and update ParentAccess accordingly.
-	}
-	else
+	// The list is linked through the types, so it's made of copies: the ones given may be used elsewhere as well.
+	type         = cast(CodeTypename, code_duplicate(cast(Code, type)));
+	type->Parent = cast(Code, self);
+	type->Next   = NullCode;
+
+	if ( self->ParentType == nullptr )
 	{
 		self->ParentType   = type;
 		self->ParentAccess = AccessSpec_Public;
 		return;
 	}
+	if ( self->ParentType->Parent != cast(Code, self) )
+	{
+		self->ParentType         = cast(CodeTypename, code_duplicate(cast(Code, self->ParentType)));
+		self->ParentType->Parent = cast(Code, self);
+	}
 
+	// Were adding an interface to parent type, so we need to make sure the parent type is public.
+	self->ParentAccess = AccessSpec_Public;
+	// If your planning on adding a proper parent,
+	// then you'll need to move this over to ParentType->next and update ParentAccess accordingly.
+
+	CodeTypename possible_slot = self->ParentType;
 	while ( possible_slot->Next != nullptr )
 	{
 		possible_slot = cast(CodeTypename, possible_slot->Next);
-- 
2.43.0


From f1c297f45cdc77b563bdb2d7d519cc85d00ad326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:49 +0000
Subject: [PATCH 065/119] fix: specifiers could not be removed from a full
 list, nor when repeated

---
 base/components/inlines.hpp | 20 ++++----------------
 1 file changed, 4 insertions(+), 16 deletions(-)

diff --git a/base/components/inlines.hpp b/base/components/inlines.hpp
index 069ac17..aeee04a 100644
--- a/base/components/inlines.hpp
+++ b/base/components/inlines.hpp
@@ -654,36 +654,24 @@ s32 specifiers_remove( CodeSpecifiers self, Specifier to_remove )
 		log_failure("CodeSpecifiers: Attempted to append to a null specifiers AST!");
 		return -1;
 	}
-	if ( self->NumEntries == AST_ArrSpecs_Cap )
-	{
-		log_failure("CodeSpecifiers: Attempted to append over %d specifiers to a specifiers AST!", AST_ArrSpecs_Cap );
-		return -1;
-	}
 
 	s32 result = -1;
 
 	s32 curr = 0;
-	s32 next = 0;
-	for(; next < self->NumEntries; ++ curr, ++ next)
+	for ( s32 next = 0; next < self->NumEntries; ++ next )
 	{
 		Specifier spec = self->ArrSpecs[next];
 		if (spec == to_remove)
 		{
 			result = next;
-
-			next ++;
-			if (next >= self->NumEntries)
-				break;
-
-			spec = self->ArrSpecs[next];
+			continue;
 		}
 
 		self->ArrSpecs[ curr ] = spec;
+		curr ++;
 	}
 
-	if (result > -1) {
-		self->NumEntries --;
-	}
+	self->NumEntries = curr;
 	return result;
 }
 forceinline
-- 
2.43.0


From 967030bdc353343c179352212edf2fec553db8a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:49 +0000
Subject: [PATCH 066/119] fix: def_body refused an extern linkage body

---
 base/components/inlines.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/components/inlines.hpp b/base/components/inlines.hpp
index aeee04a..3a85e2e 100644
--- a/base/components/inlines.hpp
+++ b/base/components/inlines.hpp
@@ -739,7 +739,7 @@ CodeBody def_body( CodeType type )
 		case CT_Class_Body:
 		case CT_Enum_Body:
 		case CT_Export_Body:
-		case CT_Extern_Linkage:
+		case CT_Extern_Linkage_Body:
 		case CT_Function_Body:
 		case CT_Global_Body:
 		case CT_Namespace_Body:
-- 
2.43.0


From 268ef92806c5ce5407eb3fc497483bb89916d95b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:35 +0000
Subject: [PATCH 067/119] fix: token_fmt ran past its format and its buffer, or
 never ended

---
 base/components/interface.untyped.cpp | 124 ++++++++++++--------------
 1 file changed, 58 insertions(+), 66 deletions(-)

diff --git a/base/components/interface.untyped.cpp b/base/components/interface.untyped.cpp
index 69d74bb..ea30d9f 100644
--- a/base/components/interface.untyped.cpp
+++ b/base/components/interface.untyped.cpp
@@ -3,92 +3,84 @@
 #include "interface.parsing.cpp"
 #endif
 
-ssize token_fmt_va( char* buf, usize buf_size, s32 num_tokens, va_list va )
+internal
+void token_fmt_set( char const* token, Str value )
 {
-	char const* buf_begin = buf;
-	ssize       remaining = buf_size;
-
 	if (_ctx->token_fmt_map.Hashes == nullptr) {
 		_ctx->token_fmt_map = hashtable_init(Str, _ctx->Allocator_DyanmicContainers );
 	}
-	// Populate token pairs
-	{
-		s32 left = num_tokens - 1;
-
-		while ( left-- )
-		{
-			char const* token = va_arg( va, char const* );
-			Str         value = va_arg( va, Str );
-
-			u32 key = crc32( token, c_str_len(token) );
-			hashtable_set( _ctx->token_fmt_map, key, value );
-		}
-	}
+	u32 key = crc32( token, c_str_len(token) );
+	hashtable_set( _ctx->token_fmt_map, key, value );
+}
 
-	char const* fmt     = va_arg( va, char const* );
-	char        current = *fmt;
+// Expands the format with the tokens set, which are cleared thereafter.
+internal
+ssize token_fmt_expand( char* buf, ssize buf_size, char const* fmt )
+{
+	ssize length    = 0;
+	bool  too_small = false;
 
-	while ( current )
+	while ( * fmt && ! too_small )
 	{
-		ssize len = 0;
+		char const* text     = fmt;
+		ssize       text_len = 1;
 
-		while ( current && current != '<' && remaining )
-		{
-			* buf = * fmt;
-			buf++;
-			fmt++;
-			remaining--;
+		char const* next = fmt + 1;
 
-			current = * fmt;
-		}
-
-		if ( current == '<' )
+		if ( * fmt == '<' && _ctx->token_fmt_map.Hashes != nullptr )
 		{
 			char const* scanner = fmt + 1;
-
-			s32 tok_len = 0;
-
-			while ( *scanner != '>' )
-			{
-				tok_len++;
+			while ( * scanner && * scanner != '>' )
 				scanner++;
-			}
-
-			char const* token = fmt + 1;
-
-			u32      key   = crc32( token, tok_len );
-			Str*     value = hashtable_get(_ctx->token_fmt_map, key );
 
-			if ( value )
+			if ( * scanner == '>' )
 			{
-				ssize          left = value->Len;
-				char const* str  = value->Ptr;
-
-				while ( left-- )
+				u32  key   = crc32( fmt + 1, scanner - fmt - 1 );
+				Str* value = hashtable_get(_ctx->token_fmt_map, key );
+				if ( value )
 				{
-					* buf = * str;
-					buf++;
-					str++;
-					remaining--;
+					text     = value->Ptr;
+					text_len = value->Len;
+					next     = scanner + 1;
 				}
-
-				scanner++;
-				fmt     = scanner;
-				current = * fmt;
-				continue;
 			}
+		}
 
-			* buf = * fmt;
-			buf++;
-			fmt++;
-			remaining--;
-
-			current = * fmt;
+		if ( text_len > buf_size - length )
+		{
+			text_len  = buf_size - length;
+			too_small = true;
 		}
+
+		for ( ssize idx = 0; idx < text_len; ++ idx )
+			buf[length + idx] = text[idx];
+
+		length += text_len;
+		fmt     = next;
 	}
-	hashtable_clear(_ctx->token_fmt_map);
-	ssize result = buf_size - remaining;
-	return result;
+
+	if (_ctx->token_fmt_map.Hashes != nullptr) {
+		hashtable_clear(_ctx->token_fmt_map);
+	}
+	if ( too_small ) {
+		log_failure( "token_fmt: the expanded format does not fit in its buffer of %lld bytes", buf_size );
+	}
+	return length;
+}
+
+ssize token_fmt_va( char* buf, usize buf_size, s32 num_tokens, va_list va )
+{
+	// Populate token pairs
+	s32 left = num_tokens - 1;
+	while ( left-- > 0 )
+	{
+		char const* token = va_arg( va, char const* );
+		Str         value = va_arg( va, Str );
+		token_fmt_set( token, value );
+	}
+
+	char const* fmt = va_arg( va, char const* );
+	return token_fmt_expand( buf, buf_size, fmt );
 }
 
 Code untyped_str( Str content )
-- 
2.43.0


From a4d030fa15ebf49457a7749b7ba6eaf70cc6d7a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:39 +0000
Subject: [PATCH 068/119] fix: untyped_fmt and untyped_token_fmt never made any
 code

---
 base/components/interface.untyped.cpp | 47 +++++++++++----------------
 1 file changed, 19 insertions(+), 28 deletions(-)

diff --git a/base/components/interface.untyped.cpp b/base/components/interface.untyped.cpp
index ea30d9f..35124be 100644
--- a/base/components/interface.untyped.cpp
+++ b/base/components/interface.untyped.cpp
@@ -119,26 +119,20 @@ Code untyped_fmt( char const* fmt, ...)
 
 	va_list va;
 	va_start(va, fmt);
-	ssize length = c_str_fmt_va(buf, GEN_PRINTF_MAXLEN, fmt, va);
+	ssize length = c_str_fmt_va(buf, GEN_PRINTF_MAXLEN, fmt, va) - 1;
 	va_end(va);
-    Str content = { buf, length };
+	Str content = { buf, length };
 
-	Code
-	result          = make_code();
-	result->Type    = CT_Untyped;
-	result->Content = cache_str( content );
-
-	if ( result->Name.Len == 0 )
-	{
-		log_failure( "untyped_fmt: could not cache string" );
-		return InvalidCode;
-	}
-
-	return result;
+	return untyped_str( content );
 }
 
 Code untyped_token_fmt( s32 num_tokens, char const* fmt, ... )
 {
+	if ( fmt == nullptr )
+	{
+		log_failure( "untyped_token_fmt: null format string" );
+		return InvalidCode;
+	}
 	if ( num_tokens == 0 )
 	{
 		log_failure( "untyped_token_fmt: zero tokens" );
@@ -148,23 +142,20 @@ Code untyped_token_fmt( s32 num_tokens, char const* fmt, ... )
 	local_persist thread_local
 	char buf[GEN_PRINTF_MAXLEN] = { 0 };
 
+	s32 left = num_tokens;
+
 	va_list va;
 	va_start(va, fmt);
-	ssize length = token_fmt_va(buf, GEN_PRINTF_MAXLEN, num_tokens, va);
-	va_end(va);
-
-	Str buf_str = { buf, length };
-
-	Code
-	result          = make_code();
-	result->Type    = CT_Untyped;
-	result->Content = cache_str( buf_str );
-
-	if ( result->Name.Len == 0 )
+	while ( left-- > 0 )
 	{
-		log_failure( "untyped_fmt: could not cache string" );
-		return InvalidCode;
+		char const* token = va_arg( va, char const* );
+		Str         value = va_arg( va, Str );
+		token_fmt_set( token, value );
 	}
+	va_end(va);
 
-	return result;
+	ssize length  = token_fmt_expand( buf, GEN_PRINTF_MAXLEN, fmt );
+	Str   buf_str = { buf, length };
+
+	return untyped_str( buf_str );
 }
-- 
2.43.0


From c109d7a3d614032f09da28741fdcd3638c978c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:40 +0000
Subject: [PATCH 069/119] fix: validate_body refused comments in enum and union
 bodies

---
 base/components/ast.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/base/components/ast.cpp b/base/components/ast.cpp
index bc1c4d2..c6edcc9 100644
--- a/base/components/ast.cpp
+++ b/base/components/ast.cpp
@@ -1198,7 +1198,7 @@ bool code_validate_body(Code self)
 			CodeBody body = cast(CodeBody, self);
 			for ( Code entry = begin_CodeBody(body); entry != end_CodeBody(body); entry = next_CodeBody(body, entry) )
 			{
-				if ( entry->Type != CT_Untyped )
+				if ( entry->Type != CT_Untyped && entry->Type != CT_Comment )
 				{
 					log_failure( "AST::validate_body: Invalid entry in enum body (needs to be untyped or comment) %S", code_debug_str(entry) );
 					return false;
@@ -1286,7 +1286,7 @@ bool code_validate_body(Code self)
 			CodeBody body = cast(CodeBody, self);
 			for ( Code entry = begin_CodeBody(body); entry != end_CodeBody(body); entry = next_CodeBody(body, entry) )
 			{
-				if ( entry->Type != CT_Untyped )
+				if ( entry->Type != CT_Untyped && entry->Type != CT_Comment )
 				{
 					log_failure( "AST::validate_body: Invalid entry in union body (needs to be untyped or comment) %S", code_debug_str(entry) );
 					return false;
-- 
2.43.0


From 2b3a5d89c00a6715d56ecd6f4fd9176a3c483287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:40 +0000
Subject: [PATCH 070/119] fix: operators taking their operand by reference were
 refused

---
 base/components/interface.upfront.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/base/components/interface.upfront.cpp b/base/components/interface.upfront.cpp
index 71ac0e3..6ea65b8 100644
--- a/base/components/interface.upfront.cpp
+++ b/base/components/interface.upfront.cpp
@@ -35,7 +35,7 @@ OpValidateResult operator__validate( Operator op, CodeParams params_code, CodeTy
 	}
 
 #	define check_param_eq_ret()                                                                            \
-	if ( ! is_member_symbol && ! code_is_equal(cast(Code, params_code->ValueType), cast(Code, ret_type)) ) \
+	if ( ! is_member_symbol && ! str_are_equal(params_code->ValueType->Name, ret_type->Name) )             \
 	{                                                                                                      \
 		log_failure("gen::def_operator: operator %S requires first parameter to equal return type\n"       \
 			"param types: %S\n"                                                                            \
@@ -175,7 +175,7 @@ OpValidateResult operator__validate( Operator op, CodeParams params_code, CodeTy
 					return OpValResult_Fail;
 				}
 
-				if ( ! code_is_equal((Code)params_code->ValueType, (Code)ret_type ) )
+				if ( ! str_are_equal(params_code->ValueType->Name, ret_type->Name) )
 				{
 					log_failure("gen::def_operator: "
 						"operator %S is non-member symbol yet first paramter does not equal return type\n"
-- 
2.43.0


From 143c165843c7b79d0e4eba61117eb3e9882ba645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:40 +0000
Subject: [PATCH 071/119] fix: code_is_equal compared only some of the parts of
 a declaration

---
 base/components/ast.cpp | 192 ++++++++++++++++++++++------------------
 1 file changed, 107 insertions(+), 85 deletions(-)

diff --git a/base/components/ast.cpp b/base/components/ast.cpp
index c6edcc9..e43ac9a 100644
--- a/base/components/ast.cpp
+++ b/base/components/ast.cpp
@@ -52,8 +52,13 @@ Str code_debug_str(Code self)
 		break;
 
 		case CT_Preprocess_Define:
-			// TODO(ED): Needs implementaton
-			log_failure("code_debug_str: NOT IMPLEMENTED for CT_Preprocess_Define");
+			if ( self->Prev )
+				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+			if ( self->Next )
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
+
+			strbuilder_append_fmt( result, "\n\tParams: %S", self->Params ? strbuilder_to_str( code_to_strbuilder(self->Params) ) : txt("Null") );
+			strbuilder_append_fmt( result, "\n\tBody  : %S", self->Body   ? strbuilder_to_str( code_to_strbuilder(self->Body) )   : txt("Null") );
 		break;
 
 		case CT_Class:
@@ -264,8 +269,9 @@ Str code_debug_str(Code self)
 		break;
 
 		case CT_Parameters_Define:
-			// TODO(ED): Needs implementaton
-			log_failure("code_debug_str: NOT IMPLEMENTED for CT_Parameters_Define");
+			strbuilder_append_fmt( result, "\n\tNumEntries: %d", self->NumEntries );
+			strbuilder_append_fmt( result, "\n\tLast      : %S", self->Last ? self->Last->Name : txt("Null") );
+			strbuilder_append_fmt( result, "\n\tNext      : %S", self->Next ? self->Next->Name : txt("Null") );
 		break;
 
 		case CT_Specifiers:
@@ -707,6 +713,46 @@ bool code_is_equal( Code self, Code other )
 		                                                                                           \
 			return false;                                                                          \
 		}                                                                                          \
+	}                                                                                              \
+	else if ( other->ast )                                                                         \
+	{                                                                                              \
+		log_fmt("\nAST::is_equal: Failed for member " #ast " equivalent param is null\n"           \
+				"AST  : %S\n"                                                                      \
+				"Other: %S\n"                                                                      \
+				"For other's ast member: %S\n"                                                     \
+			, code_debug_str(self)                                                                 \
+			, code_debug_str(other)                                                                \
+			, code_debug_str(other->ast)                                                           \
+		);                                                                                         \
+                                                                                                   \
+		return false;                                                                              \
+	}
+
+	// The parent type has the interfaces linked behind it.
+	#define check_parent_types()                                                                   \
+	check_member_ast( ParentType );                                                                \
+	if ( self->ParentType )                                                                        \
+	{                                                                                              \
+		Code curr       = self->ParentType->Next;                                                  \
+		Code curr_other = other->ParentType->Next;                                                 \
+		while ( curr != nullptr && curr_other != nullptr )                                         \
+		{                                                                                          \
+			if ( ! code_is_equal( curr, curr_other ) )                                             \
+				return false;                                                                      \
+                                                                                                   \
+			curr       = curr->Next;                                                               \
+			curr_other = curr_other->Next;                                                         \
+		}                                                                                          \
+		if ( curr != nullptr || curr_other != nullptr )                                            \
+		{                                                                                          \
+			log_fmt("\nAST::is_equal: Failed for interfaces, there are more of them in one\n"      \
+					"AST  : %S\n"                                                                  \
+					"Other: %S\n"                                                                  \
+				, code_debug_str(self)                                                             \
+				, code_debug_str(other)                                                            \
+			);                                                                                     \
+			return false;                                                                          \
+		}                                                                                          \
 	}
 
 		case CT_NewLine:
@@ -733,8 +779,9 @@ bool code_is_equal( Code self, Code other )
 		case CT_Class_Fwd:
 		case CT_Struct_Fwd:
 		{
+			check_member_val( ModuleFlags );
 			check_member_str( Name );
-			check_member_ast( ParentType );
+			check_parent_types();
 			check_member_val( ParentAccess );
 			check_member_ast( Attributes );
 
@@ -746,9 +793,10 @@ bool code_is_equal( Code self, Code other )
 		{
 			check_member_val( ModuleFlags );
 			check_member_str( Name );
-			check_member_ast( ParentType );
+			check_parent_types();
 			check_member_val( ParentAccess );
 			check_member_ast( Attributes );
+			check_member_ast( Specs );
 			check_member_ast( Body );
 
 			return true;
@@ -756,6 +804,8 @@ bool code_is_equal( Code self, Code other )
 
 		case CT_Constructor:
 		{
+			check_member_str( Name );
+			check_member_ast( Specs );
 			check_member_ast( InitializerList );
 			check_member_ast( Params );
 			check_member_ast( Body );
@@ -765,6 +815,8 @@ bool code_is_equal( Code self, Code other )
 
 		case CT_Constructor_Fwd:
 		{
+			check_member_str( Name );
+			check_member_ast( Specs );
 			check_member_ast( InitializerList );
 			check_member_ast( Params );
 
@@ -773,6 +825,7 @@ bool code_is_equal( Code self, Code other )
 
 		case CT_Destructor:
 		{
+			check_member_str( Name );
 			check_member_ast( Specs );
 			check_member_ast( Body );
 
@@ -781,6 +834,7 @@ bool code_is_equal( Code self, Code other )
 
 		case CT_Destructor_Fwd:
 		{
+			check_member_str( Name );
 			check_member_ast( Specs );
 
 			return true;
@@ -835,6 +889,7 @@ bool code_is_equal( Code self, Code other )
 			check_member_ast( Attributes );
 			check_member_ast( Specs );
 			check_member_ast( Params );
+			check_member_ast( SuffixSpecs );
 			check_member_ast( Body );
 
 			return true;
@@ -848,6 +903,7 @@ bool code_is_equal( Code self, Code other )
 			check_member_ast( Attributes );
 			check_member_ast( Specs );
 			check_member_ast( Params );
+			check_member_ast( SuffixSpecs );
 
 			return true;
 		}
@@ -873,6 +929,7 @@ bool code_is_equal( Code self, Code other )
 		case CT_Operator_Member:
 		{
 			check_member_val( ModuleFlags );
+			check_member_val( Op );
 			check_member_str( Name );
 			check_member_ast( ReturnType );
 			check_member_ast( Attributes );
@@ -887,6 +944,7 @@ bool code_is_equal( Code self, Code other )
 		case CT_Operator_Member_Fwd:
 		{
 			check_member_val( ModuleFlags );
+			check_member_val( Op );
 			check_member_str( Name );
 			check_member_ast( ReturnType );
 			check_member_ast( Attributes );
@@ -917,100 +975,57 @@ bool code_is_equal( Code self, Code other )
 
 		case CT_Parameters:
 		{
+			check_member_val( NumEntries );
+			check_member_str( Name );
+			check_member_ast( ValueType );
+			check_member_ast( Macro );
+			check_member_ast( Value );
+			check_member_ast( PostNameMacro );
+
 			if ( self->NumEntries > 1 )
 			{
-				Code curr       = self;
-				Code curr_other = other;
-				while ( curr != nullptr  )
+				Code curr       = self->Next;
+				Code curr_other = other->Next;
+				while ( curr != nullptr && curr_other != nullptr )
 				{
-					if ( curr )
-					{
-						if ( curr_other == nullptr )
-						{
-							log_fmt("\nAST::is_equal: Failed for parameter, other equivalent param is null\n"
-									"AST  : %S\n"
-									"Other: %S\n"
-									"For ast member: %S\n"
-								, code_debug_str(curr)
-							);
-
-							return false;
-						}
-
-						if ( str_are_equal(curr->Name, curr_other->Name) )
-						{
-							log_fmt( "\nAST::is_equal: Failed for parameter name check\n"
-									"AST  : %S\n"
-									"Other: %S\n"
-									"For     ast member: %S\n"
-									"other's ast member: %S\n"
-								, code_debug_str(self)
-								, code_debug_str(other)
-								, code_debug_str(curr)
-								, code_debug_str(curr_other)
-							);
-							return false;
-						}
-
-						if ( curr->ValueType && ! code_is_equal(curr->ValueType, curr_other->ValueType) )
-						{
-							log_fmt( "\nAST::is_equal: Failed for parameter value type check\n"
-									"AST  : %S\n"
-									"Other: %S\n"
-									"For     ast member: %S\n"
-									"other's ast member: %S\n"
-								, code_debug_str(self)
-								, code_debug_str(other)
-								, code_debug_str(curr)
-								, code_debug_str(curr_other)
-							);
-							return false;
-						}
-
-						if ( curr->Value && ! code_is_equal(curr->Value, curr_other->Value) )
-						{
-							log_fmt( "\nAST::is_equal: Failed for parameter value check\n"
-									"AST  : %S\n"
-									"Other: %S\n"
-									"For     ast member: %S\n"
-									"other's ast member: %S\n"
-								, code_debug_str(self)
-								, code_debug_str(other)
-								, code_debug_str(curr)
-								, code_debug_str(curr_other)
-							);
-							return false;
-						}
-					}
+					if ( ! code_is_equal( curr, curr_other ) )
+						return false;
 
 					curr       = curr->Next;
 					curr_other = curr_other->Next;
 				}
-
-				check_member_val( NumEntries );
-
-				return true;
 			}
 
-			check_member_str( Name );
-			check_member_ast( ValueType );
-			check_member_ast( Value );
-			check_member_ast( ArrExpr );
-
 			return true;
 		}
 
 		case CT_Parameters_Define:
 		{
-			// TODO(ED): Needs implementaton
-			log_failure("code_is_equal: NOT IMPLEMENTED for CT_Parameters_Define");
-			return false;
+			check_member_val( NumEntries );
+			check_member_str( Name );
+
+			if ( self->NumEntries > 1 )
+			{
+				Code curr       = self->Next;
+				Code curr_other = other->Next;
+				while ( curr != nullptr && curr_other != nullptr )
+				{
+					if ( ! code_is_equal( curr, curr_other ) )
+						return false;
+
+					curr       = curr->Next;
+					curr_other = curr_other->Next;
+				}
+			}
+
+			return true;
 		}
 
 		case CT_Preprocess_Define:
 		{
 			check_member_str( Name );
-			check_member_content( Body->Content );
+			check_member_ast( Params );
+			check_member_ast( Body );
 			return true;
 		}
 
@@ -1066,9 +1081,14 @@ bool code_is_equal( Code self, Code other )
 		case CT_Typename:
 		{
 			check_member_val( IsParamPack );
+			check_member_val( TypeTag );
 			check_member_str( Name );
+			check_member_ast( Attributes );
 			check_member_ast( Specs );
+			check_member_ast( ReturnType );
+			check_member_ast( Params );
 			check_member_ast( ArrExpr );
+			check_member_ast( SuffixSpecs );
 
 			return true;
 		}
@@ -1088,6 +1108,8 @@ bool code_is_equal( Code self, Code other )
 			check_member_val( ModuleFlags );
 			check_member_str( Name );
 			check_member_ast( Attributes );
+
+			return true;
 		}
 
 		case CT_Using:
@@ -1118,13 +1140,14 @@ bool code_is_equal( Code self, Code other )
 		case CT_Class_Body:
 		case CT_Enum_Body:
 		case CT_Export_Body:
+		case CT_Extern_Linkage_Body:
+		case CT_Function_Body:
 		case CT_Global_Body:
 		case CT_Namespace_Body:
 		case CT_Struct_Body:
 		case CT_Union_Body:
 		{
-			check_member_ast( Front );
-			check_member_ast( Back );
+			check_member_val( NumEntries );
 
 			Code curr       = self->Front;
 			Code curr_other = other->Front;
@@ -1162,14 +1185,13 @@ bool code_is_equal( Code self, Code other )
 				curr_other = curr_other->Next;
 			}
 
-			check_member_val( NumEntries );
-
 			return true;
 		}
 
 	#undef check_member_val
 	#undef check_member_str
 	#undef check_member_ast
+	#undef check_parent_types
 	}
 
 	return true;
-- 
2.43.0


From 007b1b9dc8f9951e033c12105680fa8383878e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:40 +0000
Subject: [PATCH 072/119] fix: failure reports were printed with formats for
 other types

---
 base/components/interface.parsing.cpp |   2 +-
 base/components/interface.upfront.cpp | 127 +++++++++++++-------------
 base/components/parser.cpp            |  26 +++---
 3 files changed, 78 insertions(+), 77 deletions(-)

diff --git a/base/components/interface.parsing.cpp b/base/components/interface.parsing.cpp
index 7542520..a64b789 100644
--- a/base/components/interface.parsing.cpp
+++ b/base/components/interface.parsing.cpp
@@ -59,7 +59,7 @@ CodeConstructor parse_constructor( Str def )
 				break;
 
 			default :
-				log_failure( "Invalid specifier %s for variable\n%S", spec_to_str( spec ), parser_to_strbuilder(_ctx->parser) );
+				log_failure( "Invalid specifier %S for variable\n%SB", spec_to_str( spec ), parser_to_strbuilder(_ctx->parser) );
 				parser_pop(& _ctx->parser);
 				return InvalidCode;
 		}
diff --git a/base/components/interface.upfront.cpp b/base/components/interface.upfront.cpp
index 6ea65b8..9270726 100644
--- a/base/components/interface.upfront.cpp
+++ b/base/components/interface.upfront.cpp
@@ -181,6 +181,7 @@ OpValidateResult operator__validate( Operator op, CodeParams params_code, CodeTy
 						"operator %S is non-member symbol yet first paramter does not equal return type\n"
 						"param type: %S\n"
 						"return type: %S\n"
+						, operator_to_str(op)
 						, code_debug_str((Code)params_code)
 						, code_debug_str((Code)ret_type)
 					);
@@ -480,7 +481,7 @@ CodeComment def_comment( Str content )
 CodeConstructor def_constructor( Opts_def_constructor p )
 {
 	if ( p.params && p.params->Type != CT_Parameters ) {
-		log_failure("gen::def_constructor: params must be of Parameters type - %s", code_debug_str((Code)p.params));
+		log_failure("gen::def_constructor: params must be of Parameters type - %S", code_debug_str((Code)p.params));
 		GEN_DEBUG_TRAP();
 		return InvalidCode;
 	}
@@ -500,7 +501,7 @@ CodeConstructor def_constructor( Opts_def_constructor p )
 			break;
 
 			default:
-				log_failure("gen::def_constructor: body must be either of Function_Body or Untyped type - %s", code_debug_str(p.body));
+				log_failure("gen::def_constructor: body must be either of Function_Body or Untyped type - %S", code_debug_str(p.body));
 				return InvalidCode;
 		}
 
@@ -521,12 +522,12 @@ CodeClass def_class( Str name, Opts_def_struct p )
 		return InvalidCode;
 	}
 	if ( p.attributes && p.attributes->Type != CT_PlatformAttributes ) {
-		log_failure( "gen::def_class: attributes was not a 'PlatformAttributes' type: %s", code_debug_str(p.attributes) );
+		log_failure( "gen::def_class: attributes was not a 'PlatformAttributes' type: %S", code_debug_str(p.attributes) );
 		GEN_DEBUG_TRAP();
 		return InvalidCode;
 	}
 	if ( p.parent && ( p.parent->Type != CT_Class && p.parent->Type != CT_Struct && p.parent->Type != CT_Typename && p.parent->Type != CT_Untyped ) ) {
-		log_failure( "gen::def_class: parent provided is not type 'Class', 'Struct', 'Typeanme', or 'Untyped': %s", code_debug_str(p.parent) );
+		log_failure( "gen::def_class: parent provided is not type 'Class', 'Struct', 'Typeanme', or 'Untyped': %S", code_debug_str(p.parent) );
 		GEN_DEBUG_TRAP();
 		return InvalidCode;
 	}
@@ -548,7 +549,7 @@ CodeClass def_class( Str name, Opts_def_struct p )
 			break;
 
 			default:
-				log_failure("gen::def_class: body must be either of Class_Body or Untyped type - %s", code_debug_str(p.body));
+				log_failure("gen::def_class: body must be either of Class_Body or Untyped type - %S", code_debug_str(p.body));
 				return InvalidCode;
 		}
 
@@ -592,7 +593,7 @@ CodeDefine def_define( Str name, MacroType type, Opts_def_define p )
 CodeDestructor def_destructor( Opts_def_destructor p )
 {
 	if ( p.specifiers && p.specifiers->Type != CT_Specifiers ) {
-		log_failure( "gen::def_destructor: specifiers was not a 'Specifiers' type: %s", code_debug_str(p.specifiers) );
+		log_failure( "gen::def_destructor: specifiers was not a 'Specifiers' type: %S", code_debug_str(p.specifiers) );
 		GEN_DEBUG_TRAP();
 		return InvalidCode;
 	}
@@ -609,7 +610,7 @@ CodeDestructor def_destructor( Opts_def_destructor p )
 			break;
 
 			default:
-				log_failure("gen::def_destructor: body must be either of Function_Body or Untyped type - %s", code_debug_str(p.body));
+				log_failure("gen::def_destructor: body must be either of Function_Body or Untyped type - %S", code_debug_str(p.body));
 				return InvalidCode;
 		}
 
@@ -630,12 +631,12 @@ CodeEnum def_enum( Str name, Opts_def_enum p )
 		return InvalidCode;
 	}
 	if ( p.type && p.type->Type != CT_Typename ) {
-		log_failure( "gen::def_enum: enum underlying type provided was not of type Typename: %s", code_debug_str(p.type) );
+		log_failure( "gen::def_enum: enum underlying type provided was not of type Typename: %S", code_debug_str(p.type) );
 		GEN_DEBUG_TRAP();
 		return InvalidCode;
 	}
 	if ( p.attributes && p.attributes->Type != CT_PlatformAttributes ) {
-		log_failure( "gen::def_enum: attributes was not a 'PlatformAttributes' type: %s", code_debug_str(p.attributes) );
+		log_failure( "gen::def_enum: attributes was not a 'PlatformAttributes' type: %S", code_debug_str(p.attributes) );
 		GEN_DEBUG_TRAP();
 		return InvalidCode;
 	}
@@ -653,7 +654,7 @@ CodeEnum def_enum( Str name, Opts_def_enum p )
 			break;
 
 			default:
-				log_failure( "gen::def_enum: body must be of Enum_Body or Untyped type %s", code_debug_str(p.body));
+				log_failure( "gen::def_enum: body must be of Enum_Body or Untyped type %S", code_debug_str(p.body));
 				return InvalidCode;
 		}
 
@@ -705,7 +706,7 @@ CodeExtern def_extern_link( Str name, CodeBody body )
 		return InvalidCode;
 	}
 	if ( body->Type != CT_Extern_Linkage_Body && body->Type != CT_Untyped ) {
-		log_failure("gen::def_extern_linkage: body is not of extern_linkage or untyped type %s", code_debug_str(body));
+		log_failure("gen::def_extern_linkage: body is not of extern_linkage or untyped type %S", code_debug_str(body));
 		GEN_DEBUG_TRAP();
 		return InvalidCode;
 	}
@@ -736,7 +737,7 @@ CodeFriend def_friend( Code declaration )
 		break;
 
 		default:
-			log_failure("gen::def_friend: requires declartion to have class, function, operator, or struct - %s", code_debug_str(declaration));
+			log_failure("gen::def_friend: requires declartion to have class, function, operator, or struct - %S", code_debug_str(declaration));
 			return InvalidCode;
 	}
 	CodeFriend
@@ -753,22 +754,22 @@ CodeFn def_function( Str name, Opts_def_function p )
 		return InvalidCode;
 	}
 	if ( p.params && p.params->Type != CT_Parameters ) {
-		log_failure( "gen::def_function: params was not a `Parameters` type: %s", code_debug_str(p.params) );
+		log_failure( "gen::def_function: params was not a `Parameters` type: %S", code_debug_str(p.params) );
 		GEN_DEBUG_TRAP();
 		return InvalidCode;
 	}
 	if ( p.ret_type && p.ret_type->Type != CT_Typename ) {
-		log_failure( "gen::def_function: ret_type was not a Typename: %s", code_debug_str(p.ret_type) );
+		log_failure( "gen::def_function: ret_type was not a Typename: %S", code_debug_str(p.ret_type) );
 		GEN_DEBUG_TRAP();
 		return InvalidCode;
 	}
 	if ( p.specs && p.specs-> Type != CT_Specifiers ) {
-		log_failure( "gen::def_function: specifiers was not a `Specifiers` type: %s", code_debug_str(p.specs) );
+		log_failure( "gen::def_function: specifiers was not a `Specifiers` type: %S", code_debug_str(p.specs) );
 		GEN_DEBUG_TRAP();
 		return InvalidCode;
 	}
 	if ( p.attrs && p.attrs->Type != CT_PlatformAttributes ) {
-		log_failure( "gen::def_function: attributes was not a `PlatformAttributes` type: %s", code_debug_str(p.attrs) );
+		log_failure( "gen::def_function: attributes was not a `PlatformAttributes` type: %S", code_debug_str(p.attrs) );
 		GEN_DEBUG_TRAP();
 		return InvalidCode;
 	}
@@ -788,7 +789,7 @@ CodeFn def_function( Str name, Opts_def_function p )
 
 			default:
 			{
-				log_failure("gen::def_function: body must be either of Function_Body, Execution, or Untyped type. %s", code_debug_str(p.body));
+				log_failure("gen::def_function: body must be either of Function_Body, Execution, or Untyped type. %S", code_debug_str(p.body));
 				return InvalidCode;
 			}
 		}
@@ -850,7 +851,7 @@ CodeNS def_namespace( Str name, CodeBody body, Opts_def_namespace p )
 		return InvalidCode;
 	}
 	if ( body && body->Type != CT_Namespace_Body && body->Type != CT_Untyped ) {
-		log_failure("gen::def_namespace: body is not of namespace or untyped type %s", code_debug_str(body));
+		log_failure("gen::def_namespace: body is not of namespace or untyped type %S", code_debug_str(body));
 		GEN_DEBUG_TRAP();
 		return InvalidCode;
 	}
@@ -866,12 +867,12 @@ CodeNS def_namespace( Str name, CodeBody body, Opts_def_namespace p )
 CodeOperator def_operator( Operator op, Str nspace, Opts_def_operator p )
 {
 	if ( p.attributes && p.attributes->Type != CT_PlatformAttributes ) {
-		log_failure( "gen::def_operator: PlatformAttributes was provided but its not of attributes type: %s", code_debug_str(p.attributes) );
+		log_failure( "gen::def_operator: PlatformAttributes was provided but its not of attributes type: %S", code_debug_str(p.attributes) );
 		GEN_DEBUG_TRAP();
 		return InvalidCode;
 	}
 	if ( p.specifiers && p.specifiers->Type != CT_Specifiers ) {
-		log_failure( "gen::def_operator: Specifiers was provided but its not of specifiers type: %s", code_debug_str(p.specifiers) );
+		log_failure( "gen::def_operator: Specifiers was provided but its not of specifiers type: %S", code_debug_str(p.specifiers) );
 		GEN_DEBUG_TRAP();
 		return InvalidCode;
 	}
@@ -907,7 +908,7 @@ CodeOperator def_operator( Operator op, Str nspace, Opts_def_operator p )
 
 			default:
 			{
-				log_failure("gen::def_operator: body must be either of Function_Body, Execution, or Untyped type. %s", code_debug_str(p.body));
+				log_failure("gen::def_operator: body must be either of Function_Body, Execution, or Untyped type. %S", code_debug_str(p.body));
 				GEN_DEBUG_TRAP();
 				return InvalidCode;
 			}
@@ -937,7 +938,7 @@ CodeOpCast def_operator_cast( CodeTypename type, Opts_def_operator_cast p )
 		return InvalidCode;
 	}
 	if ( type->Type != CT_Typename ) {
-		log_failure( "gen::def_operator_cast: type is not a typename - %s", code_debug_str(type) );
+		log_failure( "gen::def_operator_cast: type is not a typename - %S", code_debug_str(type) );
 		GEN_DEBUG_TRAP();
 		return InvalidCode;
 	}
@@ -948,7 +949,7 @@ CodeOpCast def_operator_cast( CodeTypename type, Opts_def_operator_cast p )
 		result->Type = CT_Operator_Cast;
 
 		if ( p.body->Type != CT_Function_Body && p.body->Type != CT_Execution ) {
-			log_failure( "gen::def_operator_cast: body is not of function body or execution type - %s", code_debug_str(p.body) );
+			log_failure( "gen::def_operator_cast: body is not of function body or execution type - %S", code_debug_str(p.body) );
 			GEN_DEBUG_TRAP();
 			return InvalidCode;
 		}
@@ -970,11 +971,11 @@ CodeParams def_param( CodeTypename type, Str name, Opts_def_param p )
 		return InvalidCode;
 	}
 	if ( type->Type != CT_Typename ) {
-		log_failure( "gen::def_param: type is not a typename - %s", code_debug_str(type) );
+		log_failure( "gen::def_param: type is not a typename - %S", code_debug_str(type) );
 		return InvalidCode;
 	}
 	if ( p.value && p.value->Type != CT_Untyped ) {
-		log_failure( "gen::def_param: value is not untyped - %s", code_debug_str(p.value) );
+		log_failure( "gen::def_param: value is not untyped - %S", code_debug_str(p.value) );
 		return InvalidCode;
 	}
 	CodeParams
@@ -1041,17 +1042,17 @@ CodeSpecifiers def_specifier( Specifier spec )
 CodeStruct def_struct( Str name, Opts_def_struct p )
 {
 	if ( p.attributes && p.attributes->Type != CT_PlatformAttributes ) {
-		log_failure( "gen::def_struct: attributes was not a `PlatformAttributes` type - %s", code_debug_str(cast(Code, p.attributes)) );
+		log_failure( "gen::def_struct: attributes was not a `PlatformAttributes` type - %S", code_debug_str(cast(Code, p.attributes)) );
 		GEN_DEBUG_TRAP();
 		return InvalidCode;
 	}
 	if ( p.parent && p.parent->Type != CT_Typename ) {
-		log_failure( "gen::def_struct: parent was not a `Struct` type - %s", code_debug_str(p.parent) );
+		log_failure( "gen::def_struct: parent was not a `Struct` type - %S", code_debug_str(p.parent) );
 		GEN_DEBUG_TRAP();
 		return InvalidCode;
 	}
 	if ( p.body && p.body->Type != CT_Struct_Body ) {
-		log_failure( "gen::def_struct: body was not a Struct_Body type - %s", code_debug_str(p.body) );
+		log_failure( "gen::def_struct: body was not a Struct_Body type - %S", code_debug_str(p.body) );
 		GEN_DEBUG_TRAP();
 		return InvalidCode;
 	}
@@ -1088,7 +1089,7 @@ CodeTemplate def_template( CodeParams params, Code declaration, Opts_def_templat
 		return InvalidCode;
 	}
 	if ( params && params->Type != CT_Parameters ){
-		log_failure( "gen::def_template: params is not of parameters type - %s", code_debug_str(params) );
+		log_failure( "gen::def_template: params is not of parameters type - %S", code_debug_str(params) );
 		GEN_DEBUG_TRAP();
 		return InvalidCode;
 	}
@@ -1102,7 +1103,7 @@ CodeTemplate def_template( CodeParams params, Code declaration, Opts_def_templat
 		break;
 
 		default:
-			log_failure( "gen::def_template: declaration is not of class, function, struct, variable, or using type - %s", code_debug_str(declaration) );
+			log_failure( "gen::def_template: declaration is not of class, function, struct, variable, or using type - %S", code_debug_str(declaration) );
 	}
 	CodeTemplate
 	result              = (CodeTemplate) make_code();
@@ -1123,17 +1124,17 @@ CodeTypename def_type( Str name, Opts_def_type p )
 	CodeSpecifiers specifiers = p.specifiers;
 	CodeAttributes attributes = p.attributes;
 	if ( p.attributes && p.attributes->Type != CT_PlatformAttributes ) {
-		log_failure( "gen::def_type: attributes is not of attributes type - %s", code_debug_str((Code)p.attributes) );
+		log_failure( "gen::def_type: attributes is not of attributes type - %S", code_debug_str((Code)p.attributes) );
 		GEN_DEBUG_TRAP();
 		return InvalidCode;
 	}
 	if ( p.specifiers && p.specifiers->Type != CT_Specifiers ) {
-		log_failure( "gen::def_type: specifiers is not of specifiers type - %s", code_debug_str((Code)p.specifiers) );
+		log_failure( "gen::def_type: specifiers is not of specifiers type - %S", code_debug_str((Code)p.specifiers) );
 		GEN_DEBUG_TRAP();
 		return InvalidCode;
 	}
 	if ( p.array_expr && p.array_expr->Type != CT_Untyped ) {
-		log_failure( "gen::def_type: arrayexpr is not of untyped type - %s", code_debug_str((Code)p.array_expr) );
+		log_failure( "gen::def_type: arrayexpr is not of untyped type - %S", code_debug_str((Code)p.array_expr) );
 		GEN_DEBUG_TRAP();
 		return InvalidCode;
 	}
@@ -1169,12 +1170,12 @@ CodeTypedef def_typedef( Str name, Code type, Opts_def_typedef p )
 		case CT_Typename:
 			break;
 		default:
-			log_failure( "gen::def_typedef: type was not a Class, Enum, Function Forward, Struct, Typename, or Union - %s", code_debug_str((Code)type) );
+			log_failure( "gen::def_typedef: type was not a Class, Enum, Function Forward, Struct, Typename, or Union - %S", code_debug_str((Code)type) );
 			GEN_DEBUG_TRAP();
 			return InvalidCode;
 	}
 	if ( p.attributes && p.attributes->Type != CT_PlatformAttributes ) {
-		log_failure( "gen::def_typedef: attributes was not a PlatformAttributes - %s", code_debug_str((Code)p.attributes) );
+		log_failure( "gen::def_typedef: attributes was not a PlatformAttributes - %S", code_debug_str((Code)p.attributes) );
 		GEN_DEBUG_TRAP();
 		return InvalidCode;
 	}
@@ -1196,7 +1197,7 @@ CodeTypedef def_typedef( Str name, Code type, Opts_def_typedef p )
 	if ( name.Len <= 0  )
 	{
 		if (type->Type != CT_Untyped) {
-			log_failure( "gen::def_typedef: name was empty and type was not untyped (indicating its a function typedef) - %s", code_debug_str(type) );
+			log_failure( "gen::def_typedef: name was empty and type was not untyped (indicating its a function typedef) - %S", code_debug_str(type) );
 			GEN_DEBUG_TRAP();
 			return InvalidCode;
 		}
@@ -1218,12 +1219,12 @@ CodeUnion def_union( Str name, CodeBody body, Opts_def_union p )
 		return InvalidCode;
 	}
 	if ( body->Type != CT_Union_Body ) {
-		log_failure( "gen::def_union: body was not a Union_Body type - %s", code_debug_str(body) );
+		log_failure( "gen::def_union: body was not a Union_Body type - %S", code_debug_str(body) );
 		GEN_DEBUG_TRAP();
 		return InvalidCode;
 	}
 	if ( p.attributes && p.attributes->Type != CT_PlatformAttributes ) {
-		log_failure( "gen::def_union: attributes was not a PlatformAttributes type - %s", code_debug_str(p.attributes) );
+		log_failure( "gen::def_union: attributes was not a PlatformAttributes type - %S", code_debug_str(p.attributes) );
 		GEN_DEBUG_TRAP();
 		return InvalidCode;
 	}
@@ -1252,7 +1253,7 @@ CodeUsing def_using( Str name, CodeTypename type, Opts_def_using p )
 		return InvalidCode;
 	}
 	if ( p.attributes && p.attributes->Type != CT_PlatformAttributes ) {
-		log_failure( "gen::def_using: attributes was not a PlatformAttributes type - %s", code_debug_str(p.attributes) );
+		log_failure( "gen::def_using: attributes was not a PlatformAttributes type - %S", code_debug_str(p.attributes) );
 		GEN_DEBUG_TRAP();
 		return InvalidCode;
 	}
@@ -1287,22 +1288,22 @@ CodeVar def_variable( CodeTypename type, Str name, Opts_def_variable p )
 	}
 	if ( p.attributes && p.attributes->Type != CT_PlatformAttributes )
 	{
-		log_failure( "gen::def_variable: attributes was not a `PlatformAttributes` type - %s", code_debug_str(p.attributes) );
+		log_failure( "gen::def_variable: attributes was not a `PlatformAttributes` type - %S", code_debug_str(p.attributes) );
 		return InvalidCode;
 	}
 	if ( p.specifiers && p.specifiers->Type != CT_Specifiers )
 	{
-		log_failure( "gen::def_variable: specifiers was not a `Specifiers` type - %s", code_debug_str(p.specifiers) );
+		log_failure( "gen::def_variable: specifiers was not a `Specifiers` type - %S", code_debug_str(p.specifiers) );
 		return InvalidCode;
 	}
 	if ( type->Type != CT_Typename )
 	{
-		log_failure( "gen::def_variable: type was not a Typename - %s", code_debug_str(type) );
+		log_failure( "gen::def_variable: type was not a Typename - %S", code_debug_str(type) );
 		return InvalidCode;
 	}
 	if ( p.value && p.value->Type != CT_Untyped )
 	{
-		log_failure( "gen::def_variable: value was not a `Untyped` type - %s", code_debug_str(p.value) );
+		log_failure( "gen::def_variable: value was not a `Untyped` type - %S", code_debug_str(p.value) );
 		return InvalidCode;
 	}
 	CodeVar
@@ -1362,7 +1363,7 @@ CodeBody def_class_body( s32 num, ... )
 		switch (entry->Type)
 		{
 			GEN_AST_BODY_CLASS_UNALLOWED_TYPES_CASES:
-				log_failure("gen::" "def_class_body" ": Entry type is not allowed: %s", code_debug_str(entry));
+				log_failure("gen::" "def_class_body" ": Entry type is not allowed: %S", code_debug_str(entry));
 				return InvalidCode;
 
 			default:
@@ -1394,7 +1395,7 @@ CodeBody def_class_body_arr( s32 num, Code* codes )
 		switch (entry->Type)
 		{
 			GEN_AST_BODY_CLASS_UNALLOWED_TYPES_CASES:
-				log_failure("gen::" "def_class_body" ": Entry type is not allowed: %s", code_debug_str(entry));
+				log_failure("gen::" "def_class_body" ": Entry type is not allowed: %S", code_debug_str(entry));
 				return InvalidCode;
 
 			default:
@@ -1456,7 +1457,7 @@ CodeDefineParams def_define_params_arr( s32 num, CodeDefineParams* codes )
 		return InvalidCode;                                                                                                                       \
 	}                                                                                                                                             \
 	if (current->Type != CT_Parameters_Define ) {                                                                                                 \
-		log_failure("gen::def_define_params: Code in coes array is not of paramter for preprocessor define type - %s", code_debug_str(current) ); \
+		log_failure("gen::def_define_params: Code in coes array is not of paramter for preprocessor define type - %S", code_debug_str(current) ); \
 		return InvalidCode;                                                                                                                       \
 	}
 	CodeDefineParams current = * codes;
@@ -1493,7 +1494,7 @@ CodeBody def_enum_body( s32 num, ... )
 			return InvalidCode;
 		}
 		if ( entry->Type != CT_Untyped && entry->Type != CT_Comment ) {
-			log_failure("gen::def_enum_body: Entry type is not allowed - %s. Must be of untyped or comment type.", code_debug_str(entry) );
+			log_failure("gen::def_enum_body: Entry type is not allowed - %S. Must be of untyped or comment type.", code_debug_str(entry) );
 			return InvalidCode;
 		}
 		body_append(result, entry );
@@ -1519,7 +1520,7 @@ CodeBody def_enum_body_arr( s32 num, Code* codes )
 			return InvalidCode;
 		}
 		if ( entry->Type != CT_Untyped && entry->Type != CT_Comment ) {
-			log_failure("gen::def_enum_body: Entry type is not allowed: %s", code_debug_str(entry) );
+			log_failure("gen::def_enum_body: Entry type is not allowed: %S", code_debug_str(entry) );
 			return InvalidCode;
 		}
 		body_append(result, entry );
@@ -1551,7 +1552,7 @@ CodeBody def_export_body( s32 num, ... )
 		switch (entry->Type)
 		{
 			GEN_AST_BODY_EXPORT_UNALLOWED_TYPES_CASES:
-				log_failure("gen::" "def_export_body" ": Entry type is not allowed: %s", code_debug_str(entry));
+				log_failure("gen::" "def_export_body" ": Entry type is not allowed: %S", code_debug_str(entry));
 				return InvalidCode;
 
 			default:
@@ -1583,7 +1584,7 @@ CodeBody def_export_body_arr( s32 num, Code* codes )
 		switch (entry->Type)
 		{
 			GEN_AST_BODY_EXPORT_UNALLOWED_TYPES_CASES:
-				log_failure("gen::" "def_export_body" ": Entry type is not allowed: %s", code_debug_str(entry));
+				log_failure("gen::" "def_export_body" ": Entry type is not allowed: %S", code_debug_str(entry));
 				return InvalidCode;
 
 			default:
@@ -1617,7 +1618,7 @@ CodeBody def_extern_link_body( s32 num, ... )
 		switch (entry->Type)
 		{
 			GEN_AST_BODY_EXTERN_LINKAGE_UNALLOWED_TYPES_CASES:
-				log_failure("gen::" "def_extern_linkage_body" ": Entry type is not allowed: %s", code_debug_str(entry));
+				log_failure("gen::" "def_extern_linkage_body" ": Entry type is not allowed: %S", code_debug_str(entry));
 				return InvalidCode;
 
 			default:
@@ -1650,7 +1651,7 @@ CodeBody def_extern_link_body_arr( s32 num, Code* codes )
 		switch (entry->Type)
 		{
 			GEN_AST_BODY_EXTERN_LINKAGE_UNALLOWED_TYPES_CASES:
-				log_failure("gen::" "def_extern_linkage_body" ": Entry type is not allowed: %s", code_debug_str(entry));
+				log_failure("gen::" "def_extern_linkage_body" ": Entry type is not allowed: %S", code_debug_str(entry));
 				return InvalidCode;
 
 			default:
@@ -1684,7 +1685,7 @@ CodeBody def_function_body( s32 num, ... )
 		switch (entry->Type)
 		{
 			GEN_AST_BODY_FUNCTION_UNALLOWED_TYPES_CASES:
-				log_failure("gen::" stringize(def_function_body) ": Entry type is not allowed: %s", code_debug_str(entry));
+				log_failure("gen::" stringize(def_function_body) ": Entry type is not allowed: %S", code_debug_str(entry));
 				return InvalidCode;
 
 			default:
@@ -1716,7 +1717,7 @@ CodeBody def_function_body_arr( s32 num, Code* codes )
 		switch (entry->Type)
 		{
 			GEN_AST_BODY_FUNCTION_UNALLOWED_TYPES_CASES:
-				log_failure("gen::" "def_function_body" ": Entry type is not allowed: %s", code_debug_str(entry));
+				log_failure("gen::" "def_function_body" ": Entry type is not allowed: %S", code_debug_str(entry));
 				return InvalidCode;
 
 			default:
@@ -1755,7 +1756,7 @@ CodeBody def_global_body( s32 num, ... )
 				continue;
 
 			GEN_AST_BODY_GLOBAL_UNALLOWED_TYPES_CASES:
-				log_failure("gen::" "def_global_body" ": Entry type is not allowed: %s", code_debug_str(entry));
+				log_failure("gen::" "def_global_body" ": Entry type is not allowed: %S", code_debug_str(entry));
 				return InvalidCode;
 
 			default:
@@ -1791,7 +1792,7 @@ CodeBody def_global_body_arr( s32 num, Code* codes )
 				continue;
 
 			GEN_AST_BODY_GLOBAL_UNALLOWED_TYPES_CASES:
-				log_failure("gen::" "def_global_body" ": Entry type is not allowed: %s", code_debug_str(entry));
+				log_failure("gen::" "def_global_body" ": Entry type is not allowed: %S", code_debug_str(entry));
 				return InvalidCode;
 
 			default:
@@ -1826,7 +1827,7 @@ CodeBody def_namespace_body( s32 num, ... )
 		switch (entry->Type)
 		{
 			GEN_AST_BODY_NAMESPACE_UNALLOWED_TYPES_CASES:
-				log_failure("gen::" "def_namespace_body" ": Entry type is not allowed: %s", code_debug_str(entry));
+				log_failure("gen::" "def_namespace_body" ": Entry type is not allowed: %S", code_debug_str(entry));
 				return InvalidCode;
 
 			default:
@@ -1858,7 +1859,7 @@ CodeBody def_namespace_body_arr( s32 num, Code* codes )
 		switch (entry->Type)
 		{
 			GEN_AST_BODY_NAMESPACE_UNALLOWED_TYPES_CASES:
-				log_failure("gen::" "def_namespace_body" ": Entry type is not allowed: %s", code_debug_str(entry) );
+				log_failure("gen::" "def_namespace_body" ": Entry type is not allowed: %S", code_debug_str(entry) );
 				return InvalidCode;
 
 			default: break;
@@ -1919,7 +1920,7 @@ CodeParams def_params_arr( s32 num, CodeParams* codes )
 		return InvalidCode;                                                                                            \
 	}                                                                                                                  \
 	if (current->Type != CT_Parameters ) {                                                                             \
-		log_failure("gen::def_params: Code in coes array is not of paramter type - %s", code_debug_str(current) );     \
+		log_failure("gen::def_params: Code in coes array is not of paramter type - %S", code_debug_str(current) );     \
 		return InvalidCode;                                                                                            \
 	}
 	CodeParams current = * codes;
@@ -2008,7 +2009,7 @@ CodeBody def_struct_body( s32 num, ... )
 		switch (entry->Type)
 		{
 			GEN_AST_BODY_STRUCT_UNALLOWED_TYPES_CASES:
-				log_failure("gen::" "def_struct_body" ": Entry type is not allowed: %s", code_debug_str(entry));
+				log_failure("gen::" "def_struct_body" ": Entry type is not allowed: %S", code_debug_str(entry));
 				return InvalidCode;
 
 			default:
@@ -2040,7 +2041,7 @@ CodeBody def_struct_body_arr( s32 num, Code* codes )
 		switch (entry->Type)
 		{
 			GEN_AST_BODY_STRUCT_UNALLOWED_TYPES_CASES:
-				log_failure("gen::" "def_struct_body" ": Entry type is not allowed: %s", code_debug_str(entry) );
+				log_failure("gen::" "def_struct_body" ": Entry type is not allowed: %S", code_debug_str(entry) );
 				return InvalidCode;
 
 			default:
@@ -2072,7 +2073,7 @@ CodeBody def_union_body( s32 num, ... )
 			return InvalidCode;
 		}
 		if ( entry->Type != CT_Untyped && entry->Type != CT_Comment ) {
-			log_failure("gen::def_union_body: Entry type is not allowed - %s. Must be of untyped or comment type.", code_debug_str(entry) );
+			log_failure("gen::def_union_body: Entry type is not allowed - %S. Must be of untyped or comment type.", code_debug_str(entry) );
 			return InvalidCode;
 		}
 		body_append(result, entry );
@@ -2098,7 +2099,7 @@ CodeBody def_union_body_arr( s32 num, Code* codes )
 			return InvalidCode;
 		}
 		if ( entry->Type != CT_Untyped && entry->Type != CT_Comment ) {
-			log_failure("gen::def_union_body: Entry type is not allowed: %s", code_debug_str(entry) );
+			log_failure("gen::def_union_body: Entry type is not allowed: %S", code_debug_str(entry) );
 			return InvalidCode;
 		}
 		body_append(result, entry );
diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index 6fb9e63..bd3e78a 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -547,7 +547,7 @@ Code parse_array_decl()
 
 		if ( currtok.Type != Tok_BraceSquare_Close )
 		{
-			log_failure( "%s: Error, expected ] in array declaration, not %s\n%s", toktype_to_str( currtok.Type ), parser_to_strbuilder(_ctx->parser) );
+			log_failure( "%s: Error, expected ] in array declaration, not %S\n%s", stringize(parse_array_decl), toktype_to_str( currtok.Type ), parser_to_strbuilder(_ctx->parser) );
 			parser_pop(& _ctx->parser);
 			return InvalidCode;
 		}
@@ -697,7 +697,7 @@ internal
 Code parse_class_struct( TokType which, bool inplace_def )
 {
 	if ( which != Tok_Decl_Class && which != Tok_Decl_Struct ) {
-		log_failure( "Error, expected class or struct, not %s\n%s", toktype_to_str( which ), parser_to_strbuilder(_ctx->parser) );
+		log_failure( "Error, expected class or struct, not %S\n%s", toktype_to_str( which ), parser_to_strbuilder(_ctx->parser) );
 		return InvalidCode;
 	}
 
@@ -993,7 +993,7 @@ CodeBody parse_class_struct_body( TokType which, Token name )
 			{
 				if ( ! tok_is_attribute(currtok))
 				{
-					log_failure("Unbounded macro expression residing in class/struct body\n%S", parser_to_strbuilder(_ctx->parser));
+					log_failure("Unbounded macro expression residing in class/struct body\n%SB", parser_to_strbuilder(_ctx->parser));
 					return InvalidCode;
 				}
 			}
@@ -1285,7 +1285,7 @@ Code parse_complicated_definition( TokType which )
 			return result;
 		}
 
-		log_failure( "Unsupported or bad member definition after %s declaration\n%s", toktype_to_str(which), parser_to_strbuilder(_ctx->parser) );
+		log_failure( "Unsupported or bad member definition after %S declaration\n%s", toktype_to_str(which), parser_to_strbuilder(_ctx->parser) );
 		parser_pop(& _ctx->parser);
 		return InvalidCode;
 	}
@@ -1342,7 +1342,7 @@ Code parse_complicated_definition( TokType which )
 
 		if ( ! ok_to_parse )
 		{
-			log_failure( "Unsupported or bad member definition after %s declaration\n%s", toktype_to_str(which), parser_to_strbuilder(_ctx->parser) );
+			log_failure( "Unsupported or bad member definition after %S declaration\n%s", toktype_to_str(which), parser_to_strbuilder(_ctx->parser) );
 			parser_pop(& _ctx->parser);
 			return InvalidCode;
 		}
@@ -1361,7 +1361,7 @@ Code parse_complicated_definition( TokType which )
 			&&	( tokens.Arr[idx - 4].Type != which))
 		)
 		{
-			log_failure( "Unsupported or bad member definition after %s declaration\n%s", toktype_to_str(which), parser_to_strbuilder(_ctx->parser) );
+			log_failure( "Unsupported or bad member definition after %S declaration\n%s", toktype_to_str(which), parser_to_strbuilder(_ctx->parser) );
 			parser_pop(& _ctx->parser);
 			return InvalidCode;
 		}
@@ -1581,7 +1581,7 @@ CodeFn parse_function_after_name(
 
 			default:
 			{
-				log_failure("Body must be either of Function_Body or Untyped type, %s\n%s", code_debug_str(body), parser_to_strbuilder(_ctx->parser));
+				log_failure("Body must be either of Function_Body or Untyped type, %S\n%s", code_debug_str(body), parser_to_strbuilder(_ctx->parser));
 				parser_pop(& _ctx->parser);
 				return InvalidCode;
 			}
@@ -1835,7 +1835,7 @@ CodeBody parse_global_nspace( CodeType which )
 
 			case Tok_Module_Import: {
 				// import ...
-				log_failure( "gen::%s: This function is not implemented" );
+				log_failure( "gen::%s: import is not implemented\n%SB", stringize(parse_global_nspace), parser_to_strbuilder(_ctx->parser) );
 				return InvalidCode;
 			}
 			break;
@@ -1844,7 +1844,7 @@ CodeBody parse_global_nspace( CodeType which )
 			{
 				if ( ! tok_is_attribute(currtok))
 				{
-					log_failure("Unbounded macro expression residing in class/struct body\n%S", parser_to_strbuilder(_ctx->parser));
+					log_failure("Unbounded macro expression residing in class/struct body\n%SB", parser_to_strbuilder(_ctx->parser));
 					return InvalidCode;
 				}
 			}
@@ -2171,7 +2171,7 @@ Token parse_identifier( bool* possible_member_function )
 				return name;
 			}
 
-			log_failure( "Error, had a ~ operator after %SB but not a destructor\n%s", toktype_to_str( prevtok.Type ), parser_to_strbuilder(_ctx->parser) );
+			log_failure( "Error, had a ~ operator after %S but not a destructor\n%s", toktype_to_str( prevtok.Type ), parser_to_strbuilder(_ctx->parser) );
 			parser_pop(& _ctx->parser);
 			return invalid;
 		}
@@ -2191,7 +2191,7 @@ Token parse_identifier( bool* possible_member_function )
 
 		if ( currtok.Type != Tok_Identifier )
 		{
-			log_failure( "Error, expected static symbol identifier, not %s\n%s", toktype_to_str( currtok.Type ), parser_to_strbuilder(_ctx->parser) );
+			log_failure( "Error, expected static symbol identifier, not %S\n%s", toktype_to_str( currtok.Type ), parser_to_strbuilder(_ctx->parser) );
 			parser_pop(& _ctx->parser);
 			return invalid;
 		}
@@ -3156,7 +3156,7 @@ Code parse_simple_preprocess( TokType which )
 
 	Macro* macro = lookup_macro( full_macro.Text );
 	if ( which != Tok_Preprocess_Unsupported && macro == nullptr ) {
-		log_failure("Expected the macro %S to be registered\n%S", full_macro,  parser_to_strbuilder(_ctx->parser));
+		log_failure("Expected the macro %S to be registered\n%SB", full_macro.Text, parser_to_strbuilder(_ctx->parser));
 		return NullCode;
 	}
 
@@ -3761,7 +3761,7 @@ CodeDefine parser_parse_define()
 
 	if ( ! check( Tok_Preprocess_Content ))
 	{
-		log_failure( "Error, expected content after #define %s\n%s", define->Name, parser_to_strbuilder(_ctx->parser) );
+		log_failure( "Error, expected content after #define %S\n%s", define->Name, parser_to_strbuilder(_ctx->parser) );
 		parser_pop(& _ctx->parser);
 		return InvalidCode;
 	}
-- 
2.43.0


From 7cbacb8caf911b7dfaeb30884ef38abd52092ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:52 +0000
Subject: [PATCH 073/119] fix: a #define without a name was given whatever
 character came next

---
 base/components/lexer.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/base/components/lexer.cpp b/base/components/lexer.cpp
index 91abf91..c9b9858 100644
--- a/base/components/lexer.cpp
+++ b/base/components/lexer.cpp
@@ -123,6 +123,15 @@ void lexer_end_line( LexContext* ctx )
 // TODO(Ed): We need to to attempt to recover from a lex failure?
 s32 lex_preprocessor_define( LexContext* ctx )
 {
+	if ( ctx->left == 0 || ! ( char_is_alpha( * ctx->scanner ) || (* ctx->scanner) == '_' ) )
+	{
+		log_failure("lex_preprocessor_define(%d, %d): Expected a '_' or alpha character for the name of the macro\n"
+			, ctx->line
+			, ctx->column
+		);
+		return Lex_ReturnNull;
+	}
+
 	Token name = { { ctx->scanner, 1 }, Tok_Identifier, ctx->line, ctx->column, TF_Preprocess };
 	move_forward();
 
-- 
2.43.0


From 53bf28222d27285d1253eda9868ab0366ea87344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:52 +0000
Subject: [PATCH 074/119] fix: an unterminated string literal was read as a
 string

---
 base/components/lexer.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/base/components/lexer.cpp b/base/components/lexer.cpp
index c9b9858..0afcfe9 100644
--- a/base/components/lexer.cpp
+++ b/base/components/lexer.cpp
@@ -981,6 +981,7 @@ TokArray lex( Str content )
 				c.token.Type   = Tok_String;
 				c.token.Flags |= TF_Literal;
 
+				b32 terminated = false;
 				move_forward();
 				while ( c.left )
 				{
@@ -988,6 +989,7 @@ TokArray lex( Str content )
 					{
 						move_forward();
 						c.token.Text.Len++;
+						terminated = true;
 						break;
 					}
 
@@ -1007,6 +1009,12 @@ TokArray lex( Str content )
 					move_forward();
 					c.token.Text.Len++;
 				}
+				if ( ! terminated )
+				{
+					log_failure( "gen::lex: unterminated string literal (%d, %d)", c.token.Line, c.token.Column );
+					TokArray tok_array = {};
+					return tok_array;
+				}
 				goto FoundToken;
 			}
 			case '?':
-- 
2.43.0


From 3f548d16e5e9dedd51a43a89b5e0ab103e21150c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:52 +0000
Subject: [PATCH 075/119] fix: an unterminated comment in a type sent
 strip_formatting past its text

---
 base/components/parser.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index bd3e78a..a7f2a54 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -325,11 +325,16 @@ StrBuilder parser_strip_formatting( Str raw_text, bool preserve_newlines )
 		// Block comments
 		if ( tokleft > 1 && scanner[0] == '/' && scanner[1] == '*' )
 		{
+			scanner += 2;
+			tokleft -= 2;
+
 			while ( tokleft > 1 && !(scanner[0] == '*' && scanner[1] == '/') )
 				move_fwd();
 
-			scanner += 2;
-			tokleft -= 2;
+			// Skip the closing */, or the rest of a comment that has none
+			s32 amount_to_skip = min( 2, tokleft );
+			scanner += amount_to_skip;
+			tokleft -= amount_to_skip;
 
 			strbuilder_append_c_str_len( & content,  cut_ptr, cut_length );
 			last_cut = rcast( sptr, scanner ) - rcast( sptr, raw_text.Ptr );
-- 
2.43.0


From d60fbe80e4fdc8e3c0b867e46dd7327167a4e9b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:52 +0000
Subject: [PATCH 076/119] fix: missing expressions and initializer lists were
 given a length from nowhere

---
 base/components/parser.cpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index a7f2a54..aca2e15 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -1412,7 +1412,7 @@ Code parse_assignment_expression()
 
 	Token expr_tok = currtok;
 
-	if ( currtok.Type == Tok_Statement_End && currtok.Type != Tok_Comma )
+	if ( left == 0 || currtok.Type == Tok_Statement_End || currtok.Type == Tok_Comma )
 	{
 		log_failure( "Expected expression after assignment operator\n%s", parser_to_strbuilder(_ctx->parser) );
 		parser_pop(& _ctx->parser);
@@ -3403,6 +3403,12 @@ CodeVar parse_variable_after_name(
 
 		Token expr_token = currtok;
 
+		if ( left == 0 ) {
+			log_failure( "Expected expression after '('\n%SB", parser_to_strbuilder(_ctx->parser) );
+			parser_pop(& _ctx->parser);
+			return InvalidCode;
+		}
+
 		using_constructor_initializer = true;
 
 		s32 level = 0;
@@ -3430,7 +3436,7 @@ CodeVar parse_variable_after_name(
 
 		Token expr_tok = currtok;
 
-		if ( currtok.Type == Tok_Statement_End ) {
+		if ( left == 0 || currtok.Type == Tok_Statement_End || currtok.Type == Tok_Comma ) {
 			log_failure( "Expected expression after bitfield \n%SB", parser_to_strbuilder(_ctx->parser) );
 			parser_pop(& _ctx->parser);
 			return InvalidCode;
@@ -3631,6 +3637,13 @@ CodeConstructor parser_parse_constructor( CodeSpecifiers specifiers )
 
 		Token initializer_list_tok = currtok;
 
+		if ( left == 0 || currtok.Type == Tok_BraceCurly_Open )
+		{
+			log_failure( "Expected an initializer list after ':'\n%SB", parser_to_strbuilder(_ctx->parser) );
+			parser_pop(& _ctx->parser);
+			return InvalidCode;
+		}
+
 		s32 level                  = 0;
 		while ( left && ( currtok.Type != Tok_BraceCurly_Open || level > 0 ) )
 		{
-- 
2.43.0


From e3f5ac21fdfd7ee58be790513da55f0a770e456c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:52 +0000
Subject: [PATCH 077/119] fix: the parser read past the text of a token

---
 base/components/parser.cpp       | 102 +++++++++++++++----------------
 base/components/parser_types.hpp |   6 ++
 2 files changed, 57 insertions(+), 51 deletions(-)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index aca2e15..eaa52e2 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -495,7 +495,7 @@ Code parse_array_decl()
 {
 	push_scope();
 
-	if ( check( Tok_Operator ) && currtok.Text.Ptr[0] == '[' && currtok.Text.Ptr[1] == ']' )
+	if ( check( Tok_Operator ) && tok_char_at(currtok, 0) == '[' && tok_char_at(currtok, 1) == ']' )
 	{
 		Code array_expr = untyped_str( txt(" ") );
 		eat( Tok_Operator );
@@ -1078,7 +1078,7 @@ CodeBody parse_class_struct_body( TokType which, Token name )
 						attributes = more_attributes;
 				}
 
-				if ( currtok.Type == Tok_Operator && currtok.Text.Ptr[0] == '~' )
+				if ( currtok.Type == Tok_Operator && tok_char_at(currtok, 0) == '~' )
 				{
 					member = cast(Code, parser_parse_destructor( specifiers ));
 					// <Attribute> <Specifiers> ~<Name>()
@@ -1528,7 +1528,7 @@ CodeFn parse_function_after_name(
 		}
 		// <Attributes> <Specifiers> <ReturnType> <Name> ( <Paraemters> ) <Specifiers> { <Body> }
 	}
-	else if ( check(Tok_Operator) && currtok.Text.Ptr[0] == '=' )
+	else if ( check(Tok_Operator) && tok_char_at(currtok, 0) == '=' )
 	{
 		eat(Tok_Operator);
 		if ( specifiers == nullptr )
@@ -2016,7 +2016,7 @@ Code parse_global_nspace_constructor_destructor( CodeSpecifiers specifiers )
 	for ( ; idx < array_num(tokens.Arr); idx++ )
 	{
 		nav = tokens.Arr[ idx ];
-		if ( nav.Text.Ptr[0] == '<' )
+		if ( tok_char_at(nav, 0) == '<' )
 		{
 			// Skip templated expressions as they mey have expressions with the () operators
 			s32 capture_level  = 0;
@@ -2024,12 +2024,12 @@ Code parse_global_nspace_constructor_destructor( CodeSpecifiers specifiers )
 			for ( ; idx < array_num(tokens.Arr); idx++ )
 			{
 				nav = tokens.Arr[idx];
-				if (nav.Text.Ptr[ 0 ] == '<')
+				if (tok_char_at(nav, 0) == '<')
 					++ template_level;
 
-				if (nav.Text.Ptr[ 0 ] == '>')
+				if (tok_char_at(nav, 0) == '>')
 					-- template_level;
-				if (nav.Type == Tok_Operator && nav.Text.Ptr[1] == '>')
+				if (nav.Type == Tok_Operator && tok_char_at(nav, 0) == '>' && tok_char_at(nav, 1) == '>')
 					-- template_level;
 
 				if ( nav.Type == Tok_Paren_Open)
@@ -2072,7 +2072,7 @@ Code parse_global_nspace_constructor_destructor( CodeSpecifiers specifiers )
 	// <Attributes> <Specifiers> ... <Identifier>
 
 	bool possible_destructor = false;
-	if ( tok_left.Type == Tok_Operator && tok_left.Text.Ptr[0] == '~')
+	if ( tok_left.Type == Tok_Operator && tok_char_at(tok_left, 0) == '~')
 	{
 		possible_destructor = true;
 		-- idx;
@@ -2091,12 +2091,12 @@ Code parse_global_nspace_constructor_destructor( CodeSpecifiers specifiers )
 	s32 template_level = 0;
 	while ( idx != tokens.Idx )
 	{
-		if (tok_left.Text.Ptr[ 0 ] == '<')
+		if (tok_char_at(tok_left, 0) == '<')
 			++ template_level;
 
-		if (tok_left.Text.Ptr[ 0 ] == '>')
+		if (tok_char_at(tok_left, 0) == '>')
 			-- template_level;
-		if (tok_left.Type == Tok_Operator && tok_left.Text.Ptr[1] == '>')
+		if (tok_left.Type == Tok_Operator && tok_char_at(tok_left, 0) == '>' && tok_char_at(tok_left, 1) == '>')
 			-- template_level;
 
 		if ( template_level != 0 && tok_left.Type == Tok_Paren_Open)
@@ -2166,7 +2166,7 @@ Token parse_identifier( bool* possible_member_function )
 			return invalid;
 		}
 
-		if ( currtok.Type == Tok_Operator && currtok.Text.Ptr[0] == '~' )
+		if ( currtok.Type == Tok_Operator && tok_char_at(currtok, 0) == '~' )
 		{
 			bool is_destructor = str_are_equal( _ctx->parser.Scope->Prev->ProcName, txt("parser_parse_destructor"));
 			if (is_destructor)
@@ -2181,7 +2181,7 @@ Token parse_identifier( bool* possible_member_function )
 			return invalid;
 		}
 
-		if ( currtok.Type == Tok_Operator && currtok.Text.Ptr[0] == '*' && currtok.Text.Len == 1 )
+		if ( currtok.Type == Tok_Operator && tok_char_at(currtok, 0) == '*' && currtok.Text.Len == 1 )
 		{
 			if ( possible_member_function )
 				*possible_member_function = true;
@@ -2285,14 +2285,14 @@ CodeOperator parse_operator_after_ret_type(
 	bool was_new_or_delete = false;
 
 	Operator op = Op_Invalid;
-	switch ( currtok.Text.Ptr[0] )
+	switch ( tok_char_at(currtok, 0) )
 	{
 		case '+':
 		{
-			if ( currtok.Text.Ptr[1] == '=' )
+			if ( tok_char_at(currtok, 1) == '=' )
 				op = Op_Assign_Add;
 
-			else if ( currtok.Text.Ptr[1] == '+' )
+			else if ( tok_char_at(currtok, 1) == '+' )
 				op = Op_Increment;
 
 			else
@@ -2301,7 +2301,7 @@ CodeOperator parse_operator_after_ret_type(
 		break;
 		case '-':
 		{
-			if ( currtok.Text.Ptr[1] == '>' )
+			if ( tok_char_at(currtok, 1) == '>' )
 			{
 				if ( currtok.Text.Len == 3 )
 					op = Op_PtrToMemOfPtr;
@@ -2312,10 +2312,10 @@ CodeOperator parse_operator_after_ret_type(
 				break;
 			}
 
-			else if ( currtok.Text.Ptr[1] == '=' )
+			else if ( tok_char_at(currtok, 1) == '=' )
 				op = Op_Assign_Subtract;
 
-			else if ( currtok.Text.Ptr[1] == '-' )
+			else if ( tok_char_at(currtok, 1) == '-' )
 				op = Op_Decrement;
 
 			else
@@ -2324,7 +2324,7 @@ CodeOperator parse_operator_after_ret_type(
 		break;
 		case '*':
 		{
-			if ( currtok.Text.Ptr[1] == '=' )
+			if ( tok_char_at(currtok, 1) == '=' )
 				op = Op_Assign_Multiply;
 
 			else
@@ -2335,7 +2335,7 @@ CodeOperator parse_operator_after_ret_type(
 		break;
 		case '/':
 		{
-			if ( currtok.Text.Ptr[1] == '=' )
+			if ( tok_char_at(currtok, 1) == '=' )
 				op = Op_Assign_Divide;
 
 			else
@@ -2344,7 +2344,7 @@ CodeOperator parse_operator_after_ret_type(
 		break;
 		case '%':
 		{
-			if ( currtok.Text.Ptr[1] == '=' )
+			if ( tok_char_at(currtok, 1) == '=' )
 				op = Op_Assign_Modulo;
 
 			else
@@ -2353,10 +2353,10 @@ CodeOperator parse_operator_after_ret_type(
 		break;
 		case '&':
 		{
-			if ( currtok.Text.Ptr[1] == '=' )
+			if ( tok_char_at(currtok, 1) == '=' )
 				op = Op_Assign_BAnd;
 
-			else if ( currtok.Text.Ptr[1] == '&' )
+			else if ( tok_char_at(currtok, 1) == '&' )
 				op = Op_LAnd;
 
 			else
@@ -2370,10 +2370,10 @@ CodeOperator parse_operator_after_ret_type(
 		break;
 		case '|':
 		{
-			if ( currtok.Text.Ptr[1] == '=' )
+			if ( tok_char_at(currtok, 1) == '=' )
 				op = Op_Assign_BOr;
 
-			else if ( currtok.Text.Ptr[1] == '|' )
+			else if ( tok_char_at(currtok, 1) == '|' )
 				op = Op_LOr;
 
 			else
@@ -2382,7 +2382,7 @@ CodeOperator parse_operator_after_ret_type(
 		break;
 		case '^':
 		{
-			if ( currtok.Text.Ptr[1] == '=' )
+			if ( tok_char_at(currtok, 1) == '=' )
 				op = Op_Assign_BXOr;
 
 			else
@@ -2396,7 +2396,7 @@ CodeOperator parse_operator_after_ret_type(
 		break;
 		case '!':
 		{
-			if ( currtok.Text.Ptr[1] == '=' )
+			if ( tok_char_at(currtok, 1) == '=' )
 				op = Op_LNot;
 
 			else
@@ -2405,7 +2405,7 @@ CodeOperator parse_operator_after_ret_type(
 		break;
 		case '=':
 		{
-			if ( currtok.Text.Ptr[1] == '=' )
+			if ( tok_char_at(currtok, 1) == '=' )
 				op = Op_LEqual;
 
 			else
@@ -2414,12 +2414,12 @@ CodeOperator parse_operator_after_ret_type(
 		break;
 		case '<':
 		{
-			if ( currtok.Text.Ptr[1] == '=' )
+			if ( tok_char_at(currtok, 1) == '=' )
 				op = Op_LesserEqual;
 
-			else if ( currtok.Text.Ptr[1] == '<' )
+			else if ( tok_char_at(currtok, 1) == '<' )
 			{
-				if ( currtok.Text.Ptr[2] == '=' )
+				if ( tok_char_at(currtok, 2) == '=' )
 					op = Op_Assign_LShift;
 
 				else
@@ -2431,12 +2431,12 @@ CodeOperator parse_operator_after_ret_type(
 		break;
 		case '>':
 		{
-			if ( currtok.Text.Ptr[1] == '=' )
+			if ( tok_char_at(currtok, 1) == '=' )
 				op = Op_GreaterEqual;
 
-			else if ( currtok.Text.Ptr[1] == '>' )
+			else if ( tok_char_at(currtok, 1) == '>' )
 			{
-				if ( currtok.Text.Ptr[2] == '=' )
+				if ( tok_char_at(currtok, 2) == '=' )
 					op = Op_Assign_RShift;
 
 				else
@@ -2465,7 +2465,7 @@ CodeOperator parse_operator_after_ret_type(
 		break;
 		case '[':
 		{
-			if ( currtok.Text.Ptr[1] == ']' )
+			if ( tok_char_at(currtok, 1) == ']' )
 				op = Op_Subscript;
 
 			else
@@ -2580,7 +2580,7 @@ CodeOperator parse_operator_after_ret_type(
 		
 	// TODO(Ed): Add proper "delete" and "new" awareness
 	// We're dealing with either a "= delete" or operator deletion
-	if (check(Tok_Operator) && currtok.Text.Ptr[0] == '=')
+	if (check(Tok_Operator) && tok_char_at(currtok, 0) == '=')
 	{
 		eat(currtok.Type);
 		if ( ! str_are_equal(currtok.Text, txt("delete")))
@@ -2834,7 +2834,7 @@ CodeParams parse_params( bool use_template_capture )
 		// (
 	}
 	else {
-		if ( check( Tok_Operator ) && currtok.Text.Ptr[ 0 ] == '<' )
+		if ( check( Tok_Operator ) && tok_char_at(currtok, 0) == '<' )
 			eat( Tok_Operator );
 			// <
 	}
@@ -2846,7 +2846,7 @@ CodeParams parse_params( bool use_template_capture )
 		parser_pop(& _ctx->parser);
 		return NullCode;
 	}
-	else if ( check( Tok_Operator ) && currtok.Text.Ptr[ 0 ] == '>' ) 
+	else if ( check( Tok_Operator ) && tok_char_at(currtok, 0) == '>' ) 
 	{
 		eat( Tok_Operator );
 		// >
@@ -2874,7 +2874,7 @@ CodeParams parse_params( bool use_template_capture )
 	}
 
 	#define CheckEndParams() \
-		(use_template_capture ? (currtok.Text.Ptr[ 0 ] != '>') : (currtok.Type != Tok_Paren_Close))
+		(use_template_capture ? (tok_char_at(currtok, 0) != '>') : (currtok.Type != Tok_Paren_Close))
 
 	// TODO(Ed): Use expression macros or this? macro as attribute?
 	// Ex: Unreal has this type of macro:                 vvvvvvvvv
@@ -3100,7 +3100,7 @@ CodeParams parse_params( bool use_template_capture )
 	}
 	else
 	{
-		if ( ! check( Tok_Operator ) || currtok.Text.Ptr[ 0 ] != '>' ) {
+		if ( ! check( Tok_Operator ) || tok_char_at(currtok, 0) != '>' ) {
 			log_failure( "Expected '<' after 'template' keyword\n%s", parser_to_strbuilder(_ctx->parser) );
 			parser_pop(& _ctx->parser);
 			return InvalidCode;
@@ -3318,20 +3318,20 @@ Code parse_static_assert()
 internal inline
 void parse_template_args( Token* token )
 {
-	if ( currtok.Type == Tok_Operator && currtok.Text.Ptr[ 0 ] == '<' && currtok.Text.Len == 1 )
+	if ( currtok.Type == Tok_Operator && tok_char_at(currtok, 0) == '<' && currtok.Text.Len == 1 )
 	{
 		eat( Tok_Operator );
 		// <
 
 		s32 level = 0;
-		while ( left && level >= 0 && ( currtok.Text.Ptr[ 0 ] != '>' || level > 0 ) )
+		while ( left && level >= 0 && ( tok_char_at(currtok, 0) != '>' || level > 0 ) )
 		{
-			if ( currtok.Text.Ptr[ 0 ] == '<' )
+			if ( tok_char_at(currtok, 0) == '<' )
 				level++;
 
-			if ( currtok.Text.Ptr[ 0 ] == '>' )
+			if ( tok_char_at(currtok, 0) == '>' )
 				level--;
-			if ( currtok.Type == Tok_Operator && currtok.Text.Ptr[1] == '>')
+			if ( currtok.Type == Tok_Operator && tok_char_at(currtok, 0) == '>' && tok_char_at(currtok, 1) == '>')
 				level--;
 
 			eat( currtok.Type );
@@ -3672,7 +3672,7 @@ CodeConstructor parser_parse_constructor( CodeSpecifiers specifiers )
 	}
 	else
 	{
-		if ( check( Tok_Operator) && currtok.Text.Ptr[ 0 ] == '=' )
+		if ( check( Tok_Operator) && tok_char_at(currtok, 0) == '=' )
 			body = cast(CodeBody, parse_assignment_expression());
 		// <Name> ( <Parameters> ) = <default/delete>
 
@@ -3822,7 +3822,7 @@ CodeDestructor parser_parse_destructor( CodeSpecifiers specifiers )
 		prefix_identifier = parse_identifier(nullptr);
 
 	Token tilde = currtok;
-	if ( left && currtok.Text.Ptr[ 0 ] == '~' )
+	if ( left && tok_char_at(currtok, 0) == '~' )
 		eat( Tok_Operator );
 	else
 	{
@@ -3853,13 +3853,13 @@ CodeDestructor parser_parse_destructor( CodeSpecifiers specifiers )
 
 	bool pure_virtual = false;
 
-	if ( check( Tok_Operator ) && currtok.Text.Ptr[ 0 ] == '=' )
+	if ( check( Tok_Operator ) && tok_char_at(currtok, 0) == '=' )
 	{
 		// <Virtual Specifier> ~<Name>() =
 
 		bool skip_formatting = true;
 		Token upcoming = nexttok;
-		if ( left && upcoming.Text.Ptr[ 0 ] == '0' )
+		if ( left && tok_char_at(upcoming, 0) == '0' )
 		{
 			eat( Tok_Operator );
 			eat( Tok_Number );
@@ -4083,7 +4083,7 @@ CodeEnum parser_parse_enum( bool inplace_def )
 					parse_attributes();
 					// <Name> <Attributes>
 
-					if ( currtok.Type == Tok_Operator && currtok.Text.Ptr[0] == '=' )
+					if ( currtok.Type == Tok_Operator && tok_char_at(currtok, 0) == '=' )
 					{
 						eat( Tok_Operator );
 						// <Name> =
diff --git a/base/components/parser_types.hpp b/base/components/parser_types.hpp
index 2393945..891503e 100644
--- a/base/components/parser_types.hpp
+++ b/base/components/parser_types.hpp
@@ -89,6 +89,12 @@ bool tok_is_end_definition(Token tok) {
 	return bitfield_is_set( u32, tok.Flags, TF_EndDefinition );
 }
 
+// The character of the token's text at the index, 0 when the text ends before it.
+forceinline
+char tok_char_at(Token tok, ssize idx) {
+	return idx < tok.Text.Len ? tok.Text.Ptr[idx] : '\0';
+}
+
 StrBuilder tok_to_strbuilder(Token tok);
 
 struct TokArray 
-- 
2.43.0


From a46318cd35b66811543884a72c5999ca5ccdbebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:49 +0000
Subject: [PATCH 078/119] fix: ref-qualified functions were printed with the
 qualifier in front

---
 base/components/parser.cpp    | 12 ++++++++++++
 base/helpers/base_codegen.hpp |  2 ++
 2 files changed, 14 insertions(+)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index eaa52e2..2a841c8 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -1504,6 +1504,12 @@ CodeFn parse_function_after_name(
 			suffix_specs = parse_simple_preprocess(Tok_Preprocess_Macro_Expr);
 			continue;
 		}
+		if ( ! spec_is_trailing( str_to_specifier( currtok.Text)) )
+		{
+			log_failure( "Specifier '%S' cannot follow the parameters of a function\n%SB", currtok.Text, parser_to_strbuilder(_ctx->parser) );
+			parser_pop(& _ctx->parser);
+			return InvalidCode;
+		}
 		if ( specifiers == nullptr )
 		{
 			specifiers = def_specifier( str_to_specifier( currtok.Text) );
@@ -2566,6 +2572,12 @@ CodeOperator parse_operator_after_ret_type(
 
 	while ( left && tok_is_specifier(currtok) )
 	{
+		if ( ! spec_is_trailing( str_to_specifier( currtok.Text)) )
+		{
+			log_failure( "Specifier '%S' cannot follow the parameters of a function\n%SB", currtok.Text, parser_to_strbuilder(_ctx->parser) );
+			parser_pop(& _ctx->parser);
+			return InvalidCode;
+		}
 		if ( specifiers == nullptr )
 		{
 			specifiers = def_specifier( str_to_specifier( currtok.Text) );
diff --git a/base/helpers/base_codegen.hpp b/base/helpers/base_codegen.hpp
index 533acfc..a634d6c 100644
--- a/base/helpers/base_codegen.hpp
+++ b/base/helpers/base_codegen.hpp
@@ -222,6 +222,8 @@ CodeBody gen_especifier( char const* path, bool use_c_definition = false )
 				case Spec_Pure:
 				case Spec_Delete:
 				case Spec_Volatile:
+				case Spec_Ref:
+				case Spec_RValue:
 					return true;
 		
 				default:
-- 
2.43.0


From 28399b611bd7a0d0b9c0abc81ef24c9745b50dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:49 +0000
Subject: [PATCH 079/119] fix: function types without parameters lost their
 return type

---
 base/components/code_serialization.cpp | 20 +++++++++++++-------
 base/components/parser.cpp             |  3 +++
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/base/components/code_serialization.cpp b/base/components/code_serialization.cpp
index fd02b21..dc49f94 100644
--- a/base/components/code_serialization.cpp
+++ b/base/components/code_serialization.cpp
@@ -1128,17 +1128,23 @@ void typename_to_strbuilder_ref(CodeTypename self, StrBuilder* result )
 			break;
 		}
 	#else
-		if ( self->ReturnType && self->Params )
+		if ( self->ReturnType )
 		{
 			if ( self->Attributes )
 				strbuilder_append_fmt( result, "%SB ", attributes_to_strbuilder(self->Attributes) );
+
+			strbuilder_append_fmt( result, "%SB %S ", typename_to_strbuilder(self->ReturnType), self->Name );
+
+			if ( self->Params )
+				strbuilder_append_fmt( result, "( %SB )", params_to_strbuilder(self->Params) );
 			else
-			{
-				if ( self->Specs )
-					strbuilder_append_fmt( result, "%SB %S ( %SB ) %SB", typename_to_strbuilder(self->ReturnType), self->Name, params_to_strbuilder(self->Params), specifiers_to_strbuilder(self->Specs) );
-				else
-					strbuilder_append_fmt( result, "%SB %S ( %SB )", typename_to_strbuilder(self->ReturnType), self->Name, params_to_strbuilder(self->Params) );
-			}
+				strbuilder_append_str( result, txt("()") );
+
+			if ( self->Specs )
+				strbuilder_append_fmt( result, " %SB", specifiers_to_strbuilder(self->Specs) );
+
+			if ( self->IsParamPack )
+				strbuilder_append_str( result, txt("...") );
 
 			return;
 		}
diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index 2a841c8..e615372 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -5083,6 +5083,9 @@ else if ( currtok.Type == Tok_DeclType )
 		// name_stripped.strip_space();
 		return_type->Name = cache_str( name.Text );
 
+		return_type->TypeTag = tag;
+		tag                  = Tag_None;
+
 #ifdef GEN_USE_NEW_TYPENAME_PARSING
 		if ( specifiers )
 		{
-- 
2.43.0


From bd3449fc078404609aa7b5877a38e3596433726f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:49 +0000
Subject: [PATCH 080/119] fix: names of directives could not be used as
 identifiers

---
 base/components/lexer.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/base/components/lexer.cpp b/base/components/lexer.cpp
index 0afcfe9..c72747e 100644
--- a/base/components/lexer.cpp
+++ b/base/components/lexer.cpp
@@ -527,7 +527,9 @@ void lex_found_token( LexContext* ctx )
 
 	TokType type = str_to_toktype( ctx->token.Text );
 
-	if (type == Tok_Preprocess_Define || type == Tok_Preprocess_Include) {
+	// The names of directives are reserved in directives only
+	if ( type >= Tok_Preprocess_Define && type <= Tok_Preprocess_Pragma ) {
+		type              = Tok_Identifier;
 		ctx->token.Flags |= TF_Identifier;
 	}
 
-- 
2.43.0


From 94f77efbb1ac3aec3f2c6d0aa6edafd7d6b0b424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:49 +0000
Subject: [PATCH 081/119] fix: three equal operator characters were read as one
 operator

---
 base/components/lexer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/components/lexer.cpp b/base/components/lexer.cpp
index c72747e..e2686f3 100644
--- a/base/components/lexer.cpp
+++ b/base/components/lexer.cpp
@@ -1109,7 +1109,7 @@ TokArray lex( Str content )
 					if (c.left)
 						move_forward();
 				}
-				else while ( c.left && (* ctx->scanner) == *(c.scanner - 1) && c.token.Text.Len < 3 )
+				else while ( c.left && (* ctx->scanner) == *(c.scanner - 1) && c.token.Text.Len < 2 )
 				{
 					c.token.Text.Len++;
 
-- 
2.43.0


From 8db69ba1556f8b9c0093380a9ccfb4a3a15801c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:49 +0000
Subject: [PATCH 082/119] fix: a } that closes nothing silently ended the parse

---
 base/components/parser.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index e615372..5035470 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -1994,6 +1994,13 @@ CodeBody parse_global_nspace( CodeType which )
 		eat( Tok_BraceCurly_Close );
 		// { <Body> }
 
+	else if ( left )
+	{
+		log_failure( "Found a '}' that closes nothing\n%SB", parser_to_strbuilder(_ctx->parser) );
+		parser_pop(& _ctx->parser);
+		return InvalidCode;
+	}
+
 	parser_pop(& _ctx->parser);
 	return result;
 }
-- 
2.43.0


From aef1bc23aea443bf513a12e4d5ebae6622e044ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:49 +0000
Subject: [PATCH 083/119] fix: names were compared by a common prefix with a
 constructor's class

---
 base/components/parser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index 5035470..373881d 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -1107,7 +1107,7 @@ CodeBody parse_class_struct_body( TokType which, Token name )
 			{
 				if ( nexttok.Type == Tok_Paren_Open && name.Text.Len && currtok.Type == Tok_Identifier )
 				{
-					if ( c_str_compare_len( name.Text.Ptr, currtok.Text.Ptr, name.Text.Len ) == 0 )
+					if ( str_are_equal( name.Text, currtok.Text ) )
 					{
 						member = cast(Code, parser_parse_constructor( specifiers ));
 						// <Attributes> <Specifiers> <Name>()
@@ -2125,7 +2125,7 @@ Code parse_global_nspace_constructor_destructor( CodeSpecifiers specifiers )
 		tok_left = tokens.Arr[idx];
 	}
 
-	bool is_same = c_str_compare_len( tok_right.Text.Ptr, tok_left.Text.Ptr, tok_right.Text.Len ) == 0;
+	bool is_same = str_are_equal( tok_right.Text, tok_left.Text );
 	if (tok_left.Type == Tok_Identifier && is_same)
 	{
 		// We have found the pattern we desired
-- 
2.43.0


From 2adec4de3ee63c78910ba91eb28004c76941b6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:50 +0000
Subject: [PATCH 084/119] fix: operators were recognized by the start of their
 token

---
 base/components/parser.cpp | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index 373881d..acd062c 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -2489,7 +2489,7 @@ CodeOperator parse_operator_after_ret_type(
 		{
 			Str c_str_new    = operator_to_str(Op_New);
 			Str c_str_delete = operator_to_str(Op_Delete);
-			if ( c_str_compare_len( currtok.Text.Ptr, c_str_new.Ptr, max(c_str_new.Len - 1, currtok.Text.Len)) == 0)
+			if ( str_are_equal( currtok.Text, c_str_new ))
 			{
 				op = Op_New;
 				eat( Tok_Identifier );
@@ -2501,7 +2501,7 @@ CodeOperator parse_operator_after_ret_type(
 						idx++;
 				}
 				Token next = _ctx->parser.Tokens.Arr[idx];
-				if ( currtok.Type == Tok_Operator && c_str_compare_len(currtok.Text.Ptr, "[]", 2) == 0)
+				if ( currtok.Type == Tok_Operator && str_are_equal( currtok.Text, txt("[]") ))
 				{
 					eat(Tok_Operator);
 					op = Op_NewArray;
@@ -2513,7 +2513,7 @@ CodeOperator parse_operator_after_ret_type(
 					op = Op_NewArray;
 				}
 			}
-			else if ( c_str_compare_len( currtok.Text.Ptr, c_str_delete.Ptr, max(c_str_delete.Len - 1, currtok.Text.Len )) == 0)
+			else if ( str_are_equal( currtok.Text, c_str_delete ))
 			{
 				op = Op_Delete;
 				eat(Tok_Identifier);
@@ -2525,7 +2525,7 @@ CodeOperator parse_operator_after_ret_type(
 						idx++;
 				}
 				Token next = _ctx->parser.Tokens.Arr[idx];
-				if ( currtok.Type == Tok_Operator && c_str_compare_len(currtok.Text.Ptr, "[]", 2) == 0)
+				if ( currtok.Type == Tok_Operator && str_are_equal( currtok.Text, txt("[]") ))
 				{
 					eat(Tok_Operator);
 					op = Op_DeleteArray;
@@ -2541,7 +2541,7 @@ CodeOperator parse_operator_after_ret_type(
 			{
 				if ( op == Op_Invalid )
 				{
-					log_failure( "Invalid operator '%s'\n%s", prevtok.Text, parser_to_strbuilder(_ctx->parser) );
+					log_failure( "Invalid operator '%S'\n%SB", currtok.Text, parser_to_strbuilder(_ctx->parser) );
 					parser_pop(& _ctx->parser);
 					return InvalidCode;
 				}
@@ -2551,13 +2551,22 @@ CodeOperator parse_operator_after_ret_type(
 
 	if ( op == Op_Invalid )
 	{
-		log_failure( "Invalid operator '%s'\n%s", currtok.Text, parser_to_strbuilder(_ctx->parser) );
+		log_failure( "Invalid operator '%S'\n%SB", currtok.Text, parser_to_strbuilder(_ctx->parser) );
 		parser_pop(& _ctx->parser);
 		return InvalidCode;
 	}
 
 	if ( ! was_new_or_delete)
+	{
+		Str op_str = operator_to_str(op);
+		if ( op != Op_FunctionCall && ! str_are_equal( currtok.Text, op_str ) )
+		{
+			log_failure( "Invalid operator '%S'\n%SB", currtok.Text, parser_to_strbuilder(_ctx->parser) );
+			parser_pop(& _ctx->parser);
+			return InvalidCode;
+		}
 		eat( currtok.Type );
+	}
 	// <ExportFlag> <Attributes> <Specifiers> <ReturnType> <Qualifier::...> operator <Op>
 
 	// Parse Params
-- 
2.43.0


From 285f43b014acf1424fb8807ee66a72b57e48b6eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:50 +0000
Subject: [PATCH 085/119] fix: unknown members of a class were cut at the first
 nested brace

---
 base/components/parser.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index acd062c..062dc7f 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -1124,11 +1124,23 @@ CodeBody parse_class_struct_body( TokType which, Token name )
 
 			default:
 				Token untyped_tok = currtok;
-				while ( left && currtok.Type != Tok_BraceCurly_Close )
+				s32   level       = 0;
+				while ( left && ( currtok.Type != Tok_BraceCurly_Close || level > 0 ) )
 				{
-					untyped_tok.Text.Len = ( (sptr)currtok.Text.Ptr + currtok.Text.Len ) - (sptr)untyped_tok.Text.Ptr;
+					if ( currtok.Type == Tok_BraceCurly_Open )
+						level++;
+					else if ( currtok.Type == Tok_BraceCurly_Close )
+						level--;
+
 					eat( currtok.Type );
 				}
+				if ( left == 0 )
+				{
+					log_failure( "Unexpected end of the members of a class or struct\n%SB", parser_to_strbuilder(_ctx->parser) );
+					parser_pop(& _ctx->parser);
+					return InvalidCode;
+				}
+				untyped_tok.Text.Len = (sptr)currtok.Text.Ptr - (sptr)untyped_tok.Text.Ptr;
 				member = untyped_str( untyped_tok.Text );
 				// Something unknown
 			break;
-- 
2.43.0


From a6382d93353206497c3ea37fecb267ca9327e711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:50 +0000
Subject: [PATCH 086/119] fix: parse_identifier took whatever token was there
 as the name

---
 base/components/parser.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index 062dc7f..5929c3c 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -2174,6 +2174,13 @@ Token parse_identifier( bool* possible_member_function )
 	if (check(Tok_Identifier) || accept_as_identifier)
 		eat( Tok_Identifier );
 	// <Name>
+	else if ( ! check( Tok_Access_StaticSymbol ) )
+	{
+		// There is no identifier here, whatever the token is isn't part of one
+		name.Text.Len = 0;
+		parser_pop(& _ctx->parser);
+		return name;
+	}
 
 	parse_template_args( & name );
 	// <Name><Template Args>
-- 
2.43.0


From 670233320df38d14c5cc4b38365eac14557d9fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:50 +0000
Subject: [PATCH 087/119] fix: a default value of template parameters could not
 end in >>

---
 base/components/parser.cpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index 5929c3c..8ce7585 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -2987,6 +2987,15 @@ CodeParams parse_params( bool use_template_capture )
 				else if ( template_level > 0 && str_are_equal(currtok.Text, txt(">")) )
 					-- template_level;
 
+				else if ( use_template_capture && template_level == 1 && str_are_equal(currtok.Text, txt(">>")) )
+				{
+					// The first > ends the value, the second one the template's parameters
+					value_tok.Text.Len   = ( ( sptr )currtok.Text.Ptr + 1 ) - ( sptr )value_tok.Text.Ptr;
+					currtok.Text.Ptr    += 1;
+					currtok.Text.Len    -= 1;
+					template_level       = 0;
+					continue;
+				}
 				else if ( template_level > 0 && str_are_equal(currtok.Text, txt(">>")) )
 					template_level -= 2;
 
@@ -3104,6 +3113,15 @@ CodeParams parse_params( bool use_template_capture )
 					else if ( template_level > 0 && str_are_equal(currtok.Text, txt(">")) )
 						-- template_level;
 
+					else if ( use_template_capture && template_level == 1 && str_are_equal(currtok.Text, txt(">>")) )
+					{
+						// The first > ends the value, the second one the template's parameters
+						value_tok.Text.Len   = ( ( sptr )currtok.Text.Ptr + 1 ) - ( sptr )value_tok.Text.Ptr;
+						currtok.Text.Ptr    += 1;
+						currtok.Text.Len    -= 1;
+						template_level       = 0;
+						continue;
+					}
 					else if ( template_level > 0 && str_are_equal(currtok.Text, txt(">>")) )
 						template_level -= 2;
 
-- 
2.43.0


From a2ec727d50a51a4180880b7d535186f77ddb4439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:50 +0000
Subject: [PATCH 088/119] fix: enum entries were read without a comma between
 them

---
 base/components/parser.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index 8ce7585..a0e4deb 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -4171,6 +4171,13 @@ CodeEnum parser_parse_enum( bool inplace_def )
 						// TODO(Ed): We need a CodeEnumEntry, AST_EnumEntry types
 					}
 
+					if ( check( Tok_Identifier ) )
+					{
+						log_failure( "Expected a ',' between enum entries\n%SB", parser_to_strbuilder(_ctx->parser) );
+						parser_pop(& _ctx->parser);
+						return InvalidCode;
+					}
+
 					if ( currtok.Type == Tok_Comma )
 					{
 						//Token prev = * previous(_ctx->parser.Tokens, dont_skip_formatting);
-- 
2.43.0


From b666904247a8ccde5316459f81167ac7d2aa3f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:50 +0000
Subject: [PATCH 089/119] fix: a variable was read with several initializers

---
 base/components/parser.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index a0e4deb..384f4b4 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -3435,8 +3435,7 @@ CodeVar parse_variable_after_name(
 		// <Attributes> <Specifiers> <ValueType> <Name> = <Expression>
 		expr = parse_assignment_expression();
 	}
-
-	if ( currtok.Type == Tok_BraceCurly_Open )
+	else if ( currtok.Type == Tok_BraceCurly_Open )
 	{
 		Token expr_tok = currtok;
 
@@ -3460,8 +3459,7 @@ CodeVar parse_variable_after_name(
 		expr              = untyped_str( expr_tok.Text );
 		// <Attributes> <Specifiers> <ValueType> <Name> = { <Expression> }
 	}
-
-	if ( currtok.Type == Tok_Paren_Open )
+	else if ( currtok.Type == Tok_Paren_Open )
 	{
 		eat( Tok_Paren_Open);
 		// <Attributes> <Specifiers> <ValueType> <Name> (
@@ -3493,8 +3491,7 @@ CodeVar parse_variable_after_name(
 		eat( Tok_Paren_Close );
 		// <Attributes> <Specifiers> <ValueType> <Name> ( <Expression> )
 	}
-
-	if ( currtok.Type == Tok_Assign_Classifer )
+	else if ( currtok.Type == Tok_Assign_Classifer )
 	{
 		eat( Tok_Assign_Classifer );
 		// <Attributes> <Specifiers> <ValueType> <Name> :
-- 
2.43.0


From c072ea8ce3e85736e4dc912585f7653af2051b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:02 +0000
Subject: [PATCH 090/119] fix: anything beginning with < or > was taken for a
 template's brackets

---
 base/components/parser.cpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index 384f4b4..3df7f1b 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -2881,9 +2881,14 @@ CodeParams parse_params( bool use_template_capture )
 		// (
 	}
 	else {
-		if ( check( Tok_Operator ) && tok_char_at(currtok, 0) == '<' )
-			eat( Tok_Operator );
-			// <
+		if ( ! check( Tok_Operator ) || ! str_are_equal( currtok.Text, txt("<")) )
+		{
+			log_failure( "Expected '<' before the template's parameters\n%SB", parser_to_strbuilder(_ctx->parser) );
+			parser_pop(& _ctx->parser);
+			return InvalidCode;
+		}
+		eat( Tok_Operator );
+		// <
 	}
 
 	if ( ! use_template_capture && check( Tok_Paren_Close ) )
@@ -2893,7 +2898,7 @@ CodeParams parse_params( bool use_template_capture )
 		parser_pop(& _ctx->parser);
 		return NullCode;
 	}
-	else if ( check( Tok_Operator ) && tok_char_at(currtok, 0) == '>' ) 
+	else if ( use_template_capture && check( Tok_Operator ) && tok_char_at(currtok, 0) == '>' )
 	{
 		eat( Tok_Operator );
 		// >
@@ -3165,8 +3170,8 @@ CodeParams parse_params( bool use_template_capture )
 	}
 	else
 	{
-		if ( ! check( Tok_Operator ) || tok_char_at(currtok, 0) != '>' ) {
-			log_failure( "Expected '<' after 'template' keyword\n%s", parser_to_strbuilder(_ctx->parser) );
+		if ( ! check( Tok_Operator ) || ! str_are_equal( currtok.Text, txt(">")) ) {
+			log_failure( "Expected '>' after the template's parameters\n%s", parser_to_strbuilder(_ctx->parser) );
 			parser_pop(& _ctx->parser);
 			return InvalidCode;
 		}
-- 
2.43.0


From 6a48cde037d71cfda04df5656eaaecb031b82f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:02 +0000
Subject: [PATCH 091/119] fix: anything beginning with 0 was taken for a pure
 specifier

---
 base/components/parser.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index 3df7f1b..b43ee26 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -1562,6 +1562,12 @@ CodeFn parse_function_after_name(
 		}
 		else
 		{
+			if ( ! str_are_equal(currtok.Text, txt("0")) )
+			{
+				log_failure( "Expected 0 or delete after '='\n%SB", parser_to_strbuilder(_ctx->parser) );
+				parser_pop( & _ctx->parser);
+				return InvalidCode;
+			}
 			specifiers_append(specifiers, Spec_Pure );
 
 			eat( Tok_Number);
@@ -3926,7 +3932,7 @@ CodeDestructor parser_parse_destructor( CodeSpecifiers specifiers )
 
 		bool skip_formatting = true;
 		Token upcoming = nexttok;
-		if ( left && tok_char_at(upcoming, 0) == '0' )
+		if ( left && str_are_equal( upcoming.Text, txt("0") ) )
 		{
 			eat( Tok_Operator );
 			eat( Tok_Number );
-- 
2.43.0


From 309df90e89eaa6bfbb567b9f5f30ce93f651ac0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:02 +0000
Subject: [PATCH 092/119] fix: the end of an empty array declaration was
 reported as a missing end

---
 base/components/parser.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index b43ee26..08aaf5c 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -517,16 +517,16 @@ Code parse_array_decl()
 		eat( Tok_BraceSquare_Open );
 		// [
 
-		if ( left == 0 )
+		if ( currtok.Type == Tok_BraceSquare_Close )
 		{
-			log_failure( "Error, unexpected end of array declaration ( '[]' scope started )\n%s", parser_to_strbuilder(_ctx->parser) );
+			log_failure( "Error, empty array expression in definition\n%s", parser_to_strbuilder(_ctx->parser) );
 			parser_pop(& _ctx->parser);
 			return InvalidCode;
 		}
 
-		if ( currtok.Type == Tok_BraceSquare_Close )
+		if ( left == 0 )
 		{
-			log_failure( "Error, empty array expression in definition\n%s", parser_to_strbuilder(_ctx->parser) );
+			log_failure( "Error, unexpected end of array declaration ( '[]' scope started )\n%s", parser_to_strbuilder(_ctx->parser) );
 			parser_pop(& _ctx->parser);
 			return InvalidCode;
 		}
-- 
2.43.0


From 851f3496156c9a3b38b8446e8c439b24f59c3a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:02 +0000
Subject: [PATCH 093/119] fix: any operator with = in it was taken for an
 assignment

---
 base/components/parser.cpp | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index 08aaf5c..980a150 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -1419,6 +1419,11 @@ Code parse_assignment_expression()
 {
 	Code expr = { nullptr };
 
+	if ( ! str_are_equal( currtok.Text, txt("=")) )
+	{
+		log_failure( "Expected '=' before the expression not '%S'\n%SB", currtok.Text, parser_to_strbuilder(_ctx->parser) );
+		return InvalidCode;
+	}
 	eat( Tok_Operator );
 	// <Attributes> <Specifiers> <ValueType> <Name> =
 
@@ -1427,7 +1432,6 @@ Code parse_assignment_expression()
 	if ( left == 0 || currtok.Type == Tok_Statement_End || currtok.Type == Tok_Comma )
 	{
 		log_failure( "Expected expression after assignment operator\n%s", parser_to_strbuilder(_ctx->parser) );
-		parser_pop(& _ctx->parser);
 		return InvalidCode;
 	}
 
@@ -1546,7 +1550,7 @@ CodeFn parse_function_after_name(
 		}
 		// <Attributes> <Specifiers> <ReturnType> <Name> ( <Paraemters> ) <Specifiers> { <Body> }
 	}
-	else if ( check(Tok_Operator) && tok_char_at(currtok, 0) == '=' )
+	else if ( check(Tok_Operator) && str_are_equal( currtok.Text, txt("=") ) )
 	{
 		eat(Tok_Operator);
 		if ( specifiers == nullptr )
@@ -2633,7 +2637,7 @@ CodeOperator parse_operator_after_ret_type(
 		
 	// TODO(Ed): Add proper "delete" and "new" awareness
 	// We're dealing with either a "= delete" or operator deletion
-	if (check(Tok_Operator) && tok_char_at(currtok, 0) == '=')
+	if (check(Tok_Operator) && str_are_equal( currtok.Text, txt("=") ))
 	{
 		eat(currtok.Type);
 		if ( ! str_are_equal(currtok.Text, txt("delete")))
@@ -2975,14 +2979,14 @@ CodeParams parse_params( bool use_template_capture )
 		}
 
 		// C++ allows typename = expression... so anything goes....
-		if ( bitfield_is_set( u32, currtok.Flags, TF_Assign ) )
+		if ( check( Tok_Operator ) && str_are_equal( currtok.Text, txt("=")) )
 		{
 			eat( Tok_Operator );
 			// ( <Macro> <ValueType> <Name>  =
 
 			Token value_tok = currtok;
 
-			if ( currtok.Type == Tok_Comma ) {
+			if ( left == 0 || currtok.Type == Tok_Comma || ! CheckEndParams() ) {
 				log_failure( "Expected value after assignment operator\n%s.", parser_to_strbuilder(_ctx->parser) );
 				parser_pop(& _ctx->parser);
 				return InvalidCode;
@@ -3101,14 +3105,14 @@ CodeParams parse_params( bool use_template_capture )
 			}
 
 			/// C++ allows typename = expression... so anything goes....
-			if ( bitfield_is_set( u32, currtok.Flags, TF_Assign ) )
+			if ( check( Tok_Operator ) && str_are_equal( currtok.Text, txt("=")) )
 			{
 				eat( Tok_Operator );
 				// ( <Macro> <ValueType> <Name> = <Expression>, <Macro> <ValueType> <Name> <PostNameMacro> =
 
 				Token value_tok = currtok;
 
-				if ( currtok.Type == Tok_Comma ) {
+				if ( left == 0 || currtok.Type == Tok_Comma || ! CheckEndParams() ) {
 					log_failure( "Expected value after assignment operator\n%s", parser_to_strbuilder(_ctx->parser) );
 					parser_pop(& _ctx->parser);
 					return InvalidCode;
@@ -3745,7 +3749,7 @@ CodeConstructor parser_parse_constructor( CodeSpecifiers specifiers )
 	}
 	else
 	{
-		if ( check( Tok_Operator) && tok_char_at(currtok, 0) == '=' )
+		if ( check( Tok_Operator) && str_are_equal( currtok.Text, txt("=") ) )
 			body = cast(CodeBody, parse_assignment_expression());
 		// <Name> ( <Parameters> ) = <default/delete>
 
@@ -3926,7 +3930,7 @@ CodeDestructor parser_parse_destructor( CodeSpecifiers specifiers )
 
 	bool pure_virtual = false;
 
-	if ( check( Tok_Operator ) && tok_char_at(currtok, 0) == '=' )
+	if ( check( Tok_Operator ) && str_are_equal( currtok.Text, txt("=") ) )
 	{
 		// <Virtual Specifier> ~<Name>() =
 
@@ -4156,7 +4160,7 @@ CodeEnum parser_parse_enum( bool inplace_def )
 					parse_attributes();
 					// <Name> <Attributes>
 
-					if ( currtok.Type == Tok_Operator && tok_char_at(currtok, 0) == '=' )
+					if ( currtok.Type == Tok_Operator && str_are_equal( currtok.Text, txt("=") ) )
 					{
 						eat( Tok_Operator );
 						// <Name> =
@@ -5783,7 +5787,7 @@ CodeUsing parser_parse_using()
 		attributes = parse_attributes();
 		// <ModuleFlags> using <Name> <Attributes>
 		
-		if ( bitfield_is_set( u32, currtok.Flags, TF_Assign ))
+		if ( check( Tok_Operator ) && str_are_equal( currtok.Text, txt("=")) )
 		{
 			eat( Tok_Operator );
 			// <ModuleFlags> using <Name> <Attributes> =
-- 
2.43.0


From f090756d739bbdfa8f895761a22568b72bc88cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:13 +0000
Subject: [PATCH 094/119] fix: text that does not fit a print buffer was
 dropped without a report

---
 base/dependencies/printing.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/base/dependencies/printing.cpp b/base/dependencies/printing.cpp
index 865421a..68287dd 100644
--- a/base/dependencies/printing.cpp
+++ b/base/dependencies/printing.cpp
@@ -46,9 +46,10 @@ internal ssize _print_string( char* text, ssize max_len, _format_info* info, cha
 	ssize remaining = max_len;
 	char* begin     = text;
 
-	if ( str == NULL && max_len >= 6 )
+	if ( str == NULL )
 	{
-		res += c_str_copy_nulpad( text, "(null)", 6 );
+		res = min( 6, max_len );
+		c_str_copy_nulpad( text, "(null)", res );
 		return res;
 	}
 
@@ -67,8 +68,9 @@ internal ssize _print_string( char* text, ssize max_len, _format_info* info, cha
 	{
 		if ( info->precision > 0 )
 			len = info->precision < len ? info->precision : len;
+		// What doesn't fit is cut, c_str_fmt_va reports a text that fills its buffer.
 		if ( res + len > max_len )
-			return res;
+			len = max_len - res;
 		res  += c_str_copy_nulpad( text, str, len );
 		text += res;
 
@@ -93,7 +95,7 @@ internal ssize _print_string( char* text, ssize max_len, _format_info* info, cha
 		}
 
 		if ( res + len > max_len )
-			return res;
+			len = max_len - res;
 		res += c_str_copy_nulpad( text, str, len );
 	}
 
-- 
2.43.0


From c87e37facb773493ca9b95445b4361c85be80f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:13 +0000
Subject: [PATCH 095/119] fix: text longer than the print buffer was appended
 with a negative length

---
 base/auxiliary/builder.cpp     |  7 +------
 base/dependencies/printing.cpp | 20 +++++++++++++++++++-
 base/dependencies/strings.cpp  | 23 +++++++++++++++++++++++
 base/dependencies/strings.hpp  | 31 +++++++++++++++++++++++++++++++
 4 files changed, 74 insertions(+), 7 deletions(-)

diff --git a/base/auxiliary/builder.cpp b/base/auxiliary/builder.cpp
index 391f520..4f2f24f 100644
--- a/base/auxiliary/builder.cpp
+++ b/base/auxiliary/builder.cpp
@@ -38,12 +38,7 @@ void builder_print( Builder* builder, Code code )
 
 void builder_print_fmt_va( Builder* builder, char const* fmt, va_list va )
 {
-	ssize   res;
-	char buf[ GEN_PRINTF_MAXLEN ] = { 0 };
-
-	res = c_str_fmt_va( buf, count_of( buf ) - 1, fmt, va ) - 1;
-
-	strbuilder_append_c_str_len( (StrBuilder*) & (builder->Buffer), (char const*)buf, res);
+	strbuilder_append_fmt_va( & builder->Buffer, fmt, va );
 }
 
 void builder_write(Builder* builder)
diff --git a/base/dependencies/printing.cpp b/base/dependencies/printing.cpp
index 68287dd..42554e4 100644
--- a/base/dependencies/printing.cpp
+++ b/base/dependencies/printing.cpp
@@ -564,8 +564,26 @@ char* c_str_fmt_buf( char const* fmt, ... )
 ssize c_str_fmt_file_va( FileInfo* f, char const* fmt, va_list va )
 {
 	local_persist thread_local char buf[ GEN_PRINTF_MAXLEN ];
+	va_list again;
+	va_copy( again, va );
 	ssize                              len = c_str_fmt_va( buf, size_of( buf ), fmt, va );
-	b32                             res = file_write( f, buf, len - 1 );    // NOTE: prevent extra whitespace
+	b32                             res = false;
+	if ( len > 0 )
+	{
+		res = file_write( f, buf, len - 1 );    // NOTE: prevent extra whitespace
+	}
+	else
+	{
+		// The text is longer than the buffer
+		StrBuilder text = strbuilder_make_reserve( heap(), GEN_PRINTF_MAXLEN );
+		if ( strbuilder_append_fmt_va( & text, fmt, again ) )
+		{
+			len = strbuilder_length( text ) + 1;
+			res = file_write( f, text, len - 1 );
+		}
+		strbuilder_free( & text );
+	}
+	va_end( again );
 	return res ? len : -1;
 }
 
diff --git a/base/dependencies/strings.cpp b/base/dependencies/strings.cpp
index 5bd3a47..bf05fe2 100644
--- a/base/dependencies/strings.cpp
+++ b/base/dependencies/strings.cpp
@@ -117,6 +117,29 @@ bool strbuilder_append_c_str_len(StrBuilder* str, char const* c_str_to_append, s
 	return c_str_to_append != nullptr;
 }
 
+bool strbuilder_append_fmt_va(StrBuilder* str, char const* fmt, va_list va)
+{
+	GEN_ASSERT(str != nullptr);
+	// Tries larger and larger buffers until the whole text fits.
+	for ( ssize size = GEN_PRINTF_MAXLEN; true; size *= 2 )
+	{
+		char* buf = alloc_array( heap(), char, size );
+		if ( buf == nullptr )
+			return false;
+
+		va_list again;
+		va_copy( again, va );
+		ssize length = c_str_fmt_va( buf, size, fmt, again ) - 1;
+		va_end( again );
+
+		bool fits   = length >= 0;
+		bool result = fits && strbuilder_append_c_str_len( str, buf, length );
+		allocator_free( heap(), buf );
+		if ( fits )
+			return result;
+	}
+}
+
 void strbuilder_trim(StrBuilder str, char const* cut_set)
 {
 	ssize len = 0;
diff --git a/base/dependencies/strings.hpp b/base/dependencies/strings.hpp
index 3ed1ccb..17565f1 100644
--- a/base/dependencies/strings.hpp
+++ b/base/dependencies/strings.hpp
@@ -126,6 +126,7 @@ GEN_API StrBuilder        strbuilder_make_reserve        (AllocatorInfo allocato
 GEN_API StrBuilder        strbuilder_make_length         (AllocatorInfo allocator, char const*  str,   ssize length);
 GEN_API bool              strbuilder_make_space_for      (StrBuilder* str, char const* to_append,       ssize add_len);
 GEN_API bool              strbuilder_append_c_str_len    (StrBuilder* str, char const* c_str_to_append, ssize length);
+GEN_API bool              strbuilder_append_fmt_va       (StrBuilder* str, char const* fmt,             va_list va);
 GEN_API void              strbuilder_trim                (StrBuilder  str, char const* cut_set);
 GEN_API StrBuilder        strbuilder_visualize_whitespace(StrBuilder const str);
 
@@ -220,6 +221,14 @@ struct StrBuilder
 		va_start(va, fmt);
 		ssize res = c_str_fmt_va(buf, GEN_PRINTF_MAXLEN, fmt, va) - 1;
 		va_end(va);
+		if ( res < 0 )
+		{
+			StrBuilder result = strbuilder_make_reserve(allocator, GEN_PRINTF_MAXLEN);
+			va_start(va, fmt);
+			strbuilder_append_fmt_va(& result, fmt, va);
+			va_end(va);
+			return result;
+		}
 		return strbuilder_make_length(allocator, buf, res);
 	}
 
@@ -259,6 +268,13 @@ struct StrBuilder
 		res = c_str_fmt_va(buf, count_of(buf) - 1, fmt, va) - 1;
 		va_end(va);
 
+		if ( res < 0 )
+		{
+			va_start(va, fmt);
+			bool result = strbuilder_append_fmt_va(this, fmt, va);
+			va_end(va);
+			return result;
+		}
 		return strbuilder_append_c_str_len(this, buf, res);
 	}
 #pragma endregion Member Mapping
@@ -327,6 +343,14 @@ StrBuilder strbuilder_fmt_buf(AllocatorInfo allocator, char const* fmt, ...)
 	ssize res = c_str_fmt_va(buf, GEN_PRINTF_MAXLEN, fmt, va) -1;
 	va_end(va);
 
+	if ( res < 0 )
+	{
+		StrBuilder result = strbuilder_make_reserve(allocator, GEN_PRINTF_MAXLEN);
+		va_start(va, fmt);
+		strbuilder_append_fmt_va(& result, fmt, va);
+		va_end(va);
+		return result;
+	}
 	return strbuilder_make_length(allocator, buf, res);
 }
 
@@ -381,6 +405,13 @@ bool strbuilder_append_fmt(StrBuilder* str, char const* fmt, ...) {
 	res = c_str_fmt_va(buf, count_of(buf) - 1, fmt, va) - 1;
 	va_end(va);
 
+	if ( res < 0 )
+	{
+		va_start(va, fmt);
+		bool result = strbuilder_append_fmt_va(str, fmt, va);
+		va_end(va);
+		return result;
+	}
 	return strbuilder_append_c_str_len(str, (char const*)buf, res);
 }
 
-- 
2.43.0


From bc53e84ea9bc81ec6c578b3cfd7227655f1d811e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:13 +0000
Subject: [PATCH 096/119] fix: allocations ignored their padding and could
 exceed a bucket or arena

---
 base/components/interface.cpp | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/base/components/interface.cpp b/base/components/interface.cpp
index 217188d..be67df7 100644
--- a/base/components/interface.cpp
+++ b/base/components/interface.cpp
@@ -13,13 +13,16 @@ void* fallback_allocator_proc( void* allocator_data, AllocType type, ssize size,
 	GEN_ASSERT(_ctx->Fallback_AllocatorBuckets);
 	Arena* last = array_back(_ctx->Fallback_AllocatorBuckets);
 
+	// An arena pads to the alignment before and after the block.
+	ssize size_req = size + 2 * alignment;
+
 	switch ( type )
 	{
 		case EAllocation_ALLOC:
 		{
-			if ( ( last->TotalUsed + size ) > last->TotalSize )
+			if ( ( last->TotalUsed + size_req ) > last->TotalSize )
 			{
-				Arena bucket = arena_init_from_allocator( heap(), _ctx->InitSize_Fallback_Allocator_Bucket_Size );
+				Arena bucket = arena_init_from_allocator( heap(), max( scast(ssize, _ctx->InitSize_Fallback_Allocator_Bucket_Size), size_req ) );
 
 				if ( bucket.PhysicalStart == nullptr )
 					GEN_FATAL( "Failed to create bucket for Fallback_AllocatorBuckets");
@@ -44,9 +47,9 @@ void* fallback_allocator_proc( void* allocator_data, AllocType type, ssize size,
 		break;
 		case EAllocation_RESIZE:
 		{
-			if ( last->TotalUsed + size > last->TotalSize )
+			if ( last->TotalUsed + size_req > last->TotalSize )
 			{
-				Arena bucket = arena_init_from_allocator( heap(), _ctx->InitSize_Fallback_Allocator_Bucket_Size );
+				Arena bucket = arena_init_from_allocator( heap(), max( scast(ssize, _ctx->InitSize_Fallback_Allocator_Bucket_Size), size_req ) );
 
 				if ( bucket.PhysicalStart == nullptr )
 					GEN_FATAL( "Failed to create bucket for Fallback_AllocatorBuckets");
@@ -57,11 +60,11 @@ void* fallback_allocator_proc( void* allocator_data, AllocType type, ssize size,
 				last = array_back( _ctx->Fallback_AllocatorBuckets);
 			}
 
-			void* result = alloc_align( last->Backing, size, alignment );
+			void* result = alloc_align( arena_allocator_info(last), size, alignment );
 
 			if ( result != nullptr && old_memory != nullptr )
 			{
-				mem_copy( result, old_memory, old_size );
+				mem_copy( result, old_memory, min( size, old_size ) );
 			}
 
 			return result;
@@ -421,10 +424,13 @@ void set_context(Context* new_ctx) {
 AllocatorInfo get_cached_str_allocator( s32 str_length )
 {
 	Arena* last     = array_back(_ctx->StringArenas);
-	usize  size_req = str_length + sizeof(StrBuilderHeader) + sizeof(char*);
-	if ( last->TotalUsed + scast(ssize, size_req) > last->TotalSize )
+	// An arena pads to the alignment before and after the block.
+	ssize  size_req = str_length + sizeof(StrBuilderHeader) + 1 + 2 * GEN_DEFAULT_MEMORY_ALIGNMENT;
+	if ( last->TotalUsed + size_req > last->TotalSize )
 	{
-		Arena new_arena = arena_init_from_allocator( _ctx->Allocator_StrCache, _ctx->SizePer_StringArena );
+		Arena new_arena = arena_init_from_allocator( _ctx->Allocator_StrCache, max( scast(ssize, _ctx->SizePer_StringArena), size_req ) );
+		if ( new_arena.PhysicalStart == nullptr )
+			GEN_FATAL( "gen::get_cached_str_allocator: Failed to allocate a new string arena" );
 		if ( ! array_append( _ctx->StringArenas, new_arena ) )
 			GEN_FATAL( "gen::get_cached_str_allocator: Failed to allocate a new string arena" );
 
-- 
2.43.0


From d38d5d59ec951252736bec11fc6fced3f5671473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:24 +0000
Subject: [PATCH 097/119] fix: the parser looked at tokens behind the last one

---
 base/components/parser.cpp | 35 ++++++++++++++++++++++-------------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index 980a150..f0fdb87 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -75,6 +75,15 @@ StrBuilder parser_to_strbuilder(ParseContext ctx)
 	return result;
 }
 
+// The token at an index, or none if it is behind the last one
+internal
+Token lex_token_at(TokArray const* self, s32 idx)
+{
+	if ( idx >= array_num(self->Arr) )
+		return NullToken;
+	return self->Arr[ idx ];
+}
+
 bool lex__eat(TokArray* self, TokType type )
 {
 	if ( array_num(self->Arr) - self->Idx <= 0 ) {
@@ -1967,12 +1976,12 @@ CodeBody parse_global_nspace( CodeType which )
 
 					for ( ; idx < array_num(_ctx->parser.Tokens.Arr); idx++ )
 					{
-						Token tok = _ctx->parser.Tokens.Arr[ idx ];
+						Token tok = lex_token_at( & _ctx->parser.Tokens, idx );
 
 						if ( tok.Type == Tok_Identifier )
 						{
 							idx++;
-							tok = _ctx->parser.Tokens.Arr[ idx ];
+							tok = lex_token_at( & _ctx->parser.Tokens, idx );
 							if ( tok.Type == Tok_Access_StaticSymbol )
 								continue;
 
@@ -2526,10 +2535,10 @@ CodeOperator parse_operator_after_ret_type(
 
 				s32 idx = _ctx->parser.Tokens.Idx + 1;
 				{
-					while ( _ctx->parser.Tokens.Arr[ idx ].Type == Tok_NewLine )
+					while ( lex_token_at( & _ctx->parser.Tokens, idx ).Type == Tok_NewLine )
 						idx++;
 				}
-				Token next = _ctx->parser.Tokens.Arr[idx];
+				Token next = lex_token_at( & _ctx->parser.Tokens, idx );
 				if ( currtok.Type == Tok_Operator && str_are_equal( currtok.Text, txt("[]") ))
 				{
 					eat(Tok_Operator);
@@ -2550,10 +2559,10 @@ CodeOperator parse_operator_after_ret_type(
 
 				s32 idx = _ctx->parser.Tokens.Idx + 1;
 				{
-					while ( _ctx->parser.Tokens.Arr[ idx ].Type == Tok_NewLine )
+					while ( lex_token_at( & _ctx->parser.Tokens, idx ).Type == Tok_NewLine )
 						idx++;
 				}
-				Token next = _ctx->parser.Tokens.Arr[idx];
+				Token next = lex_token_at( & _ctx->parser.Tokens, idx );
 				if ( currtok.Type == Tok_Operator && str_are_equal( currtok.Text, txt("[]") ))
 				{
 					eat(Tok_Operator);
@@ -2732,12 +2741,12 @@ Code parse_operator_function_or_variable( bool expects_function, CodeAttributes
 
 	for ( ; idx < array_num(_ctx->parser.Tokens.Arr); idx++ )
 	{
-		Token tok = _ctx->parser.Tokens.Arr[ idx ];
+		Token tok = lex_token_at( & _ctx->parser.Tokens, idx );
 
 		if ( tok.Type == Tok_Identifier )
 		{
 			idx++;
-			tok = _ctx->parser.Tokens.Arr[ idx ];
+			tok = lex_token_at( & _ctx->parser.Tokens, idx );
 			if ( tok.Type == Tok_Access_StaticSymbol )
 				continue;
 
@@ -2767,7 +2776,7 @@ Code parse_operator_function_or_variable( bool expects_function, CodeAttributes
 		//                  (         350.0f    ,         <---  Could be the scenario
 		// Example : <Capture_Start> <Value> <Comma>
 		//                 idx         +1      +2
-		bool detected_comma = _ctx->parser.Tokens.Arr[ _ctx->parser.Tokens.Idx + 2 ].Type == Tok_Comma;
+		bool detected_comma = lex_token_at( & _ctx->parser.Tokens, _ctx->parser.Tokens.Idx + 2 ).Type == Tok_Comma;
 
 		b32   detected_non_varadic_unpaired_param = detected_comma && nexttok.Type != Tok_Varadic_Argument;
 		if (! detected_non_varadic_unpaired_param && nexttok.Type ==  Tok_Preprocess_Macro_Expr) for( s32 break_scope = 0; break_scope == 0; ++ break_scope)
@@ -2784,7 +2793,7 @@ Code parse_operator_function_or_variable( bool expects_function, CodeAttributes
 			// Find end of the token expression
 			for ( ; idx < array_num(_ctx->parser.Tokens.Arr); idx++ )
 			{
-				Token tok = _ctx->parser.Tokens.Arr[ idx ];
+				Token tok = lex_token_at( & _ctx->parser.Tokens, idx );
 
 				if ( tok.Type == Tok_Paren_Open )
 					level++;
@@ -2795,7 +2804,7 @@ Code parse_operator_function_or_variable( bool expects_function, CodeAttributes
 			}
 			++ idx; // Will incremnt to possible comma position
 
-			if ( _ctx->parser.Tokens.Arr[ idx ].Type != Tok_Comma )
+			if ( lex_token_at( & _ctx->parser.Tokens, idx ).Type != Tok_Comma )
 				break;
 
 			detected_non_varadic_unpaired_param = true;
@@ -4849,12 +4858,12 @@ CodeTemplate parser_parse_template()
 
 			for ( ; idx < array_num(_ctx->parser.Tokens.Arr); idx++ )
 			{
-				Token tok = _ctx->parser.Tokens.Arr[ idx ];
+				Token tok = lex_token_at( & _ctx->parser.Tokens, idx );
 
 				if ( tok.Type == Tok_Identifier )
 				{
 					idx++;
-					tok = _ctx->parser.Tokens.Arr[ idx ];
+					tok = lex_token_at( & _ctx->parser.Tokens, idx );
 					if ( tok.Type == Tok_Access_StaticSymbol )
 						continue;
 
-- 
2.43.0


From ae44eab2dba0cf09bbf762e4ee7534ab8d97c420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:54 +0000
Subject: [PATCH 098/119] fix: resetting a context lost its constants and
 macros, ending one worked on another

---
 base/components/interface.cpp | 49 ++++++++++++++++++++++++-----------
 base/components/parser.cpp    |  3 +--
 2 files changed, 35 insertions(+), 17 deletions(-)

diff --git a/base/components/interface.cpp b/base/components/interface.cpp
index be67df7..e35bfbd 100644
--- a/base/components/interface.cpp
+++ b/base/components/interface.cpp
@@ -77,10 +77,6 @@ void* fallback_allocator_proc( void* allocator_data, AllocType type, ssize size,
 internal
 void define_constants()
 {
-	// We only initalize these if there is no base context.
-	if ( context_counter > 0 )
-		return;
-
 	Code_Global          = make_code();
 	Code_Global->Name    = cache_str( txt("Global Code") );
 	Code_Global->Content = Code_Global->Name;
@@ -209,7 +205,12 @@ void define_constants()
 
 	spec_local_persist = def_specifiers( 1, Spec_Local_Persist );
 	code_set_global(cast(Code, spec_local_persist));
+}
 
+// Every context has the library's own macros.
+internal
+void define_macros()
+{
 	if (enum_underlying_macro.Name.Len == 0) {
 		enum_underlying_macro.Name  = txt("enum_underlying");
 		enum_underlying_macro.Type  = MT_Expression;
@@ -218,6 +219,9 @@ void define_constants()
 	register_macro(enum_underlying_macro);
 }
 
+// The first context initialized, it holds the constants.
+internal Context* base_context = nullptr;
+
 void init(Context* ctx)
 {
 	do_once() {
@@ -242,6 +246,9 @@ void init(Context* ctx)
 		ctx->Allocator_Temp = fallback_allocator;
 		using_fallback_allocator = true;
 	}
+	if (ctx->InitSize_Fallback_Allocator_Bucket_Size == 0) { 
+		ctx->InitSize_Fallback_Allocator_Bucket_Size = megabytes(8);
+	}
 	// Setup fallback allocator
 	if (using_fallback_allocator)
 	{
@@ -283,10 +290,6 @@ void init(Context* ctx)
 		ctx->SizePer_StringArena = megabytes(1);
 	}
 
-	if (ctx->InitSize_Fallback_Allocator_Bucket_Size == 0) { 
-		ctx->InitSize_Fallback_Allocator_Bucket_Size = megabytes(8);
-	}
-
 	// Override the current context (user has to put it back if unwanted).
 	_ctx = ctx;
 
@@ -325,7 +328,12 @@ void init(Context* ctx)
 		}
 	}
 
-	define_constants();
+	// We only initalize these if there is no base context.
+	if ( context_counter == 0 ) {
+		base_context = ctx;
+		define_constants();
+	}
+	define_macros();
 	parser_init();
 
 	++ context_counter;
@@ -335,6 +343,11 @@ void deinit(Context* ctx)
 {
 	GEN_ASSERT(context_counter);
 	GEN_ASSERT_MSG(context_counter > 0, "Attempted to deinit a context that for some reason wan't accounted for!");
+	// The fallback allocator works on the current context.
+	Context* current = _ctx;
+	_ctx = ctx;
+	parser_deinit();
+
 	usize index = 0;
 	usize left  = array_num(ctx->CodePools);
 	do
@@ -362,7 +375,7 @@ void deinit(Context* ctx)
 
 	hashtable_destroy(ctx->Macros);
 
-	left  = array_num( ctx->Fallback_AllocatorBuckets);
+	left  = ctx->Fallback_AllocatorBuckets ? array_num( ctx->Fallback_AllocatorBuckets) : 0;
 	if (left)
 	{
 		index = 0;
@@ -375,10 +388,9 @@ void deinit(Context* ctx)
 		while ( left--, left );
 		array_free( ctx->Fallback_AllocatorBuckets);
 	}
-	parser_deinit();
-
-	if (_ctx == ctx) 
-		_ctx = nullptr;
+	_ctx = current == ctx ? nullptr : current;
+	if (base_context == ctx)
+		base_context = nullptr;
 	-- context_counter;
 
 	Context wipe = {};
@@ -413,7 +425,14 @@ void reset(Context* ctx)
 
 	hashtable_clear(ctx->StrCache);
 	hashtable_clear(ctx->Macros);
-	define_constants();
+
+	// What was defined on init is defined again.
+	Context* current = _ctx;
+	_ctx = ctx;
+	if ( ctx == base_context )
+		define_constants();
+	define_macros();
+	_ctx = current;
 }
 
 void set_context(Context* new_ctx) {
diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index f0fdb87..89684ed 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -138,8 +138,7 @@ void parser_init()
 internal
 void parser_deinit()
 {
-	Array(Token) null_array = { nullptr };
-	_ctx->Lexer_Tokens = null_array;
+	array_free( _ctx->Lexer_Tokens );
 }
 
 #pragma region Helper Macros
-- 
2.43.0


From 46bf42dd30d17e3f3faef8983e92328e0aa20db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:51 +0000
Subject: [PATCH 099/119] fix: three dashes were read as one operator

---
 base/components/lexer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/components/lexer.cpp b/base/components/lexer.cpp
index e2686f3..ce3fa4f 100644
--- a/base/components/lexer.cpp
+++ b/base/components/lexer.cpp
@@ -1161,7 +1161,7 @@ TokArray lex( Str content )
 						if (c.left)
 							move_forward();
 					}
-					else while ( c.left && (* ctx->scanner) == *(c.scanner - 1) && c.token.Text.Len < 3 )
+					else while ( c.left && (* ctx->scanner) == *(c.scanner - 1) && c.token.Text.Len < 2 )
 					{
 						c.token.Text.Len++;
 
-- 
2.43.0


From 7ab993176367f83506f1169a8e794a2573c0386f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:39 +0000
Subject: [PATCH 100/119] fix: reads and writes stopped at the first short
 transfer and moved the position by what was asked for

---
 base/dependencies/filesystem.hpp | 36 +++++++++++++++++++++++++-------
 1 file changed, 29 insertions(+), 7 deletions(-)

diff --git a/base/dependencies/filesystem.hpp b/base/dependencies/filesystem.hpp
index 9d3676a..2919e08 100644
--- a/base/dependencies/filesystem.hpp
+++ b/base/dependencies/filesystem.hpp
@@ -338,8 +338,20 @@ inline
 b32 file_read( FileInfo* f, void* buffer, ssize size )
 {
 	s64 cur_offset = file_tell( f );
-	b32 result     = file_read_at( f, buffer, size, file_tell( f ) );
-	file_seek( f, cur_offset + size );
+	b32 result     = true;
+
+	// The position moves by what was read, which may take several transfers.
+	ssize total = 0;
+	while ( total < size )
+	{
+		ssize done = 0;
+		result = file_read_at_check( f, pointer_add( buffer, total ), size - total, cur_offset + total, & done );
+		if ( ! result || done <= 0 )
+			break;
+		total += done;
+	}
+
+	file_seek( f, cur_offset + total );
 	return result;
 }
 
@@ -361,11 +373,21 @@ inline
 b32 file_write( FileInfo* f, void const* buffer, ssize size )
 {
 	s64 cur_offset = file_tell( f );
-	b32 result     = file_write_at( f, buffer, size, file_tell( f ) );
-
-	file_seek( f, cur_offset + size );
-
-	return result;
+	b32 result     = true;
+
+	// The position moves by what was written, which may take several transfers.
+	ssize total = 0;
+	while ( total < size )
+	{
+		ssize done = 0;
+		result = file_write_at_check( f, pointer_add_const( buffer, total ), size - total, cur_offset + total, & done );
+		if ( ! result || done <= 0 )
+			break;
+		total += done;
+	}
+
+	file_seek( f, cur_offset + total );
+	return result && total == size;
 }
 
 inline
-- 
2.43.0


From 025304b8f79e5b255dfe0f0e054dc4bba5794d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:39 +0000
Subject: [PATCH 101/119] fix: reading a whole file gave garbage when the file
 could not be read

---
 base/dependencies/filesystem.cpp | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/base/dependencies/filesystem.cpp b/base/dependencies/filesystem.cpp
index a52c621..14bf8d9 100644
--- a/base/dependencies/filesystem.cpp
+++ b/base/dependencies/filesystem.cpp
@@ -434,23 +434,27 @@ s64 file_size( FileInfo* f )
 
 FileContents file_read_contents( AllocatorInfo a, b32 zero_terminate, char const* filepath )
 {
-	FileContents result;
+	FileContents result = { a, nullptr, 0 };
 	FileInfo     file  ;
 
-	result.allocator = a;
-
 	if ( file_open( &file, filepath ) == EFileError_NONE )
 	{
 		ssize fsize = scast( ssize , file_size( &file ));
-		if ( fsize > 0 )
+		if ( fsize > 0 || zero_terminate )
 		{
 			result.data = alloc( a, zero_terminate ? fsize + 1 : fsize );
-			result.size = fsize;
-			file_read_at( &file, result.data, result.size, 0 );
-			if ( zero_terminate )
+			file_seek( &file, 0 );
+			if ( result.data && file_read( &file, result.data, fsize ) )
+				result.size = scast( ssize, file_tell( &file ) );
+			else if ( result.data )
+			{
+				allocator_free( a, result.data );
+				result.data = nullptr;
+			}
+			if ( result.data && zero_terminate )
 			{
-				u8* str      = rcast( u8*, result.data);
-				str[ fsize ] = '\0';
+				u8* str            = rcast( u8*, result.data);
+				str[ result.size ] = '\0';
 			}
 		}
 		file_close( &file );
-- 
2.43.0


From f70c52e7522743099e59232f3c10853a4e070ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:39 +0000
Subject: [PATCH 102/119] fix: memory streams read and wrote outside their
 buffer and lost content when they grew

---
 base/dependencies/filesystem.cpp | 47 ++++++++++++++++----------------
 1 file changed, 24 insertions(+), 23 deletions(-)

diff --git a/base/dependencies/filesystem.cpp b/base/dependencies/filesystem.cpp
index 14bf8d9..8d5b420 100644
--- a/base/dependencies/filesystem.cpp
+++ b/base/dependencies/filesystem.cpp
@@ -536,7 +536,7 @@ b8 file_stream_open( FileInfo* file, AllocatorInfo allocator, u8* buffer, ssize
 	d->flags     = flags;
 	if ( d->flags & EFileStream_CLONE_WRITABLE )
 	{
-		Array(u8) arr = array_init_reserve(u8, allocator, size );
+		Array(u8) arr = array_init_reserve(u8, allocator, max( size, 1 ) );
 		d->buf = arr;
 
 		if ( ! d->buf )
@@ -591,10 +591,16 @@ internal
 GEN_FILE_READ_AT_PROC( _memory_file_read )
 {
 	// unused( stop_at_newline );
-	_memory_fd* d = _file_stream_from_fd( fd );
-	mem_copy( buffer, d->buf + offset, size );
+	_memory_fd* d    = _file_stream_from_fd( fd );
+	ssize       left = d->cap - offset;
+	if ( offset < 0 )
+		return false;
+
+	ssize rwlen = size < left ? size : max( 0, left );
+	if ( rwlen > 0 )
+		mem_copy( buffer, d->buf + offset, rwlen );
 	if ( bytes_read )
-		*bytes_read = size;
+		*bytes_read = rwlen;
 	return true;
 }
 
@@ -606,14 +612,13 @@ GEN_FILE_WRITE_AT_PROC( _memory_file_write )
 	if ( ! ( d->flags & ( EFileStream_CLONE_WRITABLE | EFileStream_WRITABLE ) ) )
 		return false;
 
-	ssize buflen   = d->cap;
-	ssize extralen = max( 0, size - ( buflen - offset ) );
-	ssize rwlen    = size - extralen;
-	ssize new_cap  = buflen + extralen;
+	if ( offset < 0 )
+		return false;
 
-	if ( d->flags & EFileStream_CLONE_WRITABLE )
+	if ( ( d->flags & EFileStream_CLONE_WRITABLE ) && size > 0 && offset + size > d->cap )
 	{
-		Array(u8) arr = { d->buf };
+		Array(u8) arr     = { d->buf };
+		ssize     new_cap = offset + size;
 
 		if ( array_get_header(arr)->Capacity < scast(usize, new_cap) )
 		{
@@ -621,25 +626,21 @@ GEN_FILE_WRITE_AT_PROC( _memory_file_write )
 				return false;
 			d->buf = arr;
 		}
-	}
 
-	mem_copy( d->buf + offset, buffer, rwlen );
+		// What lies between the old end and the offset is zero.
+		if ( offset > d->cap )
+			mem_set( d->buf + d->cap, 0, offset - d->cap );
 
-	if ( ( d->flags & EFileStream_CLONE_WRITABLE ) && extralen > 0 )
-	{
-		Array(u8) arr = { d->buf };
-
-		mem_copy( d->buf + offset + rwlen, pointer_add_const( buffer, rwlen ), extralen );
 		d->cap = new_cap;
-		array_get_header(arr)->Capacity = new_cap;
-	}
-	else
-	{
-		extralen = 0;
+		array_get_header(arr)->Num = new_cap;
 	}
 
+	ssize left  = d->cap - offset;
+	ssize rwlen = size < left ? size : max( 0, left );
+	if ( rwlen > 0 )
+		mem_copy( d->buf + offset, buffer, rwlen );
 	if ( bytes_written )
-		*bytes_written = ( rwlen + extralen );
+		*bytes_written = rwlen;
 	return true;
 }
 
-- 
2.43.0


From b94c4ceb21fcdbc757b68e46cef4c0252ab70237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:39 +0000
Subject: [PATCH 103/119] fix: builder_open left its result uninitialized,
 pad_lines ignored its count, a failed write was announced as written

---
 base/auxiliary/builder.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/base/auxiliary/builder.cpp b/base/auxiliary/builder.cpp
index 4f2f24f..bb42ee6 100644
--- a/base/auxiliary/builder.cpp
+++ b/base/auxiliary/builder.cpp
@@ -6,7 +6,7 @@
 
 Builder builder_open( char const* path )
 {
-	Builder result;
+	Builder result = {};
 
 	FileError error = file_open_mode( & result.File, EFileMode_WRITE, path );
 	if ( error != EFileError_NONE )
@@ -25,7 +25,8 @@ Builder builder_open( char const* path )
 
 void builder_pad_lines( Builder* builder, s32 num )
 {
-	strbuilder_append_str( & builder->Buffer, txt("\n") );
+	for ( ; num > 0; -- num )
+		strbuilder_append_str( & builder->Buffer, txt("\n") );
 }
 
 void builder_print( Builder* builder, Code code )
@@ -47,8 +48,9 @@ void builder_write(Builder* builder)
 
 	if ( result == false )
 		log_failure("gen::File::write - Failed to write to file: %s\n", file_name( & builder->File ) );
+	else
+		log_fmt( "Generated: %s\n", builder->File.filename );
 
-	log_fmt( "Generated: %s\n", builder->File.filename );
 	file_close( & builder->File );
 	strbuilder_free(& builder->Buffer);
 }
-- 
2.43.0


From 3988898e389473292e55de7099b800c22cd385f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:39 +0000
Subject: [PATCH 104/119] fix: the readers of enum tables went on with files
 that are missing or no tables

---
 base/auxiliary/scanner.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/base/auxiliary/scanner.cpp b/base/auxiliary/scanner.cpp
index de0fd7b..55e2475 100644
--- a/base/auxiliary/scanner.cpp
+++ b/base/auxiliary/scanner.cpp
@@ -126,20 +126,24 @@ CodeBody parse_file( const char* path ) {
 
 CSV_Column parse_csv_one_column(AllocatorInfo allocator, char const* path) {
 	FileContents content   = file_read_contents( allocator, file_zero_terminate, path );
-	Arena        csv_arena = arena_init_from_memory(content.data, content.size);
+	if ( content.data == nullptr )
+		GEN_FATAL("parse_csv_one_column: Could not read: %s", path );
 
 	CSV_Column result;
-	csv_parse( & result.ADT, rcast(char*, content.data), allocator, false );
+	if ( csv_parse( & result.ADT, rcast(char*, content.data), allocator, false ) != ECSV_Error__NONE )
+		GEN_FATAL("parse_csv_one_column: %s is not a table", path );
 	result.Content = result.ADT.nodes[0].nodes;
 	return result;
 }
 
 CSV_Columns2 parse_csv_two_columns(AllocatorInfo allocator, char const* path) {
 	FileContents content   = file_read_contents( allocator, file_zero_terminate, path );
-	Arena        csv_arena = arena_init_from_memory(content.data, content.size);
+	if ( content.data == nullptr )
+		GEN_FATAL("parse_csv_two_columns: Could not read: %s", path );
 
 	CSV_Columns2 result;
-	csv_parse( & result.ADT, rcast(char*, content.data), allocator, false );
+	if ( csv_parse( & result.ADT, rcast(char*, content.data), allocator, false ) != ECSV_Error__NONE || array_num(result.ADT.nodes) < 2 )
+		GEN_FATAL("parse_csv_two_columns: %s is not a table of two columns", path );
 	result.Col_1 = result.ADT.nodes[0].nodes;
 	result.Col_2 = result.ADT.nodes[1].nodes;
 	return result;
-- 
2.43.0


From 88939a8b5e86d319b63f9c70c7f3c864178fe4a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:39 +0000
Subject: [PATCH 105/119] fix: scan_file went on after failed reads, read
 outside its text and took line ends for blanks

---
 base/auxiliary/scanner.cpp | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/base/auxiliary/scanner.cpp b/base/auxiliary/scanner.cpp
index 55e2475..cb9f6bd 100644
--- a/base/auxiliary/scanner.cpp
+++ b/base/auxiliary/scanner.cpp
@@ -21,7 +21,11 @@ Code scan_file( char const* path )
 	}
 
 	StrBuilder str = strbuilder_make_reserve( get_context()->Allocator_Temp, fsize );
-		file_read( & file, str, fsize );
+		if ( ! file_read( & file, str, fsize ) )
+		{
+			file_close( & file );
+			GEN_FATAL("scan_file: Could not read: %s", path );
+		}
 		strbuilder_get_header(str)->Length = fsize;
 
 	// Skip INTELLISENSE_DIRECTIVES preprocessor blocks
@@ -30,7 +34,7 @@ Code scan_file( char const* path )
 	{
 	#define current (*scanner)
 	#define matched    0
-	#define move_fwd() do { ++ scanner; -- left; } while (0)
+	#define move_fwd() do { if ( left ) { ++ scanner; -- left; } } while (0)
 		const Str directive_start = txt( "ifdef" );
 		const Str directive_end   = txt( "endif" );
 		const Str def_intellisense = txt("INTELLISENSE_DIRECTIVES" );
@@ -44,20 +48,20 @@ Code scan_file( char const* path )
 			if ( current == '#' )
 			{
 				move_fwd();
-				while ( left && char_is_space( current ) )
+				while ( left && char_is_space( current ) && current != '\r' && current != '\n' )
 					move_fwd();
 
 				if ( ! found_directive )
 				{
-					if ( left && c_str_compare_len( scanner, directive_start.Ptr, directive_start.Len ) == matched )
+					if ( left >= directive_start.Len && c_str_compare_len( scanner, directive_start.Ptr, directive_start.Len ) == matched )
 					{
 						scanner += directive_start.Len;
 						left    -= directive_start.Len;
 
-						while ( left && char_is_space( current ) )
+						while ( left && char_is_space( current ) && current != '\r' && current != '\n' )
 							move_fwd();
 
-						if ( left && c_str_compare_len( scanner, def_intellisense.Ptr, def_intellisense.Len ) == matched )
+						if ( left >= def_intellisense.Len && c_str_compare_len( scanner, def_intellisense.Ptr, def_intellisense.Len ) == matched )
 						{
 							scanner += def_intellisense.Len;
 							left    -= def_intellisense.Len;
@@ -69,7 +73,8 @@ Code scan_file( char const* path )
 					// Skip to end of line
 					while ( left && current != '\r' && current != '\n' )
 						move_fwd();
-					move_fwd();
+					if ( left && current == '\r' )
+						move_fwd();
 
 					if ( left && current == '\n' )
 						move_fwd();
@@ -77,7 +82,7 @@ Code scan_file( char const* path )
 					continue;
 				}
 
-				if ( left && c_str_compare_len( scanner, directive_end.Ptr, directive_end.Len ) == matched )
+				if ( left >= directive_end.Len && c_str_compare_len( scanner, directive_end.Ptr, directive_end.Len ) == matched )
 				{
 					scanner += directive_end.Len;
 					left    -= directive_end.Len;
@@ -85,21 +90,16 @@ Code scan_file( char const* path )
 					// Skip to end of line
 					while ( left && current != '\r' && current != '\n' )
 						move_fwd();
-					move_fwd();
+					if ( left && current == '\r' )
+						move_fwd();
 
 					if ( left && current == '\n' )
 						move_fwd();
 
 					// sptr skip_size = fsize - left;
-					if ( (scanner + 2) >= ( (char const*) str + fsize ) )
-					{
-						mem_move( str, scanner, left );
-						strbuilder_get_header(str)->Length = left;
-						break;
-					}
-
 					mem_move( str, scanner, left );
 					strbuilder_get_header(str)->Length = left;
+					str[ left ] = '\0';
 
 					break;
 				}
-- 
2.43.0


From a69e9faecc22d2d7105753889df792d5ca720c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:39 +0000
Subject: [PATCH 106/119] fix: untyped_fmt with text longer than its buffer
 passed on a negative length

---
 base/components/interface.untyped.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/base/components/interface.untyped.cpp b/base/components/interface.untyped.cpp
index 35124be..3c06e34 100644
--- a/base/components/interface.untyped.cpp
+++ b/base/components/interface.untyped.cpp
@@ -121,6 +121,15 @@ Code untyped_fmt( char const* fmt, ...)
 	va_start(va, fmt);
 	ssize length = c_str_fmt_va(buf, GEN_PRINTF_MAXLEN, fmt, va) - 1;
 	va_end(va);
+	if ( length < 0 )
+	{
+		// Longer than the buffer
+		StrBuilder text = strbuilder_make_reserve( _ctx->Allocator_Temp, GEN_PRINTF_MAXLEN );
+		va_start(va, fmt);
+		strbuilder_append_fmt_va( & text, fmt, va );
+		va_end(va);
+		return untyped_str( strbuilder_to_str(text) );
+	}
 	Str content = { buf, length };
 
 	return untyped_str( content );
-- 
2.43.0


From 8c98da068ebfeabc8b76ad67feb2c98bb5bd7094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:39 +0000
Subject: [PATCH 107/119] fix: empty last cells, blank delimiters, longer rows
 and text behind quoted cells were misread in tables

---
 base/dependencies/parsing.cpp | 52 +++++++++++++++++++----------------
 1 file changed, 29 insertions(+), 23 deletions(-)

diff --git a/base/dependencies/parsing.cpp b/base/dependencies/parsing.cpp
index ce13e23..c27afd2 100644
--- a/base/dependencies/parsing.cpp
+++ b/base/dependencies/parsing.cpp
@@ -807,6 +807,15 @@ ADT_Error adt_c_str_to_number_strict( ADT_Node* node )
 #	define GEN_CSV_ASSERT( msg )
 #endif
 
+// Skips white space, but no delimiter and optionally no newline
+internal
+char* _csv_trim( char* text, char delim, b32 catch_newline )
+{
+	while ( *text && *text != delim && char_is_space( *text ) && ! ( catch_newline && *text == '\n' ) )
+		++text;
+	return text;
+}
+
 u8 csv_parse_delimiter( CSV_Object* root, char* text, AllocatorInfo allocator, b32 has_header, char delim )
 {
 	CSV_Error error = ECSV_Error__NONE;
@@ -821,14 +830,15 @@ u8 csv_parse_delimiter( CSV_Object* root, char* text, AllocatorInfo allocator, b
 	char* endChar;
 
 	ssize columnIndex       = 0;
-	ssize totalColumnIndex = 0;
+	ssize totalColumnIndex = -1;
 
 	do
 	{
 		char delimiter = 0;
-		currentChar = ccast( char*, c_str_trim( currentChar, false ));
+		/* empty lines are skipped, but not the end of a row */
+		currentChar = _csv_trim( currentChar, delim, columnIndex > 0 );
 
-		if ( *currentChar == 0 )
+		if ( *currentChar == 0 && columnIndex == 0 )
 			break;
 
 		ADT_Node rowItem = { 0 };
@@ -869,13 +879,13 @@ u8 csv_parse_delimiter( CSV_Object* root, char* text, AllocatorInfo allocator, b
 			}
 
 			*endChar    = 0;
-			currentChar = ccast( char*, c_str_trim( endChar + 1, true ));
+			currentChar = _csv_trim( endChar + 1, delim, true );
 			delimiter   = * currentChar;
 
 			/* unescape escaped quotes (so that unescaped text escapes :) */
 			{
 				char* escapedChar = beginChar;
-				do
+				while ( *escapedChar )
 				{
 					if ( *escapedChar == '"' && *( escapedChar + 1 ) == '"' )
 					{
@@ -883,10 +893,9 @@ u8 csv_parse_delimiter( CSV_Object* root, char* text, AllocatorInfo allocator, b
 					}
 					escapedChar++;
 				}
-				while ( *escapedChar );
 			}
 		}
-		else if ( *currentChar == delim )
+		else if ( *currentChar == delim || *currentChar == '\n' || *currentChar == 0 )
 		{
 			delimiter      = * currentChar;
 			rowItem.string = "";
@@ -904,23 +913,14 @@ u8 csv_parse_delimiter( CSV_Object* root, char* text, AllocatorInfo allocator, b
 			}
 			while ( * endChar && * endChar != delim && * endChar != '\n' );
 
-			if ( * endChar )
-			{
-				currentChar = ccast( char*, c_str_trim( endChar, true ));
-
-				while ( char_is_space( *( endChar - 1 ) ) )
-				{
-					endChar--;
-				}
+			currentChar = endChar;
+			delimiter   = * currentChar;
 
-				delimiter = * currentChar;
-				* endChar = 0;
-			}
-			else
+			while ( char_is_space( *( endChar - 1 ) ) )
 			{
-				delimiter   = 0;
-				currentChar = endChar;
+				endChar--;
 			}
+			* endChar = 0;
 
 			/* check if number and process if so */
 			b32   skip_number = false;
@@ -965,7 +965,7 @@ u8 csv_parse_delimiter( CSV_Object* root, char* text, AllocatorInfo allocator, b
 		else if ( delimiter == '\n' || delimiter == 0 )
 		{
 			/* check if number of rows is not mismatched */
-			if ( totalColumnIndex < columnIndex )
+			if ( totalColumnIndex < 0 )
 				totalColumnIndex = columnIndex;
 
 			else if ( totalColumnIndex != columnIndex )
@@ -980,8 +980,14 @@ u8 csv_parse_delimiter( CSV_Object* root, char* text, AllocatorInfo allocator, b
 			if ( delimiter != 0 )
 				currentChar++;
 		}
+		else
+		{
+			GEN_CSV_ASSERT( "unexpected text behind a quoted string" );
+			error = ECSV_Error__INTERNAL;
+			return error;
+		}
 	}
-	while ( *currentChar );
+	while ( *currentChar || columnIndex > 0 );
 
 	if (array_num( root->nodes) == 0 )
 	{
-- 
2.43.0


From d46f74b85696a3d2c15ced686914fbaaec597641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:15 +0000
Subject: [PATCH 108/119] fix: words whose checksum is that of a keyword or
 specifier were taken for it

---
 base/components/gen/especifier.hpp | 2 +-
 base/components/gen/etoktype.hpp   | 2 +-
 base/helpers/base_codegen.hpp      | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/base/components/gen/especifier.hpp b/base/components/gen/especifier.hpp
index e03e9d4..ae2da23 100644
--- a/base/components/gen/especifier.hpp
+++ b/base/components/gen/especifier.hpp
@@ -102,7 +102,7 @@ inline Specifier str_to_specifier(Str str)
 	do_once_end u32 hash = crc32(str.Ptr, str.Len);
 	for (u32 index = 0; index < Spec_NumSpecifiers; index++)
 	{
-		if (keymap[index] == hash)
+		if (keymap[index] == hash && str_are_equal(spec_to_str((Specifier)index), str))
 			return (Specifier)index;
 	}
 	return Spec_Invalid;
diff --git a/base/components/gen/etoktype.hpp b/base/components/gen/etoktype.hpp
index 1b2c17c..0abb7e3 100644
--- a/base/components/gen/etoktype.hpp
+++ b/base/components/gen/etoktype.hpp
@@ -230,7 +230,7 @@ inline TokType str_to_toktype(Str str)
 	do_once_end u32 hash = crc32(str.Ptr, str.Len);
 	for (u32 index = 0; index < Tok_NumTokens; index++)
 	{
-		if (keymap[index] == hash)
+		if (keymap[index] == hash && str_are_equal(toktype_to_str((TokType)index), str))
 			return (TokType)index;
 	}
 	return Tok_Invalid;
diff --git a/base/helpers/base_codegen.hpp b/base/helpers/base_codegen.hpp
index a634d6c..91dc40e 100644
--- a/base/helpers/base_codegen.hpp
+++ b/base/helpers/base_codegen.hpp
@@ -280,7 +280,7 @@ CodeBody gen_especifier( char const* path, bool use_c_definition = false )
 
 			for ( u32 index = 0; index < Spec_NumSpecifiers; index++ )
 			{
-				if ( keymap[index] == hash )
+				if ( keymap[index] == hash && str_are_equal( spec_to_str( (Specifier)index ), str ) )
 					return (Specifier)index;
 			}
 
@@ -437,7 +437,7 @@ CodeBody gen_etoktype( char const* etok_path, char const* attr_path, bool use_c_
 
 			for ( u32 index = 0; index < Tok_NumTokens; index++ )
 			{
-				if ( keymap[index] == hash )
+				if ( keymap[index] == hash && str_are_equal( toktype_to_str( (TokType)index ), str ) )
 					return (TokType)index;
 			}
 
-- 
2.43.0


From c67b4641f8a2b48c3b732467a509f1a1b9adade5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:15 +0000
Subject: [PATCH 109/119] fix: strings and macros with the same checksum were
 taken for one another

---
 base/components/interface.cpp | 37 +++++++++++++++++++++++++++++------
 1 file changed, 31 insertions(+), 6 deletions(-)

diff --git a/base/components/interface.cpp b/base/components/interface.cpp
index e35bfbd..2204e3f 100644
--- a/base/components/interface.cpp
+++ b/base/components/interface.cpp
@@ -458,6 +458,9 @@ AllocatorInfo get_cached_str_allocator( s32 str_length )
 	return arena_allocator_info(last);
 }
 
+// Strings and macros are stored under their 32-bit hash, or behind it when that is taken by another text.
+#define checksum_collision_step ( scast(u64, 1) << 32 )
+
 // Will either make or retrive a code string.
 StrCached cache_str( Str str )
 {
@@ -468,8 +471,15 @@ StrCached cache_str( Str str )
 	}
 	u64 key = crc32( str.Ptr, str.Len ); {
 		StrCached* result = hashtable_get( _ctx->StrCache, key );
-		if ( result )
-			return * result;
+		while ( result )
+		{
+			if ( str_are_equal( * result, str ) )
+				return * result;
+
+			// Another string has the same hash
+			key   += checksum_collision_step;
+			result = hashtable_get( _ctx->StrCache, key );
+		}
 	}
 	Str result = strbuilder_to_str( strbuilder_make_str( get_cached_str_allocator( str.Len ), str ));
 	hashtable_set( _ctx->StrCache, key, result );
@@ -497,15 +507,30 @@ Code make_code()
 	return result;
 }
 
+// The key a macro is or would be registered with.
+internal
+u64 macro_key( Str name )
+{
+	u64    key   = crc32( name.Ptr, name.Len );
+	Macro* macro = hashtable_get( _ctx->Macros, key );
+	while ( macro && ! str_are_equal( macro->Name, name ) )
+	{
+		key  += checksum_collision_step;
+		macro = hashtable_get( _ctx->Macros, key );
+	}
+	return key;
+}
+#undef checksum_collision_step
+
 Macro* lookup_macro( Str name ) {
-	u32 key = crc32( name.Ptr, name.Len );
+	u64 key = macro_key( name );
 	return hashtable_get( _ctx->Macros, key );
 }
 
 void register_macro( Macro macro ) {
 	GEN_ASSERT_NOT_NULL(macro.Name.Ptr);
 	GEN_ASSERT(macro.Name.Len > 0);
-	u32 key = crc32( macro.Name.Ptr, macro.Name.Len );
+	u64 key = macro_key( macro.Name );
 	macro.Name = cache_str(macro.Name);
 	hashtable_set( _ctx->Macros, key, macro );
 }
@@ -522,7 +547,7 @@ void register_macros( s32 num, ... )
 		GEN_ASSERT(macro.Name.Len > 0);
 		macro.Name = cache_str(macro.Name);
 
-		u32 key = crc32( macro.Name.Ptr, macro.Name.Len );
+		u64 key = macro_key( macro.Name );
 		hashtable_set( _ctx->Macros, key, macro );
 	}
 	while (num--, num > 0);
@@ -539,7 +564,7 @@ void register_macros_arr( s32 num,  Macro* macros )
 		GEN_ASSERT(macro.Name.Len > 0);
 		macro.Name = cache_str(macro.Name);
 
-		u32 key = crc32( macro.Name.Ptr, macro.Name.Len );
+		u64 key = macro_key( macro.Name );
 		hashtable_set( _ctx->Macros, key, macro );
 		++ macros;
 	}
-- 
2.43.0


From 504bd89429d974a881e614d6225110e980a881d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:15 +0000
Subject: [PATCH 110/119] fix: template tokens with the same checksum were
 taken for one another

---
 base/components/interface.untyped.cpp | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/base/components/interface.untyped.cpp b/base/components/interface.untyped.cpp
index 3c06e34..44caf97 100644
--- a/base/components/interface.untyped.cpp
+++ b/base/components/interface.untyped.cpp
@@ -3,15 +3,34 @@
 #include "interface.parsing.cpp"
 #endif
 
+// Behind a token's value is its name, which tells it from other tokens with the same hash.
+#define token_fmt_name_offset ( scast(u64, 1) << 32 )
+
+internal
+u64 token_fmt_key( Str token )
+{
+	u64  key  = crc32( token.Ptr, token.Len );
+	Str* name = hashtable_get( _ctx->token_fmt_map, key + token_fmt_name_offset );
+	while ( name && ! str_are_equal( * name, token ) )
+	{
+		key += 2 * token_fmt_name_offset;
+		name = hashtable_get( _ctx->token_fmt_map, key + token_fmt_name_offset );
+	}
+	return key;
+}
+
 internal
 void token_fmt_set( char const* token, Str value )
 {
 	if (_ctx->token_fmt_map.Hashes == nullptr) {
 		_ctx->token_fmt_map = hashtable_init(Str, _ctx->Allocator_DyanmicContainers );
 	}
-	u32 key = crc32( token, c_str_len(token) );
+	Str name = { token, c_str_len(token) };
+	u64 key  = token_fmt_key( name );
 	hashtable_set( _ctx->token_fmt_map, key, value );
+	hashtable_set( _ctx->token_fmt_map, key + token_fmt_name_offset, name );
 }
+#undef token_fmt_name_offset
 
 // Expands the format with the tokens set, which are cleared thereafter.
 internal
@@ -35,7 +54,8 @@ ssize token_fmt_expand( char* buf, ssize buf_size, char const* fmt )
 
 			if ( * scanner == '>' )
 			{
-				u32  key   = crc32( fmt + 1, scanner - fmt - 1 );
+				Str  name  = { fmt + 1, scanner - fmt - 1 };
+				u64  key   = token_fmt_key( name );
 				Str* value = hashtable_get(_ctx->token_fmt_map, key );
 				if ( value )
 				{
-- 
2.43.0


From 975aa84a009b2212ae2981b2a9a1cf661a9d892c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:29 +0000
Subject: [PATCH 111/119] fix: the C library's append_at of an array never
 stored the item

---
 gen_c_library/components/containers.array.hpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/gen_c_library/components/containers.array.hpp b/gen_c_library/components/containers.array.hpp
index a7314b6..1d0cb19 100644
--- a/gen_c_library/components/containers.array.hpp
+++ b/gen_c_library/components/containers.array.hpp
@@ -159,11 +159,12 @@ CodeBody gen_array( Str type, Str array_name )
 			GEN_ASSERT(* self != nullptr);
 			ArrayHeader* header = array_get_header( * self );
 
-			if ( idx >= header->Num )
-				idx = header->Num - 1;
+			ssize slot = idx;
+			if ( slot >= (ssize)( header->Num ) )
+				slot = header->Num;
 
-			if ( idx < 0 )
-				idx = 0;
+			if ( slot < 0 )
+				slot = 0;
 
 			if ( header->Capacity < header->Num + 1 )
 			{
@@ -173,9 +174,10 @@ CodeBody gen_array( Str type, Str array_name )
 				header = array_get_header( * self );
 			}
 
-			<array_type> target = (* self) + idx;
+			<array_type> target = (* self) + slot;
 
-			mem_move( target + 1, target, (header->Num - idx) * sizeof(<type>) );
+			mem_move( target + 1, target, (header->Num - slot) * sizeof(<type>) );
+			* target = item;
 			header->Num++;
 
 			return true;
-- 
2.43.0


From b8d96c71f497367859a00b67c2ed3d6e66853e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:29 +0000
Subject: [PATCH 112/119] fix: the C library's append_items_at of an array
 wrote past its capacity

---
 gen_c_library/components/containers.array.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gen_c_library/components/containers.array.hpp b/gen_c_library/components/containers.array.hpp
index 1d0cb19..5b1cf86 100644
--- a/gen_c_library/components/containers.array.hpp
+++ b/gen_c_library/components/containers.array.hpp
@@ -195,7 +195,7 @@ CodeBody gen_array( Str type, Str array_name )
 				return array_append_items( * self, items, item_num );
 			}
 
-			if ( item_num > header->Capacity )
+			if ( header->Num + item_num > header->Capacity )
 			{
 				if ( ! array_grow( self, item_num + header->Capacity ) )
 					return false;
-- 
2.43.0


From 1b53fb9e2f11996383434b93ff65bb2c6ddae63e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:29 +0000
Subject: [PATCH 113/119] fix: the C library's free of an array left the freed
 pointer in place

---
 gen_c_library/components/containers.array.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gen_c_library/components/containers.array.hpp b/gen_c_library/components/containers.array.hpp
index 5b1cf86..88b1709 100644
--- a/gen_c_library/components/containers.array.hpp
+++ b/gen_c_library/components/containers.array.hpp
@@ -256,7 +256,7 @@ CodeBody gen_array( Str type, Str array_name )
 			GEN_ASSERT(* self != nullptr);
 			ArrayHeader* header = array_get_header( * self );
 			allocator_free( header->Allocator, header );
-			self = NULL;
+			* self = NULL;
 		}
 
 		inline
-- 
2.43.0


From 2e8e3a417c4d6931d8ffc2e74360db383a5b6de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:29 +0000
Subject: [PATCH 114/119] fix: the C library's arrays freed the address of a
 local when they grew

---
 gen_c_library/components/containers.array.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gen_c_library/components/containers.array.hpp b/gen_c_library/components/containers.array.hpp
index 88b1709..51909d6 100644
--- a/gen_c_library/components/containers.array.hpp
+++ b/gen_c_library/components/containers.array.hpp
@@ -364,7 +364,7 @@ CodeBody gen_array( Str type, Str array_name )
 			mem_move( new_header, header, sizeof( ArrayHeader ) + sizeof( <type> ) * header->Num );
 			new_header->Capacity = new_capacity;
 
-			allocator_free( header->Allocator, & header );
+			allocator_free( header->Allocator, header );
 
 			* self = cast( <type>*, new_header + 1 );
 			return true;
-- 
2.43.0


From f5295d1a60c8a1e12cbc9c092c4bb57284814d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:29 +0000
Subject: [PATCH 115/119] fix: the C library's hash tables did not find their
 first entry

---
 gen_c_library/components/containers.hashtable.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gen_c_library/components/containers.hashtable.hpp b/gen_c_library/components/containers.hashtable.hpp
index 8303eb7..3271aa1 100644
--- a/gen_c_library/components/containers.hashtable.hpp
+++ b/gen_c_library/components/containers.hashtable.hpp
@@ -149,7 +149,7 @@ CodeBody gen_hashtable( Str type, Str hashtable_name )
 			GEN_ASSERT_NOT_NULL(self.Hashes);
 			GEN_ASSERT_NOT_NULL(self.Entries);
 			ssize idx = <fn>__find( self, key ).EntryIndex;
-			if ( idx > 0 )
+			if ( idx >= 0 )
 				return & self.Entries[idx].Value;
 
 			return nullptr;
-- 
2.43.0


From cf458c1e048a699bc66676cc383353a67598d815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:29 +0000
Subject: [PATCH 116/119] fix: the C library's hash tables never grew and read
 entries they did not have

---
 gen_c_library/components/containers.hashtable.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/gen_c_library/components/containers.hashtable.hpp b/gen_c_library/components/containers.hashtable.hpp
index 3271aa1..6aa6738 100644
--- a/gen_c_library/components/containers.hashtable.hpp
+++ b/gen_c_library/components/containers.hashtable.hpp
@@ -198,11 +198,9 @@ CodeBody gen_hashtable( Str type, Str hashtable_name )
 			ArrayHeader* old_hash_header    = array_get_header( self->Hashes );
 			ArrayHeader* old_entries_header = array_get_header( self->Entries );
 
-			<tbl_type> new_tbl = hashtable_init_reserve( <type>, old_hash_header->Allocator, old_hash_header->Num );
+			<tbl_type> new_tbl = hashtable_init_reserve( <type>, old_hash_header->Allocator, new_num );
 
-			ArrayHeader* new_hash_header = array_get_header( new_tbl.Hashes );
-
-			for (ssize idx = 0; idx < cast(ssize, old_hash_header->Num); ++idx)
+			for (ssize idx = 0; idx < cast(ssize, old_entries_header->Num); ++idx)
 			{
 				<entry_type>* entry = & self->Entries[idx];
 				HT_FindResult find_result;
-- 
2.43.0


From 22cc5c2b33d9915b48a019f5a6563490cc4cbd10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:15 +0000
Subject: [PATCH 117/119] fix: the C library printed what lay behind the first
 entry of a body in memory, not its next entry

---
 base/components/inlines.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/components/inlines.hpp b/base/components/inlines.hpp
index 3a85e2e..35be0ea 100644
--- a/base/components/inlines.hpp
+++ b/base/components/inlines.hpp
@@ -38,7 +38,7 @@ void body_to_strbuilder_ref( CodeBody body, StrBuilder* result )
 	{
 		code_to_strbuilder_ref(curr, result);
 		// strbuilder_append_fmt( result, "%SB", code_to_strbuilder(curr) );
-		++curr;
+		curr = curr->Next;
 	}
 }
 
-- 
2.43.0


From aa3bb476b673b8756ab51a8e4e71ee159f528dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:31 +0000
Subject: [PATCH 118/119] fix: the C library took keywords for other words,
 having renamed them with its identifiers

---
 base/helpers/base_codegen.hpp | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/base/helpers/base_codegen.hpp b/base/helpers/base_codegen.hpp
index 91dc40e..20403f8 100644
--- a/base/helpers/base_codegen.hpp
+++ b/base/helpers/base_codegen.hpp
@@ -7,6 +7,17 @@
 using namespace gen;
 #endif
 
+// An entry of a table of strings. The C library's identifiers get their prefix from a tool that renames words within literals as well (c_library.refactor),
+// so what must stay as it is (keywords, names) is written there as a literal in two parts.
+inline
+void append_str_entry( StrBuilder* entries, char const* str, bool use_c_definition )
+{
+	if ( use_c_definition && str[0] != '\0' && str[0] != '\\' )
+		strbuilder_append_fmt( entries, "{ \"%c\" \"%s\", sizeof(\"%c\" \"%s\") - 1 },\n", str[0], str + 1, str[0], str + 1 );
+	else
+		strbuilder_append_fmt( entries, "{ \"%s\", sizeof(\"%s\") - 1 },\n", str, str );
+}
+
 CodeBody gen_ecode( char const* path, bool use_c_definition = false )
 {
 	CSV_Columns2 csv_enum                 = parse_csv_two_columns( _ctx->Allocator_Temp, path );
@@ -19,8 +30,8 @@ CodeBody gen_ecode( char const* path, bool use_c_definition = false )
 		char const* keyword = csv_enum.Col_2[idx].string;
 		// TODO(Ed): to_c_str_entries and the others in here didn't have proper sizing of the Str slice.
 		strbuilder_append_fmt( & enum_entries,             "CT_%s,\n", code );
-		strbuilder_append_fmt( & to_c_str_entries,         "{ \"%s\",  sizeof(\"%s\") - 1 },\n", code,    code );
-		strbuilder_append_fmt( & to_keyword_c_str_entries, "{  \"%s\", sizeof(\"%s\") - 1 },\n", keyword, keyword );
+		append_str_entry( & to_c_str_entries,         code,    use_c_definition );
+		append_str_entry( & to_keyword_c_str_entries, keyword, use_c_definition );
 	}
 
 	CodeEnum enum_code;
@@ -98,7 +109,7 @@ CodeBody gen_eoperator( char const* path, bool use_c_definition = false )
 		char const* enum_str     = csv_enum.Col_1[idx].string;
 		char const* entry_to_str = csv_enum.Col_2[idx].string;
 		strbuilder_append_fmt( & enum_entries,     "Op_%s,\n", enum_str );
-		strbuilder_append_fmt( & to_c_str_entries, "{ \"%s\", sizeof(\"%s\") - 1 },\n", entry_to_str, entry_to_str);
+		append_str_entry( & to_c_str_entries, entry_to_str, use_c_definition );
 	}
 
 	CodeEnum  enum_code;
@@ -181,7 +192,7 @@ CodeBody gen_especifier( char const* path, bool use_c_definition = false )
 		char const* enum_str     = csv_enum.Col_1[idx].string;
 		char const* entry_to_str = csv_enum.Col_2[idx].string;
 		strbuilder_append_fmt( & enum_entries,     "Spec_%s,\n", enum_str );
-		strbuilder_append_fmt( & to_c_str_entries, "{ \"%s\", sizeof(\"%s\") - 1 },\n", entry_to_str, entry_to_str);
+		append_str_entry( & to_c_str_entries, entry_to_str, use_c_definition );
 	}
 
 	CodeEnum enum_code;
@@ -347,7 +358,7 @@ CodeBody gen_etoktype( char const* etok_path, char const* attr_path, bool use_c_
 		char const* entry_to_str = enum_c_str_strs [idx].string;
 
 		strbuilder_append_fmt( & enum_entries,     "Tok_%s,\n",                         enum_str );
-		strbuilder_append_fmt( & to_c_str_entries, "{ \"%s\", sizeof(\"%s\") - 1 },\n", entry_to_str, entry_to_str);
+		append_str_entry( & to_c_str_entries, entry_to_str, use_c_definition );
 	}
 
 	for ( usize idx = 0; idx < array_num(attribute_strs); idx++ )
-- 
2.43.0


From b10155fc06b0e45b031ade785124ba98f77ec112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:02 +0000
Subject: [PATCH 119/119] fix: an operator whose first parameter has no type
 made the C library read through a null pointer

---
 base/components/interface.upfront.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/components/interface.upfront.cpp b/base/components/interface.upfront.cpp
index 9270726..9fc6dbe 100644
--- a/base/components/interface.upfront.cpp
+++ b/base/components/interface.upfront.cpp
@@ -35,7 +35,7 @@ OpValidateResult operator__validate( Operator op, CodeParams params_code, CodeTy
 	}
 
 #	define check_param_eq_ret()                                                                            \
-	if ( ! is_member_symbol && ! str_are_equal(params_code->ValueType->Name, ret_type->Name) )             \
+	if ( ! is_member_symbol && ( ! params_code->ValueType || ! str_are_equal(params_code->ValueType->Name, ret_type->Name) ) ) \
 	{                                                                                                      \
 		log_failure("gen::def_operator: operator %S requires first parameter to equal return type\n"       \
 			"param types: %S\n"                                                                            \
-- 
2.43.0

