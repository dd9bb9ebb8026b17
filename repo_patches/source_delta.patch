From 002638660bd2f6f65188d491aa1d79aff00898ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:44 +0000
Subject: [PATCH 01/76] fix: AnyList ownership of removed elements, growth in
 add_all, insert_at/set and predicates

remove_at leaked the last element, pop_first_retained returned freed memory,
copy_pop_first freed twice, add_all wrote past the capacity, insert_at,
push_front and set did not compile, and the predicates were given the entry's
address instead of the element.
---
 lib/std/collections/anylist.c3 | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/lib/std/collections/anylist.c3 b/lib/std/collections/anylist.c3
index e929e07..bf749ef 100644
--- a/lib/std/collections/anylist.c3
+++ b/lib/std/collections/anylist.c3
@@ -167,8 +167,10 @@ macro AnyList.pop_first(&self, $Type)
 fn any? AnyList.pop_first_retained(&self)
 {
 	if (!self.size) return NO_MORE_ELEMENT?;
-	defer self.remove_at(0);
-	return self.entries[0];
+	any value = self.entries[0];
+	self.size--;
+	self.entries[:self.size] = self.entries[1:self.size];
+	return value;
 }
 
 
@@ -182,7 +184,6 @@ fn any? AnyList.pop_first_retained(&self)
 fn any? AnyList.copy_pop_first(&self, Allocator allocator)
 {
 	if (!self.size) return NO_MORE_ELEMENT?;
-	defer self.free_element(self.entries[self.size]);
 	defer self.remove_at(0);
 	return allocator::clone_any(allocator, self.entries[0]);
 }
@@ -203,8 +204,8 @@ fn any? AnyList.tcopy_pop_first(&self) => self.copy_pop_first(tmem);
 *>
 fn void AnyList.remove_at(&self, usz index)
 {
-	if (!--self.size || index == self.size) return;
 	self.free_element(self.entries[index]);
+	if (!--self.size || index == self.size) return;
 	self.entries[index .. self.size - 1] = self.entries[index + 1 .. self.size];
 }
 
@@ -216,7 +217,7 @@ fn void AnyList.remove_at(&self, usz index)
 fn void AnyList.add_all(&self, AnyList* other_list)
 {
 	if (!other_list.size) return;
-	self.reserve(other_list.size);
+	self.reserve(self.size + other_list.size);
 	foreach (value : other_list)
 	{
 		self.entries[self.size++] = allocator::clone_any(self.allocator, value);
@@ -271,8 +272,7 @@ macro void AnyList.insert_at(&self, usz index, type)
 		self.push(type);
 		return;
 	}
-	any value = allocator::copy(self.allocator, type);
-	self._insert_at(self, index, value);
+	self._insert_at(index, allocator::clone(self.allocator, type));
 }
 
 <*
@@ -515,7 +515,7 @@ macro void AnyList.set(&self, usz index, value)
 		return;
 	}
 	self.free_element(self.entries[index]);
-	self.entries[index] = allocator::copy(self.allocator, value);
+	self.entries[index] = allocator::clone(self.allocator, value);
 }
 
 // -- private
@@ -558,9 +558,9 @@ macro usz AnyList._remove_using_test(&self, AnyTest filter, bool $invert, ctx) @
 	{
 		// Find last index of item to be deleted.
 		$if $invert:
-			while (i > 0 && !filter(&self.entries[i - 1], ctx)) i--;
+			while (i > 0 && !filter(self.entries[i - 1], ctx)) i--;
 		$else
-			while (i > 0 && filter(&self.entries[i - 1], ctx)) i--;
+			while (i > 0 && filter(self.entries[i - 1], ctx)) i--;
 		$endif
 		// Remove the items from this index up to the one not to be deleted.
 		usz n = self.size - k;
@@ -569,9 +569,9 @@ macro usz AnyList._remove_using_test(&self, AnyTest filter, bool $invert, ctx) @
 		self.size -= k - i;
 		// Find last index of item not to be deleted.
 		$if $invert:
-			while (i > 0 && filter(&self.entries[i - 1], ctx)) i--;
+			while (i > 0 && filter(self.entries[i - 1], ctx)) i--;
 		$else
-			while (i > 0 && !filter(&self.entries[i - 1], ctx)) i--;
+			while (i > 0 && !filter(self.entries[i - 1], ctx)) i--;
 		$endif
 	}
 	return size - self.size;
@@ -584,9 +584,9 @@ macro usz AnyList._remove_if(&self, AnyPredicate filter, bool $invert) @local
 	{
 		// Find last index of item to be deleted.
 		$if $invert:
-			while (i > 0 && !filter(&self.entries[i - 1])) i--;
+			while (i > 0 && !filter(self.entries[i - 1])) i--;
 		$else
-			while (i > 0 && filter(&self.entries[i - 1])) i--;
+			while (i > 0 && filter(self.entries[i - 1])) i--;
 		$endif
 		// Remove the items from this index up to the one not to be deleted.
 		usz n = self.size - k;
@@ -595,9 +595,9 @@ macro usz AnyList._remove_if(&self, AnyPredicate filter, bool $invert) @local
 		self.size -= k - i;
 		// Find last index of item not to be deleted.
 		$if $invert:
-			while (i > 0 && filter(&self.entries[i - 1])) i--;
+			while (i > 0 && filter(self.entries[i - 1])) i--;
 		$else
-			while (i > 0 && !filter(&self.entries[i - 1])) i--;
+			while (i > 0 && !filter(self.entries[i - 1])) i--;
 		$endif
 	}
 	return size - self.size;
-- 
2.43.0


From 5695b6fef9865252c71bda02f2f75fee8d8b3c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:44 +0000
Subject: [PATCH 02/76] fix: ElasticArray.push_front_try on a full array
 returns OUT_OF_MEMORY instead of violating its contract

---
 lib/std/collections/elastic_array.c3 | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/lib/std/collections/elastic_array.c3 b/lib/std/collections/elastic_array.c3
index 297dd04..6506ead 100644
--- a/lib/std/collections/elastic_array.c3
+++ b/lib/std/collections/elastic_array.c3
@@ -196,9 +196,6 @@ fn void ElasticArray.push_front(&self, Type type) @inline
 	self.insert_at(0, type);
 }
 
-<*
- @require self.size < MAX_SIZE : `List would exceed max size`
-*>
 fn void? ElasticArray.push_front_try(&self, Type type) @inline
 {
 	return self.insert_at_try(0, type);
-- 
2.43.0


From 8a2f5912f364428eb8119a5d6a0ac71dfd4c5a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:44 +0000
Subject: [PATCH 03/76] fix: List.add_all of the list itself wrote past the
 capacity

---
 lib/std/collections/list.c3 | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/std/collections/list.c3 b/lib/std/collections/list.c3
index 6536964..b53f4ba 100644
--- a/lib/std/collections/list.c3
+++ b/lib/std/collections/list.c3
@@ -145,9 +145,10 @@ fn void List.remove_at(&self, usz index)
 fn void List.add_all(&self, List* other_list)
 {
 	if (!other_list.size) return;
-	self.reserve(other_list.size);
-	usz index = self.set_size(self.size + other_list.size);
-	foreach (&value : other_list)
+	usz added = other_list.size;
+	self.reserve(added);
+	usz index = self.set_size(self.size + added);
+	foreach (&value : other_list.entries[:added])
 	{
 		self.entries[index++] = *value;
 	}
-- 
2.43.0


From 97dfd6f8815c5aa8792028f0986ca878b235a66f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:44 +0000
Subject: [PATCH 04/76] fix: RingBuffer.pop on a full buffer never emptied it,
 read ran past the end of a rotated buffer

---
 lib/std/collections/ringbuffer.c3 | 68 ++++++-------------------------
 1 file changed, 13 insertions(+), 55 deletions(-)

diff --git a/lib/std/collections/ringbuffer.c3 b/lib/std/collections/ringbuffer.c3
index 51c9bb5..4fe0dde 100644
--- a/lib/std/collections/ringbuffer.c3
+++ b/lib/std/collections/ringbuffer.c3
@@ -20,14 +20,13 @@ fn void RingBuffer.init(&self) @inline
 
 fn void RingBuffer.push(&self, Element c)
 {
+	self.buf[(self.head + self.written) % self.buf.len] = c;
 	if (self.written < self.buf.len)
 	{
-		self.buf[self.written] = c;
 		self.written++;
 	}
 	else
 	{
-		self.buf[self.head] = c;
 		self.head = (self.head + 1) % self.buf.len;
 	}
 }
@@ -45,17 +44,9 @@ fn Element RingBuffer.get(&self, usz index) @operator([])
 
 fn Element? RingBuffer.pop(&self)
 {
-	switch
-	{
-		case self.written == 0:
-			return NO_MORE_ELEMENT?;
-		case self.written < self.buf.len:
-			self.written--;
-			return self.buf[self.written];
-		default:
-			self.head = (self.head - 1) % self.buf.len;
-			return self.buf[self.head];
-	}
+	if (!self.written) return NO_MORE_ELEMENT?;
+	self.written--;
+	return self.buf[(self.head + self.written) % self.buf.len];
 }
 
 fn usz? RingBuffer.to_format(&self, Formatter* format) @dynamic
@@ -67,49 +58,16 @@ fn usz? RingBuffer.to_format(&self, Formatter* format) @dynamic
 fn usz RingBuffer.read(&self, usz index, Element[] buffer)
 {
 	index %= self.buf.len;
-	if (self.written < self.buf.len)
-	{
-		if (index >= self.written) return 0;
-		usz end = self.written - index;
-		usz n = min(end, buffer.len);
-		buffer[:n] = self.buf[index:n];
-		return n;
-	}
-	usz end = self.buf.len - self.head;
-	if (index >= end)
-	{
-		index -= end;
-		if (index >= self.head) return 0;
-		usz n = min(self.head - index, buffer.len);
-		buffer[:n] = self.buf[index:n];
-		return n;
-	}
-	if (buffer.len <= self.buf.len - index)
-	{
-		usz n = buffer.len;
-		buffer[:n] = self.buf[self.head + index:n];
-		return n;
-	}
-	usz n1 = self.buf.len - index;
-	buffer[:n1] = self.buf[self.head + index:n1];
-	buffer = buffer[n1..];
-	index -= n1;
-	usz n2 = min(self.head - index, buffer.len);
-	buffer[:n2] = self.buf[index:n2];
-	return n1 + n2;
+	if (index >= self.written) return 0;
+	usz n = min(self.written - index, buffer.len);
+	usz start = (self.head + index) % self.buf.len;
+	usz n1 = min(n, self.buf.len - start);
+	buffer[:n1] = self.buf[start:n1];
+	buffer[n1:n - n1] = self.buf[:n - n1];
+	return n;
 }
 
 fn void RingBuffer.write(&self, Element[] buffer)
 {
-	usz i;
-	while (self.written < self.buf.len && i < buffer.len)
-	{
-		self.buf[self.written] = buffer[i++];
-		self.written++;
-	}
-	foreach (c : buffer[i..])
-	{
-		self.buf[self.head] = c;
-		self.head = (self.head + 1) % self.buf.len;
-	}
-}
\ No newline at end of file
+	foreach (c : buffer) self.push(c);
+}
-- 
2.43.0


From ce49b59049ac1aacfdb40338ca0b4a3069270983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:03 +0000
Subject: [PATCH 05/76] fix: the sign of a constant remainder follows the
 dividend (7 % -3 folded to -1)

---
 src/compiler/bigint.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/compiler/bigint.c b/src/compiler/bigint.c
index 82efb18..0004d32 100644
--- a/src/compiler/bigint.c
+++ b/src/compiler/bigint.c
@@ -544,7 +544,8 @@ Int128 i128_srem(Int128 op1, Int128 op2)
 	if (topbit1) op1 = i128_neg(op1);
 	if (topbit2) op2 = i128_neg(op2);
 	Int128 res = i128_urem(op1, op2);
-	if (topbit2 ^ topbit1)
+	// The remainder has the sign of the dividend.
+	if (topbit1)
 	{
 		return i128_neg(res);
 	}
-- 
2.43.0


From 64218f6c3270c8259de2807502761d9642f77d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:50 +0000
Subject: [PATCH 06/76] fix: != on floats and float to bool are true for NaN at
 run time, as they are at compile time

---
 src/compiler/llvm_codegen_expr.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/compiler/llvm_codegen_expr.c b/src/compiler/llvm_codegen_expr.c
index 9a688ca..a032d9f 100644
--- a/src/compiler/llvm_codegen_expr.c
+++ b/src/compiler/llvm_codegen_expr.c
@@ -2094,7 +2094,7 @@ static void llvm_emit_vec_comp(GenContext *c, BEValue *result, BEValue *lhs, BEV
 				break;
 			case BINARYOP_VEC_NE:
 				// Unordered?
-				res = LLVMBuildFCmp(c->builder, LLVMRealONE, lhs->value, rhs->value, "neq");
+				res = LLVMBuildFCmp(c->builder, LLVMRealUNE, lhs->value, rhs->value, "neq");
 				break;
 			case BINARYOP_VEC_GE:
 				res = LLVMBuildFCmp(c->builder, LLVMRealOGE, lhs->value, rhs->value, "ge");
@@ -3621,7 +3621,7 @@ static void llvm_emit_float_comp(GenContext *c, BEValue *be_value, BEValue *lhs,
 			break;
 		case BINARYOP_NE:
 			// Unordered?
-			val = LLVMBuildFCmp(c->builder, LLVMRealONE, lhs_value, rhs_value, "neq");
+			val = LLVMBuildFCmp(c->builder, LLVMRealUNE, lhs_value, rhs_value, "neq");
 			break;
 		case BINARYOP_GE:
 			val = LLVMBuildFCmp(c->builder, LLVMRealOGE, lhs_value, rhs_value, "ge");
-- 
2.43.0


From e7a2bd32ca0191016b5f250648608fa6b80c2acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:50 +0000
Subject: [PATCH 07/76] fix: constant integer to float conversions are
 correctly rounded, int128.min keeps its sign, float16 constants round once

---
 src/compiler/bigint.c            | 29 +++++++++++++++++++++++------
 src/compiler/compiler_internal.h |  4 ++++
 src/compiler/float.c             | 14 ++++++++++++++
 src/compiler/sema_casts.c        |  4 +++-
 4 files changed, 44 insertions(+), 7 deletions(-)

diff --git a/src/compiler/bigint.c b/src/compiler/bigint.c
index 0004d32..ec74d9e 100644
--- a/src/compiler/bigint.c
+++ b/src/compiler/bigint.c
@@ -484,18 +484,27 @@ UNUSED int i128_msb(const Int128 *op)
 	return (int)(127 - i128_clz(op));
 }
 
+// Keep the top 'bits' bits and fold what is dropped into the lowest of them: with bits at least two more than
+// the precision of a format, the result rounds to that format exactly as the original does.
+static Real i128_to_float_sticky(Int128 op, uint32_t bits)
+{
+	uint32_t used = op.high || op.low ? 128 - i128_clz(&op) : 0;
+	if (used <= bits) return (Real)op.low;
+	uint32_t shift = used - bits;
+	Int128 top = i128_lshr64(op, shift);
+	Int128 back = i128_shl64(top, shift);
+	if (back.high != op.high || back.low != op.low) top.low |= 1;
+	return (Real)ldexp((double)top.low, (int)shift);
+}
+
 Real i128_to_float(Int128 op)
 {
-	return (Real)op.low + (Real)ldexp((double)op.high, 64);
+	return i128_to_float_sticky(op, 64);
 }
 
 Real i128_to_float_signed(Int128 op)
 {
-	if ((int64_t)op.high < 0 && (op.high != INT128_MIN.high || op.low != INT128_MIN.low))
-	{
-		return -i128_to_float_signed(i128_neg(op));
-	}
-	return (Real)op.low + (Real)ldexp((double)op.high, 64);
+	return (int64_t)op.high < 0 ? -i128_to_float(i128_neg(op)) : i128_to_float(op);
 }
 
 void i128_udivrem(Int128 op1, Int128 op2, Int128 *div, Int128 *rem)
@@ -892,6 +901,14 @@ Real int_to_real(Int op)
 	return i128_to_float(op.i);
 }
 
+// As int_to_real, but exact enough to be rounded again to a format narrower than double.
+Real int_to_real_for_rounding(Int op)
+{
+	bool neg = int_is_neg(op);
+	Real real = i128_to_float_sticky(neg ? i128_neg(op.i) : op.i, 53);
+	return neg ? -real : real;
+}
+
 bool int_is_neg(Int op)
 {
 	if (type_kind_is_unsigned(op.type)) return false;
diff --git a/src/compiler/compiler_internal.h b/src/compiler/compiler_internal.h
index 5cc4186..d9280f3 100644
--- a/src/compiler/compiler_internal.h
+++ b/src/compiler/compiler_internal.h
@@ -2015,6 +2015,7 @@ Float float_neg(Float op);
 Float float_rem(Float op1, Float op2);
 Float float_from_string(const char *string, char **error);
 Float float_from_hex(const char *string, char **error);
+Real real_round_to_half(Real d, TypeKind kind);
 Int128 i128_from_double_unsigned(double x);
 bool int_ucomp(Int op1, uint64_t op2, BinaryOp op);
 bool int_icomp(Int op1, int64_t op2, BinaryOp op);
@@ -2041,6 +2042,7 @@ bool int_is_neg(Int op);
 Int int_shr64(Int op, uint64_t);
 Int int_shl64(Int op, uint64_t);
 Real int_to_real(Int op);
+Real int_to_real_for_rounding(Int op);
 Int int_from_real(Real d, TypeKind type);
 char *int_to_str(Int i, int radix, bool use_prefix);
 bool i128_can_convert_from_double(double x);
@@ -3886,6 +3888,8 @@ INLINE void expr_rewrite_const_float(Expr *expr, Type *type, Real d)
 	{
 		case TYPE_F16:
 		case TYPE_BF16:
+			real = real_round_to_half(d, kind);
+			break;
 		case TYPE_F32:
 			real = (float)d;
 			break;
diff --git a/src/compiler/float.c b/src/compiler/float.c
index 269e342..9ff96c2 100644
--- a/src/compiler/float.c
+++ b/src/compiler/float.c
@@ -145,6 +145,20 @@ TypeKind float_suffix(char c, const char **index_ref, char** error_ref)
  * @param error
  * @return the resulting Float, with type = TYPE_POISONED on error.
  */
+// Round to the nearest value of a 16 bit format, ties to even.
+Real real_round_to_half(Real d, TypeKind kind)
+{
+	if (!isfinite(d) || d == 0) return d;
+	int exponent;
+	frexp(d, &exponent);
+	int unit = exponent - precision_bits(kind);
+	int min_unit = min_exponent(kind) + 1 - precision_bits(kind);
+	if (unit < min_unit) unit = min_unit;
+	Real rounded = ldexp(nearbyint(ldexp(d, -unit)), unit);
+	if (fabs(rounded) >= ldexp(1, max_exponent(kind) + 1)) return rounded < 0 ? -INFINITY : INFINITY;
+	return rounded;
+}
+
 Float float_from_string(const char *string, char **error)
 {
 	const char *index = string;
diff --git a/src/compiler/sema_casts.c b/src/compiler/sema_casts.c
index 76136ba..49628cf 100644
--- a/src/compiler/sema_casts.c
+++ b/src/compiler/sema_casts.c
@@ -1717,7 +1717,9 @@ static void cast_int_to_float(Expr *expr, Type *type)
 		return;
 	}
 
-	Real f = int_to_real(expr->const_expr.ixx);
+	// A float is rounded from the double, so avoid rounding twice.
+	bool narrow = type_size(type_flatten(type)) < 8;
+	Real f = narrow ? int_to_real_for_rounding(expr->const_expr.ixx) : int_to_real(expr->const_expr.ixx);
 	expr_rewrite_const_float(expr, type, f);
 }
 
-- 
2.43.0


From 7f51c57c8591b0a3a24c4388040ba69ba9d43216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:28 +0000
Subject: [PATCH 08/76] fix: empty default in a switch falls through, @jump
 tables list all their destinations and take signed distances

---
 src/compiler/llvm_codegen_stmt.c | 58 ++++++++++++++++++++------------
 1 file changed, 37 insertions(+), 21 deletions(-)

diff --git a/src/compiler/llvm_codegen_stmt.c b/src/compiler/llvm_codegen_stmt.c
index 1ba7052..055ed20 100644
--- a/src/compiler/llvm_codegen_stmt.c
+++ b/src/compiler/llvm_codegen_stmt.c
@@ -735,12 +735,16 @@ static void llvm_emit_switch_body_if_chain(GenContext *c,
 		}
 		llvm_emit_block(c, next);
 	}
-	if (default_case && default_case->case_stmt.body)
+	if (default_case)
 	{
+		// An empty default falls through to the next case with a body.
 		llvm_emit_br(c, default_case->case_stmt.backend_block);
-		llvm_emit_block(c, default_case->case_stmt.backend_block);
-		llvm_emit_stmt(c, default_case->case_stmt.body);
-		llvm_emit_br(c, exit_block);
+		if (default_case->case_stmt.body)
+		{
+			llvm_emit_block(c, default_case->case_stmt.backend_block);
+			llvm_emit_stmt(c, default_case->case_stmt.body);
+			llvm_emit_br(c, exit_block);
+		}
 	}
 	else
 	{
@@ -778,7 +782,13 @@ static LLVMValueRef llvm_emit_switch_jump_stmt(GenContext *c,
 	llvm_emit_block(c, switch_block);
 	AlignSize align;
 	LLVMTypeRef type = LLVMArrayType(c->ptr_type, count);
-	LLVMValueRef index = llvm_emit_array_gep_raw_index(c, jump_table, type, switch_value, llvm_abi_alignment(c, type), &align);
+	BEValue table_index = *switch_value;
+	// The offset is unsigned even if the type is signed, and so cannot be sign extended.
+	if (type_size(switch_value->type) == 1)
+	{
+		llvm_value_set(&table_index, llvm_zext_trunc(c, switch_value->value, llvm_get_type(c, type_usz)), type_usz);
+	}
+	LLVMValueRef index = llvm_emit_array_gep_raw_index(c, jump_table, type, &table_index, llvm_abi_alignment(c, type), &align);
 	LLVMValueRef addr = llvm_load(c, c->ptr_type, index, align, "target");
 	LLVMValueRef instr = LLVMBuildIndirectBr(c->builder, addr, case_count);
 	c->current_block = NULL;
@@ -831,7 +841,6 @@ static void llvm_emit_switch_jump_table(GenContext *c,
 		Ast *case_ast = cases[i];
 		if (case_ast->ast_kind == AST_DEFAULT_STMT)
 		{
-			if (!case_ast->case_stmt.body) continue;
 			default_block = case_ast->case_stmt.backend_block;
 			default_index = i;
 			continue;
@@ -856,10 +865,10 @@ static void llvm_emit_switch_jump_table(GenContext *c,
 	}
 	switch_ast->switch_stmt.codegen.jump.default_index = default_index;
 	switch_ast->switch_stmt.codegen.jump.min_index = min_index;
-	max = int_sub(max, min);
-	ASSERT(max.i.low <= 0xFFFF);
-	uint64_t count = switch_ast->switch_stmt.codegen.jump.count = max.i.low + 1;
-	ASSERT(!max.i.high && "Should never exceed 64 bytes");
+	// The distance might not fit a signed type, so do not truncate it to the type.
+	Int128 range = i128_sub(max.i, min.i);
+	ASSERT(!range.high && range.low <= 0xFFFF);
+	uint64_t count = switch_ast->switch_stmt.codegen.jump.count = range.low + 1;
 
 	Type *goto_array_type = type_get_array(type_voidptr, count);
 	LLVMTypeRef llvm_array_type = llvm_get_type(c, goto_array_type);
@@ -883,6 +892,8 @@ static void llvm_emit_switch_jump_table(GenContext *c,
 	LLVMValueRef default_block_address = LLVMBlockAddress(c->cur_func.ref, default_block);
 	ASSERT(count < DEFAULT_SWITCH_JUMP_MAX_SIZE + 1);
 	memset(refs, 0, sizeof(LLVMValueRef) * count);
+	bool uses_default = false;
+	bool uses_exit = false;
 	for (unsigned i = 0; i < case_count; i++)
 	{
 		Ast *case_stmt = cases[i];
@@ -891,16 +902,20 @@ static void llvm_emit_switch_jump_table(GenContext *c,
 		{
 			Int value, to_value;
 			llvm_set_jump_table_values(case_stmt->case_stmt.expr, case_stmt->case_stmt.to_expr, &value, &to_value);
-			value = int_sub(value, min);
-			to_value = int_sub(to_value, min);
-			uint64_t from_val = value.i.low;
-			uint64_t to_val = to_value.i.low;
+			uint64_t from_val = i128_sub(value.i, min.i).low;
+			uint64_t to_val = i128_sub(to_value.i, min.i).low;
 			for (uint64_t j = from_val; j <= to_val; j++)
 			{
 				refs[j] = LLVMBlockAddress(c->cur_func.ref, block);
 			}
-			// No fallthrough
-			if (!case_stmt->case_stmt.body) continue;
+			if (!case_stmt->case_stmt.body)
+			{
+				// Cases with a body add themselves, but we need to make sure that falling through
+				// to the default or to the end of the switch is also known as a destination.
+				if (block == default_block) uses_default = true;
+				else if (block == exit_block) uses_exit = true;
+				continue;
+			}
 			LLVMAddDestination(instr, block);
 		}
 		if (!case_stmt->case_stmt.body) continue;
@@ -909,15 +924,14 @@ static void llvm_emit_switch_jump_table(GenContext *c,
 		llvm_emit_br(c, exit_block);
 	}
 
-	bool found = false;
 	for (uint64_t i = 0; i < count; i++)
 	{
 		if (refs[i]) continue;
 		refs[i] = default_block_address;
-		if (found) continue;
-		found = true;
-		LLVMAddDestination(instr, default_block);
+		uses_default = true;
 	}
+	if (uses_default) LLVMAddDestination(instr, default_block);
+	if (uses_exit) LLVMAddDestination(instr, exit_block);
 	LLVMSetInitializer(jmptable, LLVMConstArray(c->ptr_type, refs, count));
 	llvm_emit_block(c, exit_block);
 }
@@ -1136,12 +1150,14 @@ void gencontext_emit_next_stmt(GenContext *context, Ast *ast)
 														? exit_block
 		                                                : cases[default_index]->case_stmt.backend_block,
 		                                                &be_value);
+		bool uses_exit = default_index < 0;
 		FOREACH(Ast *, case_ast, cases)
 		{
+			if (case_ast->case_stmt.backend_block == exit_block) uses_exit = true;
 			if (!case_ast->case_stmt.body) continue;
 			LLVMAddDestination(instr, case_ast->case_stmt.backend_block);
 		}
-		if (default_index < 0) LLVMAddDestination(instr, exit_block);
+		if (uses_exit) LLVMAddDestination(instr, exit_block);
 
 		return;
 	}
-- 
2.43.0


From fb608b816413c705a67affa2865948965cf64192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:28 +0000
Subject: [PATCH 09/76] fix: overlapping switch ranges are found from either
 end, long ranges are measured and checked without wrapping

---
 src/compiler/sema_stmts.c | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/compiler/sema_stmts.c b/src/compiler/sema_stmts.c
index 0f66871..e0d086b 100644
--- a/src/compiler/sema_stmts.c
+++ b/src/compiler/sema_stmts.c
@@ -2204,7 +2204,7 @@ static inline bool sema_check_value_case(SemaContext *context, Type *switch_type
 		*if_chained = true;
 		return true;
 	}
-	if (is_range && (!first_is_const || !(expr_is_const_int(expr) || expr_is_const_enum(expr))))
+	if (is_range && (!first_is_const || !sema_cast_const(to_expr) || !(expr_is_const_int(expr) || expr_is_const_enum(expr))))
 	{
 		sema_error_at(context, extend_span_with_token(expr->span, to_expr->span), "Ranges must be constant integers.");
 		return false;
@@ -2218,7 +2218,7 @@ static inline bool sema_check_value_case(SemaContext *context, Type *switch_type
 		if (low->type == TYPE_POISONED || int_comp(*low, const_expr->ixx, BINARYOP_GT)) *low = const_expr->ixx;
 		if (high->type == TYPE_POISONED || int_comp(*high, to_const_expr->ixx, BINARYOP_LT)) *high = to_const_expr->ixx;
 	}
-	if (!*max_ranged && is_range)
+	if (is_range)
 	{
 		if (is_enum)
 		{
@@ -2250,10 +2250,10 @@ static inline bool sema_check_value_case(SemaContext *context, Type *switch_type
 				              int_to_str(to_const_expr->ixx, 10, false));
 				return false;
 			}
-			Int128 range = int_sub(to_const_expr->ixx, const_expr->ixx).i;
-			Int128 max_range = { .low = compiler.build.switchrange_max_size };
+			// The distance might not fit a signed type.
+			Int128 range = i128_sub(to_const_expr->ixx.i, const_expr->ixx.i);
 			*actual_cases_ref += range.low;
-			if (i128_comp(range, max_range, type_i128) == CMP_GT)
+			if (range.high || range.low > compiler.build.switchrange_max_size)
 			{
 				*max_ranged = true;
 			}
@@ -2267,7 +2267,8 @@ static inline bool sema_check_value_case(SemaContext *context, Type *switch_type
 		if (!sema_cast_const(other_expr)) continue;
 		ExprConst *other_const = &other_expr->const_expr;
 		ExprConst *other_to_const = other->case_stmt.to_expr ? &exprptr(other->case_stmt.to_expr)->const_expr : other_const;
-		if (expr_const_in_range(const_expr, other_const, other_to_const))
+		if (expr_const_in_range(const_expr, other_const, other_to_const)
+			|| (is_range && expr_const_in_range(other_const, const_expr, to_const_expr)))
 		{
 			SEMA_ERROR(case_stmt, "The same case value appears more than once.");
 			SEMA_NOTE(other, "Here is the previous use of that value.");
@@ -2419,9 +2420,9 @@ static bool sema_analyse_switch_body(SemaContext *context, Ast *statement, Sourc
 		max_ranged = false;
 		if (low.type != TYPE_POISONED)
 		{
-			Int range = int_sub(high, low);
-			Int max = { .i.low = compiler.build.switchjump_max_size, .type = range.type };
-			if (int_comp(range, max, BINARYOP_GE))
+			// The distance might not fit a signed type.
+			Int128 range = i128_sub(high.i, low.i);
+			if (range.high || range.low >= (uint64_t)compiler.build.switchjump_max_size)
 			{
 				RETURN_SEMA_ERROR(statement, "The switch cannot use a jump table size of the table would exceed "
 				                             "the maximum allowed (%u), please remove '@jump'.", compiler.build.switchjump_max_size);
-- 
2.43.0


From ba913b5dd88dfdce0a663e8a902d38ed792c8791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:06 +0000
Subject: [PATCH 10/76] fix: a labelled break out of 'if (true)' reaches the
 end of the statement

---
 src/compiler/sema_stmts.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/compiler/sema_stmts.c b/src/compiler/sema_stmts.c
index e0d086b..b2fefbd 100644
--- a/src/compiler/sema_stmts.c
+++ b/src/compiler/sema_stmts.c
@@ -1840,7 +1840,9 @@ END:
 	{
 		sema_unwrappable_from_catch_in_else(context, cond);
 	}
-	if (then_jump && else_jump && !statement->flow.has_break)
+	// A labelled break reaches the end of the statement.
+	if (statement->flow.has_break) return true;
+	if (then_jump && else_jump)
 	{
 		context->active_scope.jump_end = true;
 	}
-- 
2.43.0


From 9bb4914d92d75db46f70e3d71b73967e7a13b4aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:06 +0000
Subject: [PATCH 11/76] fix: an enum switch with variable cases is not
 exhaustive

---
 src/compiler/sema_stmts.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/compiler/sema_stmts.c b/src/compiler/sema_stmts.c
index b2fefbd..340bf52 100644
--- a/src/compiler/sema_stmts.c
+++ b/src/compiler/sema_stmts.c
@@ -2200,12 +2200,13 @@ static inline bool sema_check_value_case(SemaContext *context, Type *switch_type
 
 	bool is_range = to_expr != NULL;
 	bool first_is_const = sema_cast_const(expr);
-	(*actual_cases_ref)++;
 	if (!is_range && !first_is_const)
 	{
+		// The value isn't known, so it doesn't count as handled.
 		*if_chained = true;
 		return true;
 	}
+	(*actual_cases_ref)++;
 	if (is_range && (!first_is_const || !sema_cast_const(to_expr) || !(expr_is_const_int(expr) || expr_is_const_enum(expr))))
 	{
 		sema_error_at(context, extend_span_with_token(expr->span, to_expr->span), "Ranges must be constant integers.");
@@ -2301,7 +2302,7 @@ INLINE const char *create_missing_enums_in_switch_error(Ast **cases, unsigned fo
 		{
 			Expr *e = exprptr(cases[j]->case_stmt.expr);
 			Expr *e_to = exprptrzero(cases[j]->case_stmt.to_expr);
-			ASSERT_SPAN(e, expr_is_const_enum(e));
+			if (!expr_is_const_enum(e)) continue;
 			uint32_t ordinal_from = e->const_expr.enum_val->enum_constant.ordinal;
 			uint32_t ordinal_to = e_to ? e_to->const_expr.enum_val->enum_constant.ordinal : ordinal_from;
 			if (i >= ordinal_from && i <= ordinal_to) goto CONTINUE;
-- 
2.43.0


From b03025d4f37f2c33f624cc2df0cce3e9166af015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:14 +0000
Subject: [PATCH 12/76] fix: Check the shift amount before truncating it to the
 type of the shifted value

---
 src/compiler/llvm_codegen_expr.c | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/src/compiler/llvm_codegen_expr.c b/src/compiler/llvm_codegen_expr.c
index a032d9f..f640975 100644
--- a/src/compiler/llvm_codegen_expr.c
+++ b/src/compiler/llvm_codegen_expr.c
@@ -2516,7 +2516,7 @@ static void llvm_emit_trap_zero(GenContext *c, Type *type, LLVMValueRef value, c
 }
 
 
-static void llvm_emit_trap_invalid_shift(GenContext *c, LLVMValueRef value, Type *type, const char *error, SourceSpan loc)
+static void llvm_emit_trap_invalid_shift(GenContext *c, LLVMValueRef value, Type *type, BitSize type_bit_size, const char *error, SourceSpan loc)
 {
 	if (!safe_mode_enabled()) return;
 	BEValue val;
@@ -2525,7 +2525,6 @@ static void llvm_emit_trap_invalid_shift(GenContext *c, LLVMValueRef value, Type
 	if (type_flat_is_vector(type))
 	{
 		Type *vec_base = type->array.base;
-		unsigned type_bit_size = type_size(vec_base) * 8;
 		LLVMTypeRef llvm_type = llvm_get_type(c, type);
 		LLVMValueRef max = llvm_const_int(c, vec_base, type_bit_size);
 		if (type_is_unsigned(vec_base))
@@ -2547,7 +2546,6 @@ static void llvm_emit_trap_invalid_shift(GenContext *c, LLVMValueRef value, Type
 	}
 	else
 	{
-		unsigned type_bit_size = type_size(type) * 8;
 		LLVMValueRef max = llvm_const_int(c, type, type_bit_size);
 		if (type_is_unsigned(type))
 		{
@@ -2563,6 +2561,26 @@ static void llvm_emit_trap_invalid_shift(GenContext *c, LLVMValueRef value, Type
 	}
 }
 
+/**
+ * Emit a shift amount with the same width as the value to be shifted, in safe mode with a check that it is in range.
+ */
+static LLVMValueRef llvm_emit_shift_amount(GenContext *c, LLVMValueRef amount, Type *amount_type, LLVMValueRef shifted, Type *shifted_type, SourceSpan loc)
+{
+	LLVMTypeRef llvm_type = LLVMTypeOf(shifted);
+	shifted_type = type_flatten(shifted_type);
+	Type *base = type_flat_is_vector(shifted_type) ? type_flatten(shifted_type->array.base) : shifted_type;
+	BitSize bits = type_size(base) * 8;
+	if (llvm_bitsize(c, LLVMTypeOf(amount)) > llvm_bitsize(c, llvm_type))
+	{
+		// Check before truncating, as this might turn an invalid amount into a valid one.
+		llvm_emit_trap_invalid_shift(c, amount, amount_type, bits, "Shift amount out of range (was %s).", loc);
+		return llvm_zext_trunc(c, amount, llvm_type);
+	}
+	amount = llvm_zext_trunc(c, amount, llvm_type);
+	llvm_emit_trap_invalid_shift(c, amount, shifted_type, bits, "Shift amount out of range (was %s).", loc);
+	return amount;
+}
+
 static void llvm_emit_slice_values(GenContext *c, Expr *slice, BEValue *parent_ref, BEValue *start_ref, BEValue *end_ref, bool *is_exclusive)
 {
 	ASSERT(slice->expr_kind == EXPR_SLICE);
@@ -4103,16 +4121,14 @@ void llvm_emit_binary(GenContext *c, BEValue *be_value, Expr *expr, BEValue *lhs
 				  : LLVMBuildSRem(c->builder, lhs_value, rhs_value, "smod");
 			break;
 		case BINARYOP_SHR:
-			rhs_value = llvm_zext_trunc(c, rhs_value, LLVMTypeOf(lhs_value));
-			llvm_emit_trap_invalid_shift(c, rhs_value, lhs_type, "Shift amount out of range (was %s).", expr->span);
+			rhs_value = llvm_emit_shift_amount(c, rhs_value, rhs_type, lhs_value, lhs_type, expr->span);
 			val = type_is_unsigned(lhs_type)
 				  ? LLVMBuildLShr(c->builder, lhs_value, rhs_value, "lshr")
 				  : LLVMBuildAShr(c->builder, lhs_value, rhs_value, "ashr");
 			val = LLVMBuildFreeze(c->builder, val, "");
 			break;
 		case BINARYOP_SHL:
-			rhs_value = llvm_zext_trunc(c, rhs_value, LLVMTypeOf(lhs_value));
-			llvm_emit_trap_invalid_shift(c, rhs_value, lhs_type, "Shift amount out of range (was %s).", expr->span);
+			rhs_value = llvm_emit_shift_amount(c, rhs_value, rhs_type, lhs_value, lhs_type, expr->span);
 			val = LLVMBuildShl(c->builder, lhs_value, rhs_value, "shl");
 			val = LLVMBuildFreeze(c->builder, val, "");
 			break;
-- 
2.43.0


From 6df4ae6a7c030fc1ba3df2ee07e4586176464dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:14 +0000
Subject: [PATCH 13/76] fix: Check for negative and overflowing lengths in
 a[i:len]

---
 src/compiler/llvm_codegen_expr.c | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/compiler/llvm_codegen_expr.c b/src/compiler/llvm_codegen_expr.c
index f640975..631b1e5 100644
--- a/src/compiler/llvm_codegen_expr.c
+++ b/src/compiler/llvm_codegen_expr.c
@@ -2714,8 +2714,13 @@ static void llvm_emit_slice_values(GenContext *c, Expr *slice, BEValue *parent_r
 			end_index.value = llvm_emit_sub_int(c, end_index.type, len.value, end_index.value, slice->span);
 			llvm_value_rvalue(c, &end_index);
 		}
+		BEValue slice_len = end_index;
 		if (is_len_range)
 		{
+			if (range.range_type == RANGE_DYNAMIC)
+			{
+				llvm_emit_trap_negative(c, exprptr(range.end), end_index.value, "Negative length (%d)", &end_index);
+			}
 			end_index.value = llvm_emit_add_int(c, end_index.type, start_index.value, end_index.value, slice->span);
 		}
 
@@ -2727,7 +2732,17 @@ static void llvm_emit_slice_values(GenContext *c, Expr *slice, BEValue *parent_r
 				if (len.value)
 				{
 					BEValue excess;
-					llvm_emit_int_comp(c, &excess, &len, &end_index, BINARYOP_LT);
+					if (range.range_type == RANGE_DYNAMIC)
+					{
+						// The sum might have wrapped, so compare with what is left after the start.
+						BEValue left = len;
+						left.value = llvm_emit_sub_int(c, len.type, len.value, start_index.value, slice->span);
+						llvm_emit_int_comp(c, &excess, &left, &slice_len, BINARYOP_LT);
+					}
+					else
+					{
+						llvm_emit_int_comp(c, &excess, &len, &end_index, BINARYOP_LT);
+					}
 					BEValue actual_end_index = end_index;
 					actual_end_index.value = llvm_emit_sub_int(c, end_index.type, end_index.value, llvm_const_int(c, type_isz, 1), slice->span);
 					llvm_emit_panic_if_true(c, &excess, "End index out of bounds", slice->span, "End index out of bounds (end index of %d exceeds size of %d)", &actual_end_index, &len);
-- 
2.43.0


From 08f73cf3deb04f0be6b826a548e8840670783aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:14 +0000
Subject: [PATCH 14/76] fix: Bounds check vector subscripts, and make checks of
 ^index well defined

---
 src/compiler/llvm_codegen_expr.c | 55 +++++++++++++++++++++-----------
 1 file changed, 36 insertions(+), 19 deletions(-)

diff --git a/src/compiler/llvm_codegen_expr.c b/src/compiler/llvm_codegen_expr.c
index 631b1e5..48ebc89 100644
--- a/src/compiler/llvm_codegen_expr.c
+++ b/src/compiler/llvm_codegen_expr.c
@@ -636,6 +636,38 @@ static void llvm_emit_array_bounds_check(GenContext *c, BEValue *index, LLVMValu
 	llvm_emit_panic_if_true(c, &result, "Array index out of bounds", loc, "Array index out of bounds (array had size %d, index was %d)", &max, index);
 }
 
+/**
+ * Convert an index from the end. In safe mode the result is subject to a bounds check,
+ * so then it must be well defined even if the index is out of bounds.
+ */
+static inline LLVMValueRef llvm_emit_index_from_end(GenContext *c, LLVMValueRef len, LLVMValueRef index)
+{
+	if (safe_mode_enabled()) return LLVMBuildSub(c->builder, len, index, "");
+	return LLVMBuildNUWSub(c->builder, len, index, "");
+}
+
+/**
+ * Emit the index of a vector subscript, including the bounds check.
+ */
+static inline LLVMValueRef llvm_emit_vector_index(GenContext *c, Type *vec, Expr *subscript)
+{
+	ASSERT(vec->type_kind == TYPE_VECTOR);
+	Expr *index_expr = exprptr(subscript->subscript_expr.index.expr);
+	BEValue index;
+	llvm_emit_expr(c, &index, index_expr);
+	llvm_value_rvalue(c, &index);
+	LLVMValueRef len = llvm_const_int(c, index.type, vec->array.len);
+	if (subscript->subscript_expr.index.start_from_end)
+	{
+		index.value = llvm_emit_index_from_end(c, len, index.value);
+	}
+	if (safe_mode_enabled() && !LLVMIsConstant(index.value) && !llvm_is_global_eval(c))
+	{
+		llvm_emit_array_bounds_check(c, &index, len, index_expr->span);
+	}
+	return index.value;
+}
+
 static inline void llvm_emit_subscript_addr_with_base(GenContext *c, BEValue *result, BEValue *parent, BEValue *index, SourceSpan loc)
 {
 	ASSERT(llvm_value_is_addr(parent));
@@ -678,13 +710,7 @@ static inline void llvm_emit_vector_subscript(GenContext *c, BEValue *value, Exp
 	ASSERT(vec->type_kind == TYPE_VECTOR);
 	Type *element = vec->array.base;
 	LLVMValueRef vector = value->value;
-	llvm_emit_exprid(c, value, expr->subscript_expr.index.expr);
-	llvm_value_rvalue(c, value);
-	LLVMValueRef index = value->value;
-	if (expr->subscript_expr.index.start_from_end)
-	{
-		index = LLVMBuildNUWSub(c->builder, llvm_const_int(c, value->type, vec->array.len), index, "");
-	}
+	LLVMValueRef index = llvm_emit_vector_index(c, vec, expr);
 	llvm_value_set(value, LLVMBuildExtractElement(c->builder, vector, index, ""), element);
 }
 
@@ -737,7 +763,7 @@ static inline void llvm_emit_subscript_addr(GenContext *c, BEValue *value, Expr
 	if (start_from_end)
 	{
 		ASSERT(needs_len);
-		index.value = LLVMBuildNUWSub(c->builder, llvm_zext_trunc(c, len.value, llvm_get_type(c, index.type)), index.value, "");
+		index.value = llvm_emit_index_from_end(c, llvm_zext_trunc(c, len.value, llvm_get_type(c, index.type)), index.value);
 	}
 	if (needs_len && safe_mode_enabled() && !llvm_is_global_eval(c))
 	{
@@ -2225,14 +2251,7 @@ static inline void llvm_emit_pre_post_inc_dec_vector(GenContext *c, BEValue *val
 	LLVMValueRef vector = value->value;
 
 	// Now let's get the subscript and store it in value
-	bool start_from_end = expr->subscript_expr.index.start_from_end;
-	llvm_emit_exprid(c, value, expr->subscript_expr.index.expr);
-	llvm_value_rvalue(c, value);
-	LLVMValueRef index = value->value;
-	if (start_from_end)
-	{
-		index = LLVMBuildNUWSub(c->builder, llvm_const_int(c, value->type, vec->array.len), index, "");
-	}
+	LLVMValueRef index = llvm_emit_vector_index(c, vec, expr);
 
 	// We're now done, we can extract the current value:
 	BEValue current_res;
@@ -4425,9 +4444,7 @@ static void llvm_emit_vector_assign_expr(GenContext *c, BEValue *be_value, Expr
 		return;
 	}
 	// Emit the index
-	BEValue index;
-	llvm_emit_exprid(c, &index, left->subscript_expr.index.expr);
-	LLVMValueRef index_val = llvm_load_value_store(c, &index);
+	LLVMValueRef index_val = llvm_emit_vector_index(c, type_lowering(addr.type), left);
 	if (binary_op > BINARYOP_ASSIGN)
 	{
 		BinaryOp base_op = binaryop_assign_base_op(binary_op);
-- 
2.43.0


From bfa199f944e6036f9c0426699ab9817cd3266187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:14 +0000
Subject: [PATCH 15/76] fix: Take the start into account when checking constant
 slice ranges

---
 src/compiler/sema_expr.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/compiler/sema_expr.c b/src/compiler/sema_expr.c
index b145923..5a0ab23 100644
--- a/src/compiler/sema_expr.c
+++ b/src/compiler/sema_expr.c
@@ -3764,9 +3764,9 @@ INLINE bool sema_expr_analyse_range_internal(SemaContext *context, Range *range,
 				}
 				break;
 			case RANGE_CONST_RANGE:
-				if (range->len_index > len)
+				if (range->start_index + range->len_index > len)
 				{
-					RETURN_SEMA_ERROR(end ? end : start, "End index out of bounds, was %d, exceeding max index %d.", range->len_index - 1, len - 1);
+					RETURN_SEMA_ERROR(end ? end : start, "End index out of bounds, was %d, exceeding max index %d.", range->start_index + range->len_index - 1, len - 1);
 				}
 				break;
 			default:
-- 
2.43.0


From 267e91b92daa83563a8ee4d8773701338bff9b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:14 +0000
Subject: [PATCH 16/76] fix: Crash on invalid constant index from the end in a
 range without an end

---
 src/compiler/sema_expr.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/compiler/sema_expr.c b/src/compiler/sema_expr.c
index 5a0ab23..d4dc173 100644
--- a/src/compiler/sema_expr.c
+++ b/src/compiler/sema_expr.c
@@ -3702,13 +3702,13 @@ INLINE bool sema_expr_analyse_range_internal(SemaContext *context, Range *range,
 		// Only ArrayIndex sized
 		if (!int_fits(start->const_expr.ixx, TYPE_I64))
 		{
-			RETURN_SEMA_ERROR(end, "The index cannot be stored in a 64-signed integer, which isn't supported.");
+			RETURN_SEMA_ERROR(start, "The index cannot be stored in a 64-signed integer, which isn't supported.");
 		}
 		// Only ArrayIndex sized
 		int64_t start_index = int_to_i64(start->const_expr.ixx);
 		if (range->start_from_end)
 		{
-			if (start_index < 0) RETURN_SEMA_ERROR(end, "Negative numbers are not allowed when indexing from the end.");
+			if (start_index < 0) RETURN_SEMA_ERROR(start, "Negative numbers are not allowed when indexing from the end.");
 			// Something like  ^1 .. 4 with an unknown length.
 			if (len < 0) return true;
 			// Otherwise we fold the "from end"
-- 
2.43.0


From 1ad646a7b0588a0018ba58ebd35b88adb2b48858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:34 +0000
Subject: [PATCH 17/76] fix: keep elements after an anonymous member in plain
 struct initializers

---
 src/compiler/sema_initializers.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/compiler/sema_initializers.c b/src/compiler/sema_initializers.c
index 6c9ea40..45c2b0e 100644
--- a/src/compiler/sema_initializers.c
+++ b/src/compiler/sema_initializers.c
@@ -262,6 +262,11 @@ static inline bool sema_expr_analyse_struct_plain_initializer(SemaContext *conte
 			size -= reduce_by;
 			elements_needed -= reduce_by;
 			max_loop = size > elements_needed ? size : elements_needed;
+			// Move the elements after the ones grouped.
+			for (int j = i + 1; j < size; j++)
+			{
+				elements[j] = elements[j + reduce_by];
+			}
 			ASSERT(size <= vec_size(initializer->initializer_list));
 			vec_resize(initializer->initializer_list, (unsigned)size);
 			elements = initializer->initializer_list;
-- 
2.43.0


From 632da88cd97d1fb675251161e286c38d0986ab8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:34 +0000
Subject: [PATCH 18/76] fix: expand every element of a vector in an initializer

---
 src/compiler/sema_initializers.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/sema_initializers.c b/src/compiler/sema_initializers.c
index 45c2b0e..f268b9f 100644
--- a/src/compiler/sema_initializers.c
+++ b/src/compiler/sema_initializers.c
@@ -393,7 +393,7 @@ static inline bool sema_expr_analyse_array_plain_initializer(SemaContext *contex
 				{
 					sub = expr_new_expr(EXPR_SUBSCRIPT, element);
 					sub->subscript_expr.expr = exprid(expr_variable(decl));
-					sub->subscript_expr.index.expr = exprid(expr_new_const_int(element->span, type_usz, 1));
+					sub->subscript_expr.index.expr = exprid(expr_new_const_int(element->span, type_usz, j));
 					vec_insert_at(elements, i + j, sub);
 					if (!sema_analyse_expr_rhs(context, inner_type, sub, true, NULL, false)) return false;
 				}
-- 
2.43.0


From f3b6df98b7616f342ea6df2034904582100282f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:34 +0000
Subject: [PATCH 19/76] fix: reject designator ranges ending at the array
 length

---
 src/compiler/sema_initializers.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/sema_initializers.c b/src/compiler/sema_initializers.c
index f268b9f..2ff7142 100644
--- a/src/compiler/sema_initializers.c
+++ b/src/compiler/sema_initializers.c
@@ -1270,7 +1270,7 @@ static Type *sema_find_type_of_element(SemaContext *context, Type *type, Designa
 				*did_report_error = true;
 				return NULL;
 			}
-			if (end_index > (ArrayIndex)len)
+			if (end_index >= (ArrayIndex)len)
 			{
 				*did_report_error = true;
 				SEMA_ERROR(element->index_expr, "The index may must be less than the array length (which was %llu).", (unsigned long long)len);
-- 
2.43.0


From 1c081e470fddb28bee7a92127a537693555890c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:35 +0000
Subject: [PATCH 20/76] fix: emit sparse constant vectors as vectors

---
 src/compiler/llvm_codegen.c | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/compiler/llvm_codegen.c b/src/compiler/llvm_codegen.c
index 0eb9458..2d6e8a1 100644
--- a/src/compiler/llvm_codegen.c
+++ b/src/compiler/llvm_codegen.c
@@ -281,6 +281,7 @@ LLVMValueRef llvm_emit_const_initializer(GenContext *c, ConstInitializer *const_
 			unsigned alignment = 0;
 			LLVMValueRef *parts = NULL;
 			bool pack = false;
+			bool is_vector = type_flat_is_vector(array_type);
 			FOREACH(ConstInitializer *, element, elements)
 			{
 				ASSERT(element->kind == CONST_INIT_ARRAY_VALUE);
@@ -291,8 +292,12 @@ LLVMValueRef llvm_emit_const_initializer(GenContext *c, ConstInitializer *const_
 					pack = true;
 				}
 				alignment = expected_align;
-				// Add zeroes
-				if (diff > 0)
+				// Add zeroes, for a vector this is always one by one.
+				if (is_vector)
+				{
+					for (; diff > 0; diff--) vec_add(parts, LLVMConstNull(element_type_llvm));
+				}
+				else if (diff > 0)
 				{
 					vec_add(parts, llvm_emit_const_array_padding(element_type_llvm, diff, &was_modified));
 				}
@@ -303,6 +308,11 @@ LLVMValueRef llvm_emit_const_initializer(GenContext *c, ConstInitializer *const_
 			}
 
 			IndexDiff end_diff = (ArrayIndex)array_type->array.len - current_index;
+			if (is_vector)
+			{
+				for (; end_diff > 0; end_diff--) vec_add(parts, LLVMConstNull(element_type_llvm));
+				return LLVMConstVector(parts, vec_size(parts));
+			}
 			if (end_diff > 0)
 			{
 				vec_add(parts, llvm_emit_const_array_padding(element_type_llvm, end_diff, &was_modified));
@@ -311,10 +321,6 @@ LLVMValueRef llvm_emit_const_initializer(GenContext *c, ConstInitializer *const_
 			{
 				return llvm_get_unnamed_struct(c, parts, pack);
 			}
-			if (type_flat_is_vector(array_type))
-			{
-				return LLVMConstVector(parts, vec_size(parts));
-			}
 			return llvm_get_array(element_type_llvm, parts, vec_size(parts));
 		}
 		case CONST_INIT_UNION:
-- 
2.43.0


From 7247a6320606c23769fe905d88160e8341c097c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:35 +0000
Subject: [PATCH 21/76] fix: constant designated initializers updating elements
 already set

An empty element value cleared the whole struct, elements in arrays already
given in full (as a list, string or constant) could not be updated, and the
elements of a range shared their initializer.
---
 src/compiler/sema_initializers.c | 51 ++++++++++++++++++++++++--------
 1 file changed, 39 insertions(+), 12 deletions(-)

diff --git a/src/compiler/sema_initializers.c b/src/compiler/sema_initializers.c
index 2ff7142..cd0993c 100644
--- a/src/compiler/sema_initializers.c
+++ b/src/compiler/sema_initializers.c
@@ -878,7 +878,7 @@ void const_init_rewrite_to_value(ConstInitializer *const_init, Expr *value)
 		Decl *ident = decl_flatten(value->ident_expr);
 		ASSERT(ident->decl_kind == DECL_VAR);
 		ASSERT(ident->var.kind == VARDECL_CONST);
-		const_init_rewrite_to_value(const_init, expr_copy(ident->var.init_expr));
+		const_init_rewrite_to_value(const_init, copy_expr_single(ident->var.init_expr));
 		return;
 	}
 	const_init->init_value = value;
@@ -948,13 +948,10 @@ static inline void sema_update_const_initializer_with_designator_struct(ConstIni
 	DesignatorElement **next_element = curr + 1;
 	bool is_last_path_element = next_element == end;
 
-	// Optimize in case this is a zero, e.g. [12].b = {}
-	if (is_last_path_element && sema_initializer_list_is_empty(value))
-	{
-		const_init->kind = CONST_INIT_ZERO;
-		ASSERT(type_flatten(value->type)->type_kind != TYPE_SLICE);
-		return;
-	}
+	// Optimize in case this is a zero, e.g. [12].b = {}, and everything is already zero.
+	bool is_zero_value = is_last_path_element && sema_initializer_list_is_empty(value);
+	if (is_zero_value && const_init->kind == CONST_INIT_ZERO) return;
+
 	Decl **elements = const_init->type->decl->strukt.members;
 
 	// Convert a zero struct and expand it into all its parts.
@@ -984,6 +981,13 @@ static inline void sema_update_const_initializer_with_designator_struct(ConstIni
 		return;
 	}
 
+	// Only this element is cleared, the others keep their values.
+	if (is_zero_value)
+	{
+		const_init_rewrite_to_zero(sub_element, elements[element->index]->type);
+		return;
+	}
+
 	// Otherwise we update the value in that particular element.
 	const_init_rewrite_to_value(sub_element, value);
 }
@@ -1078,7 +1082,7 @@ static inline ConstInitializer *sema_update_const_initializer_at_index(ConstInit
 		// need to do an insert.
 		if (initializer->init_array_value.index != index)
 		{
-			ASSERT(initializer->init_array_value.index > insert_index);
+			ASSERT(initializer->init_array_value.index > index);
 
 			// First we add a null at the end.
 			vec_add(array_elements, NULL);
@@ -1144,6 +1148,23 @@ static inline void sema_update_const_initializer_with_designator_array(ConstInit
 	}
 
 	Type *element_type = type_flatten(const_init->type->array.base);
+
+	// A string or bytes value has to be split into its elements, e.g. [0] = "abc", [0][1] = 'x'
+	if (const_init->kind == CONST_INIT_VALUE)
+	{
+		Expr *bytes = const_init->init_value;
+		ASSERT(expr_is_const_string(bytes) || expr_is_const_bytes(bytes));
+		ArraySize array_len = const_init->type->array.len;
+		ConstInitializer **elements = VECNEW(ConstInitializer *, array_len);
+		for (ArraySize i = 0; i < array_len; i++)
+		{
+			unsigned char byte = i < bytes->const_expr.bytes.len ? (unsigned char)bytes->const_expr.bytes.ptr[i] : 0;
+			vec_add(elements, const_init_new_value(expr_new_const_int(bytes->span, element_type, byte)));
+		}
+		const_init->kind = CONST_INIT_ARRAY_FULL;
+		const_init->init_array_full = elements;
+	}
+
 	DesignatorElement **next_element = curr + 1;
 	bool is_last_path_element = next_element == end;
 
@@ -1153,15 +1174,21 @@ static inline void sema_update_const_initializer_with_designator_array(ConstInit
 
 	for (ArrayIndex index = low_index; index <= high_index; index++)
 	{
-		ConstInitializer *inner_value = sema_update_const_initializer_at_index(const_init, element_type, index, &insert_index);
+		// The array may already have all its elements, e.g. [0] = { 1, 2 }, [0][1] = 3
+		ConstInitializer *inner_value = const_init->kind == CONST_INIT_ARRAY_FULL
+				? const_init->init_array_full[index]
+				: sema_update_const_initializer_at_index(const_init, element_type, index, &insert_index);
+
+		// The elements of a range may later be updated one by one, so they can't share the initializer.
+		Expr *element_value = index < high_index && expr_is_const_initializer(value) ? copy_expr_single(value) : value;
 
 		// Update
 		if (!is_last_path_element)
 		{
-			sema_update_const_initializer_with_designator(inner_value, next_element, end, value);
+			sema_update_const_initializer_with_designator(inner_value, next_element, end, element_value);
 			continue;
 		}
-		const_init_rewrite_to_value(inner_value, value);
+		const_init_rewrite_to_value(inner_value, element_value);
 	}
 }
 
-- 
2.43.0


From 43773bbab06e644a375ff5811ef332f29bee372e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:24 +0000
Subject: [PATCH 22/76] fix: bit ranges inside one byte of a bitstruct array
 cleared the bits above them

---
 src/compiler/llvm_codegen_expr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/llvm_codegen_expr.c b/src/compiler/llvm_codegen_expr.c
index 48ebc89..744a468 100644
--- a/src/compiler/llvm_codegen_expr.c
+++ b/src/compiler/llvm_codegen_expr.c
@@ -1105,7 +1105,7 @@ static inline void llvm_emit_update_bitstruct_array(GenContext *c,
 			if (i == end_byte && end_mod != 7)
 			{
 				res = llvm_emit_and_raw(c, res, llvm_const_low_bitmask(c, c->byte_type, 8, end_mod + 1));
-				mask = llvm_emit_or_raw(c, mask, llvm_const_high_bitmask(c, c->byte_type, 8, 7 - (int)end_bit));
+				mask = llvm_emit_or_raw(c, mask, llvm_const_high_bitmask(c, c->byte_type, 8, 7 - end_mod));
 			}
 			// Load the current value.
 			LLVMValueRef current = llvm_load(c, c->byte_type, byte_ptr, alignment, "");
-- 
2.43.0


From f214d57de39abcc410320cc62b21053ede9c6879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:24 +0000
Subject: [PATCH 23/76] fix: designated init of a member of a nested big endian
 bitstruct

---
 src/compiler/llvm_codegen_expr.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/compiler/llvm_codegen_expr.c b/src/compiler/llvm_codegen_expr.c
index 744a468..5bbffff 100644
--- a/src/compiler/llvm_codegen_expr.c
+++ b/src/compiler/llvm_codegen_expr.c
@@ -1750,7 +1750,9 @@ static void llvm_emit_initialize_designated_element(GenContext *c, BEValue *ref,
 					break;
 				}
 				LLVMValueRef current_val = llvm_load_value(c, &value);
+				if (is_bitswap) current_val = llvm_emit_bswap(c, current_val);
 				current_val = llvm_emit_bitstruct_value_update(c, current_val, type_bit_size(underlying_type), bitstruct_type, member, val);
+				if (is_bitswap) current_val = llvm_emit_bswap(c, current_val);
 				llvm_store_raw(c, &value, current_val);
 				break;
 			}
-- 
2.43.0


From 3d5e054913d9b046daff7341c983541361e30ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:25 +0000
Subject: [PATCH 24/76] fix: constant bitstructs cast from integers crashed or
 miscompared when folded

---
 src/compiler/sema_expr.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/compiler/sema_expr.c b/src/compiler/sema_expr.c
index d4dc173..1bef25f 100644
--- a/src/compiler/sema_expr.c
+++ b/src/compiler/sema_expr.c
@@ -7149,7 +7149,8 @@ static bool sema_expr_analyse_bit(SemaContext *context, Expr *expr, Expr *left,
 	}
 
 	// 3. Do constant folding if both sides are constant.
-	if (expr_both_const(left, right) && (sema_constant_fold_ops(left) || is_bitstruct))
+	bool is_const_bitstruct = is_bitstruct && expr_is_const_initializer(left) && expr_is_const_initializer(right);
+	if (expr_both_const(left, right) && (is_const_bitstruct || (sema_constant_fold_ops(left) && sema_constant_fold_ops(right))))
 	{
 		BinaryOp op = expr->binary_expr.operator;
 		expr_replace(expr, left);
@@ -7170,7 +7171,7 @@ static bool sema_expr_analyse_bit(SemaContext *context, Expr *expr, Expr *left,
 					UNREACHABLE;
 			}
 		}
-		else if (is_bitstruct)
+		else if (is_const_bitstruct)
 		{
 			ConstInitializer *merged = sema_merge_bitstruct_const_initializers(left->const_expr.initializer,
 																			   right->const_expr.initializer, op);
@@ -7496,7 +7497,9 @@ NEXT:
 DONE:
 
 	// 7. Do constant folding.
-	if (expr_both_const(left, right) && sema_constant_fold_ops(left))
+	// A constant bitstruct might either be an initializer, or an integer that was cast.
+	if (expr_both_const(left, right) && sema_constant_fold_ops(left)
+		&& (type_flatten(left->type)->type_kind != TYPE_BITSTRUCT || sema_constant_fold_ops(right)))
 	{
 		expr->const_expr.b = expr_const_compare(&left->const_expr, &right->const_expr, expr->binary_expr.operator);
 		expr->const_expr.const_kind = CONST_BOOL;
@@ -7883,7 +7886,7 @@ static inline bool sema_expr_analyse_bit_not(SemaContext *context, Expr *expr)
 	}
 
 VALID_VEC:
-	if (is_bitstruct && sema_cast_const(inner))
+	if (is_bitstruct && sema_cast_const(inner) && expr_is_const_initializer(inner))
 	{
 		expr_replace(expr, inner);
 		sema_invert_bitstruct_const_initializer(expr->const_expr.initializer);
@@ -10730,6 +10733,8 @@ bool sema_cast_const(Expr *expr)
 					return false;
 			}
 			if (!sema_cast_const(expr->access_resolved_expr.parent)) return false;
+			// A cast from an integer is constant, but it's not an initializer.
+			if (!expr_is_const_initializer(expr->access_resolved_expr.parent)) return false;
 			if (!sema_expr_fold_to_member(expr, expr->access_resolved_expr.parent, expr->access_resolved_expr.ref)) return false;
 			return true;
 		}
-- 
2.43.0


From cbc83e917efaf016558b68d32c7af0bec251306f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:25 +0000
Subject: [PATCH 25/76] fix: inverting a constant bitstruct lost the top bit of
 each member

---
 src/compiler/sema_initializers.c | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/compiler/sema_initializers.c b/src/compiler/sema_initializers.c
index cd0993c..b631643 100644
--- a/src/compiler/sema_initializers.c
+++ b/src/compiler/sema_initializers.c
@@ -674,19 +674,17 @@ void sema_invert_bitstruct_const_initializer(ConstInitializer *initializer)
 			continue;
 		}
 		Decl *member = members[i];
-		unsigned bits = member->var.end_bit - member->var.start_bit;
+		unsigned bits = member->var.end_bit - member->var.start_bit + 1;
 		if (init->kind == CONST_INIT_ZERO)
 		{
 			const_init_rewrite_to_value(init, expr_new_const_int(INVALID_SPAN, init->type, 0));
 		}
-		Int res = init->init_value->const_expr.ixx;
-		res = int_not(res);
-		Int neg = int_not((Int){ .type = res.type });
-		uint32_t bits_used = 128 - i128_clz(&neg.i);
-		if (bits_used > bits)
+		Int res = int_not(init->init_value->const_expr.ixx);
+		// Only the bits of the member are inverted.
+		if (bits < 128)
 		{
-			neg.i = i128_lshr64(neg.i, bits_used - bits);
-			res = int_and(res, neg);
+			res.i = i128_shl64(res.i, 128 - bits);
+			res.i = type_kind_is_signed(res.type) ? i128_ashr64(res.i, 128 - bits) : i128_lshr64(res.i, 128 - bits);
 		}
 		init->init_value->const_expr.ixx = res;
 	}
-- 
2.43.0


From a46c3bca6cea3876a628c83a32c54bc98a65cfa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:32 +0000
Subject: [PATCH 26/76] fix: division, remainder and right shift of unsigned
 vectors used signed operations

---
 src/compiler/llvm_codegen_expr.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/compiler/llvm_codegen_expr.c b/src/compiler/llvm_codegen_expr.c
index 5bbffff..371c7f7 100644
--- a/src/compiler/llvm_codegen_expr.c
+++ b/src/compiler/llvm_codegen_expr.c
@@ -4141,7 +4141,7 @@ void llvm_emit_binary(GenContext *c, BEValue *be_value, Expr *expr, BEValue *lhs
 				val = LLVMBuildFDiv(c->builder, lhs_value, rhs_value, "fdiv");
 				break;
 			}
-			val = type_is_unsigned(lhs_type)
+			val = !type_is_signed(lhs_type)
 				  ? LLVMBuildUDiv(c->builder, lhs_value, rhs_value, "udiv")
 				  : LLVMBuildSDiv(c->builder, lhs_value, rhs_value, "sdiv");
 			break;
@@ -4152,13 +4152,13 @@ void llvm_emit_binary(GenContext *c, BEValue *be_value, Expr *expr, BEValue *lhs
 				val = LLVMBuildFRem(c->builder, lhs_value, rhs_value, "fmod");
 				break;
 			}
-			val = type_is_unsigned(lhs_type)
+			val = !type_is_signed(lhs_type)
 				  ? LLVMBuildURem(c->builder, lhs_value, rhs_value, "umod")
 				  : LLVMBuildSRem(c->builder, lhs_value, rhs_value, "smod");
 			break;
 		case BINARYOP_SHR:
 			rhs_value = llvm_emit_shift_amount(c, rhs_value, rhs_type, lhs_value, lhs_type, expr->span);
-			val = type_is_unsigned(lhs_type)
+			val = !type_is_signed(lhs_type)
 				  ? LLVMBuildLShr(c->builder, lhs_value, rhs_value, "lshr")
 				  : LLVMBuildAShr(c->builder, lhs_value, rhs_value, "ashr");
 			val = LLVMBuildFreeze(c->builder, val, "");
-- 
2.43.0


From 989eb925109e3d1f9f1dcaf5b30493e2ac314638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:32 +0000
Subject: [PATCH 27/76] fix: $$abs of an unsigned value negated large values

---
 src/compiler/llvm_codegen_builtins.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/compiler/llvm_codegen_builtins.c b/src/compiler/llvm_codegen_builtins.c
index 6e78317..e39083d 100644
--- a/src/compiler/llvm_codegen_builtins.c
+++ b/src/compiler/llvm_codegen_builtins.c
@@ -498,6 +498,12 @@ void llvm_emit_abs_builtin(GenContext *c, BEValue *be_value, Expr *expr)
 	LLVMValueRef result;
 	if (intrinsic == intrinsic_id.abs)
 	{
+		if (!type_is_signed(type_lowering(args[0]->type)))
+		{
+			// An unsigned value is never negative.
+			llvm_value_set(be_value, arg_slots[0], expr->type);
+			return;
+		}
 		arg_slots[1] = llvm_get_zero_raw(c->bool_type);
 		result = llvm_emit_call_intrinsic(c, intrinsic, call_type, 1, arg_slots, 2);
 	}
-- 
2.43.0


From bd2eea88cc51f47ba610e1394731925ab46c5d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:00 +0000
Subject: [PATCH 28/76] fix: classify distinct types, unions and vectors in x64
 float argument registers

---
 src/compiler/abi/c_abi_x64.c | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/compiler/abi/c_abi_x64.c b/src/compiler/abi/c_abi_x64.c
index 744c3d7..7207891 100644
--- a/src/compiler/abi/c_abi_x64.c
+++ b/src/compiler/abi/c_abi_x64.c
@@ -490,8 +490,23 @@ bool x64_contains_float_at_offset(Type *type, unsigned offset)
 
 static Type *x64_get_fp_type_at_offset(Type *type, unsigned ir_offset)
 {
+	type = type_lowering(type);
 	if (!ir_offset && type_is_float(type)) return type;
-	if (type->type_kind == TYPE_STRUCT || type->type_kind == TYPE_UNION)
+	// Vectors are passed as a full eightbyte.
+	if (type->type_kind == TYPE_VECTOR) return type_double;
+	if (type->type_kind == TYPE_UNION)
+	{
+		// The members overlap, pick the widest float found.
+		Type *widest = NULL;
+		FOREACH(Decl *, member, type->decl->strukt.members)
+		{
+			if (type_size(member->type) <= ir_offset) continue;
+			Type *found = x64_get_fp_type_at_offset(member->type, ir_offset);
+			if (found && (!widest || type_size(found) > type_size(widest))) widest = found;
+		}
+		return widest;
+	}
+	if (type->type_kind == TYPE_STRUCT)
 	{
 		Decl *element = x64_get_member_at_offset(type->decl, ir_offset);
 		return x64_get_fp_type_at_offset(element->type, ir_offset - element->offset);
-- 
2.43.0


From 9415d35be0cdb225b96403199c2c6f3e774ab1ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:00 +0000
Subject: [PATCH 29/76] fix: crash on an integer literal suffix with fewer than
 8 bits

---
 src/compiler/parse_expr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/parse_expr.c b/src/compiler/parse_expr.c
index d8ce055..534af31 100644
--- a/src/compiler/parse_expr.c
+++ b/src/compiler/parse_expr.c
@@ -1524,7 +1524,7 @@ EXIT:
 	Type *type_base = NULL;
 	if (type_bits)
 	{
-		if (type_bits < 0 || !is_power_of_two((uint64_t)type_bits) || type_bits > 128)
+		if (type_bits < 8 || !is_power_of_two((uint64_t)type_bits) || type_bits > 128)
 		{
 			PRINT_ERROR_HERE("Integer type suffix should be i8, i16, i32, i64 or i128.");
 			return poisoned_expr;
-- 
2.43.0


From aec0f974d52152073b49be54dc1a11db2c0123fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:00 +0000
Subject: [PATCH 30/76] fix: base64 literal concatenation wrote past the new
 part

---
 src/compiler/parse_expr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/parse_expr.c b/src/compiler/parse_expr.c
index 534af31..8149308 100644
--- a/src/compiler/parse_expr.c
+++ b/src/compiler/parse_expr.c
@@ -1692,7 +1692,7 @@ static Expr *parse_bytes_expr(ParseContext *c, Expr *left)
 		{
 			const char *base64data = c->data.lex_start + 4;
 			const char *end = base64data + c->data.lex_len - 1 - 4;
-			parse_base64(new_data + len, new_data + next_len, base64data, end);
+			parse_base64(new_data + len, new_data + new_len, base64data, end);
 		}
 		else
 		{
-- 
2.43.0


From 5aecbbaa38324bd1eb2aad8813bc1bf4bfc86466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:00 +0000
Subject: [PATCH 31/76] fix: hex floats with a 0X prefix were read as zero

---
 src/compiler/parse_expr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/parse_expr.c b/src/compiler/parse_expr.c
index 8149308..0e6c8da 100644
--- a/src/compiler/parse_expr.c
+++ b/src/compiler/parse_expr.c
@@ -1770,7 +1770,7 @@ static Expr *parse_double(ParseContext *c, Expr *left)
 	char *err;
 	Expr *number = EXPR_NEW_TOKEN(EXPR_CONST);
 	const char *original = symstr(c);
-	bool is_hex = original[0] == '0' && original[1] == 'x';
+	bool is_hex = original[0] == '0' && (original[1] | 32) == 'x';
 	// This is set to try to print in a similar manner as the input.
 	number->const_expr.is_hex = is_hex;
 	Float f = is_hex ? float_from_hex(original, &err) : float_from_string(original, &err);
-- 
2.43.0


From 3e2cbb7ed11a41f47cde56561b9220d1399b06ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:00 +0000
Subject: [PATCH 32/76] fix: detect too large decimal literals and literals
 that wrap to negative values

---
 src/compiler/parse_expr.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/compiler/parse_expr.c b/src/compiler/parse_expr.c
index 0e6c8da..ac85cca 100644
--- a/src/compiler/parse_expr.c
+++ b/src/compiler/parse_expr.c
@@ -1505,10 +1505,12 @@ Expr *parse_integer(ParseContext *c, Expr *left)
 					default:
 						break;
 				}
-				uint64_t old_top = i.high;
+				uint64_t digit = (uint64_t)(ch - '0');
+				// UINT128_MAX is ten times this plus 5.
+				CmpRes cmp = i128_ucomp(i, (Int128) { UINT64_MAX / 10, 0x9999999999999999ULL });
+				if (cmp == CMP_GT || (cmp == CMP_EQ && digit > 5)) wrapped = true;
 				i = i128_mult64(i, 10);
-				i = i128_add64(i, (uint64_t)(ch - '0'));
-				if (!wrapped && old_top > i.high) wrapped = true;
+				i = i128_add64(i, digit);
 			}
 			break;
 	}
@@ -1571,13 +1573,12 @@ EXIT:
 	else
 	{
 		int min_bits = type_size(type_cint) * 8;
-		Int test = { .i = i };
+		Int test = { .i = i, .type = TYPE_U128 };
 		for (int type_kind = 0; type_kind < 5; type_kind++)
 		{
 			TypeKind kind = (is_unsigned ? TYPE_U8 : TYPE_I8) + type_kind;
 			int bitsize = type_kind_bitsize(kind);
 			if (bitsize < min_bits) continue;
-			test.type = kind;
 			if (int_fits(test, kind))
 			{
 				type_base = is_unsigned ? type_int_unsigned_by_bitsize(bitsize) : type_int_signed_by_bitsize(bitsize);
@@ -1587,7 +1588,8 @@ EXIT:
 		if (!type_base) type_base = is_unsigned ? type_cuint : type_cint;
 	}
 	expr_int->const_expr.ixx = (Int) { i, type_base->type_kind };
-	if (!int_fits(expr_int->const_expr.ixx, type_base->type_kind))
+	// The literal itself is never negative.
+	if (!int_fits((Int) { i, TYPE_U128 }, type_base->type_kind))
 	{
 		unsigned radix = 10;
 		if (hex_characters) radix = 16;
-- 
2.43.0


From 532e2891b2de4cdca970314ac0845da1b1082063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:01 +0000
Subject: [PATCH 33/76] fix: float suffix F was ignored

---
 src/compiler/float.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/float.c b/src/compiler/float.c
index 9ff96c2..ae8ff03 100644
--- a/src/compiler/float.c
+++ b/src/compiler/float.c
@@ -108,7 +108,7 @@ TypeKind float_suffix(char c, const char **index_ref, char** error_ref)
 		(*index_ref) += 4;
 		return TYPE_BF16;
 	}
-	if (c == 'f')
+	if (c == 'f' || c == 'F')
 	{
 		int i = 0;
 		while ((c = *((*index_ref)++)) && (c >= '0' && c <= '9'))
-- 
2.43.0


From ddd362ea025e46db99abd974f4178b474e64d39a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:01 +0000
Subject: [PATCH 34/76] fix: round float literals once, to the type of the
 literal

---
 src/compiler/float.c | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/compiler/float.c b/src/compiler/float.c
index ae8ff03..7866b26 100644
--- a/src/compiler/float.c
+++ b/src/compiler/float.c
@@ -159,6 +159,18 @@ Real real_round_to_half(Real d, TypeKind kind)
 	return rounded;
 }
 
+// Round to the literal's type, a value too large for it is an error.
+static Float float_literal(double d, TypeKind kind, char **error)
+{
+	if (kind == TYPE_F16 || kind == TYPE_BF16) d = real_round_to_half(d, kind);
+	if (!isfinite(d))
+	{
+		if (error) *error = err_float_out_of_range;
+		return (Float){ .type = TYPE_POISONED };
+	}
+	return (Float){ d, kind };
+}
+
 Float float_from_string(const char *string, char **error)
 {
 	const char *index = string;
@@ -198,7 +210,8 @@ Float float_from_string(const char *string, char **error)
 	const char *str = scratch_buffer_to_string();
 	char *end = NULL;
 	errno = 0;
-	double d = strtod(str, &end);
+	// Rounding to double first would round a float twice.
+	double d = kind == TYPE_F32 ? (double)strtof(str, &end) : strtod(str, &end);
 	if (d == HUGE_VAL && errno == ERANGE)
 	{
 		if (error) *error = err_float_out_of_range;
@@ -210,7 +223,7 @@ Float float_from_string(const char *string, char **error)
 		if (error) *error = err_float_format_invalid;
 		return (Float){ .type = TYPE_POISONED };
 	}
-	return (Float){ d, kind };
+	return float_literal(d, kind, error);
 }
 
 /**
@@ -260,7 +273,8 @@ Float float_from_hex(const char *string, char **error)
 	const char *str = scratch_buffer_to_string();
 	char *end = NULL;
 	errno = 0;
-	double d = strtod(str, &end);
+	// Rounding to double first would round a float twice.
+	double d = kind == TYPE_F32 ? (double)strtof(str, &end) : strtod(str, &end);
 	if (d == HUGE_VAL && errno == ERANGE)
 	{
 		if (error) *error = err_float_out_of_range;
@@ -271,5 +285,5 @@ Float float_from_hex(const char *string, char **error)
 		if (error) *error = err_float_format_invalid;
 		return (Float){ .type = TYPE_POISONED };
 	}
-	return (Float){ d, kind };
+	return float_literal(d, kind, error);
 }
\ No newline at end of file
-- 
2.43.0


From 48cac33e03b3b9e05c34b1789a223f4cddd28963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:04 +0000
Subject: [PATCH 35/76] fix: reversed operator overloads rejected optional
 operands

---
 src/compiler/sema_expr.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/compiler/sema_expr.c b/src/compiler/sema_expr.c
index 1bef25f..d64775f 100644
--- a/src/compiler/sema_expr.c
+++ b/src/compiler/sema_expr.c
@@ -10892,7 +10892,8 @@ bool sema_insert_method_call(SemaContext *context, Expr *method_call, Decl *meth
 	Expr *resolve = method_call;
 	if (reverse_overload)
 	{
-		Decl *temp = decl_new_generated_var(method_decl->func_decl.signature.params[1]->type, VARDECL_LOCAL, parent->span);
+		Type *temp_type = type_add_optional(method_decl->func_decl.signature.params[1]->type, IS_OPTIONAL(parent));
+		Decl *temp = decl_new_generated_var(temp_type, VARDECL_LOCAL, parent->span);
 		Expr *generate = expr_generate_decl(temp, expr_copy(parent));
 		parent->expr_kind = EXPR_IDENTIFIER;
 		parent->ident_expr = temp;
-- 
2.43.0


From 8b78b694c78c62f8469a09afbe70bca1d1df157d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:04 +0000
Subject: [PATCH 36/76] fix: crash on an operator overload with an optional
 operand

---
 src/compiler/sema_expr.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/compiler/sema_expr.c b/src/compiler/sema_expr.c
index d64775f..bd8f0ea 100644
--- a/src/compiler/sema_expr.c
+++ b/src/compiler/sema_expr.c
@@ -10915,7 +10915,7 @@ bool sema_insert_method_call(SemaContext *context, Expr *method_call, Decl *meth
 			.call_expr.is_func_ref = true,
 			.call_expr.is_type_method = true,
 	};
-	Type *type = parent->type->canonical;
+	Type *type = type_no_optional(parent->type)->canonical;
 	Decl *first_param = method_decl->func_decl.signature.params[0];
 	Type *first = first_param->type->canonical;
 	// Deref / addr as needed.
@@ -10943,7 +10943,7 @@ bool sema_insert_method_call(SemaContext *context, Expr *method_call, Decl *meth
 		if (!sema_analyse_expr(context, parent)) return false;
 		expr_rewrite_insert_deref(parent);
 	}
-	ASSERT_SPAN(method_call, parent && parent->type && first == parent->type->canonical);
+	ASSERT_SPAN(method_call, parent && parent->type && first == type_no_optional(parent->type)->canonical);
 	if (!sema_expr_analyse_general_call(context, method_call, method_decl, parent, false,
 										NULL)) return expr_poison(method_call);
 	method_call->resolve_status = RESOLVE_DONE;
-- 
2.43.0


From 48b053bc330ac9038a6d4540584657f701e3b0e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:26 +0000
Subject: [PATCH 37/76] fix: reversed shift overloads were only found for user
 types on the left

---
 src/compiler/sema_expr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/sema_expr.c b/src/compiler/sema_expr.c
index bd8f0ea..1d70d11 100644
--- a/src/compiler/sema_expr.c
+++ b/src/compiler/sema_expr.c
@@ -7242,7 +7242,7 @@ static bool sema_expr_analyse_shift(SemaContext *context, Expr *expr, Expr *left
 	Type *lhs_type = type_no_optional(left->type)->canonical;
 	bool shr = expr->binary_expr.operator == BINARYOP_SHR;
 
-	if (type_is_user_defined(lhs_type))
+	if (type_is_user_defined(lhs_type) || type_is_user_defined(type_no_optional(right->type)->canonical))
 	{
 		OperatorOverload overload = shr ? OVERLOAD_SHR : OVERLOAD_SHL;
 		if (!sema_replace_with_overload(context, expr, left, right, lhs_type, &overload)) return false;
-- 
2.43.0


From defdd06e7ac9b20943a5a49b2be26c553936c495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:26 +0000
Subject: [PATCH 38/76] fix: writing to an overloaded index counted from the
 end changed a copy

---
 src/compiler/sema_expr.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/compiler/sema_expr.c b/src/compiler/sema_expr.c
index 1d70d11..225882f 100644
--- a/src/compiler/sema_expr.c
+++ b/src/compiler/sema_expr.c
@@ -3364,11 +3364,19 @@ static inline bool sema_expr_analyse_subscript_lvalue(SemaContext *context, Expr
 				RETURN_SEMA_ERROR(subscripted, "Cannot index '%s' from the end, since there is no 'len' overload.", type_to_error_string(subscripted->type));
 			}
 			if (!sema_analyse_expr(context, current_expr)) return false;
+			// Hold the indexed value by reference if possible, so that it is the original that is changed.
+			bool by_ref = expr_may_addr(current_expr);
+			if (by_ref) expr_insert_addr(current_expr);
 			Decl *temp = decl_new_generated_var(current_expr->type, VARDECL_PARAM, current_expr->span);
 			Expr *decl = expr_generate_decl(temp, expr_copy(current_expr));
 			expr_rewrite_two(current_expr, decl, expr_variable(temp));
 			if (!sema_analyse_expr(context, current_expr)) return false;
 			Expr *var_for_len = expr_variable(temp);
+			if (by_ref)
+			{
+				expr_rewrite_insert_deref(current_expr);
+				expr_rewrite_insert_deref(var_for_len);
+			}
 			Expr *len_expr = expr_new(EXPR_CALL, expr->span);
 			if (!sema_insert_method_call(context, len_expr, len, var_for_len, NULL, false)) return false;
 			if (!sema_analyse_expr(context, len_expr)) return false;
@@ -3480,11 +3488,19 @@ static inline bool sema_expr_analyse_subscript(SemaContext *context, Expr *expr,
 				RETURN_SEMA_ERROR(subscripted, "Cannot index '%s' from the end, since there is no 'len' overload.", type_to_error_string(subscripted->type));
 			}
 			if (!sema_analyse_expr(context, current_expr)) return false;
+			// Hold the indexed value by reference if possible, so that it is the original that is changed.
+			bool by_ref = expr_may_addr(current_expr);
+			if (by_ref) expr_insert_addr(current_expr);
 			Decl *temp = decl_new_generated_var(current_expr->type, VARDECL_PARAM, current_expr->span);
 			Expr *decl = expr_generate_decl(temp, expr_copy(current_expr));
 			expr_rewrite_two(current_expr, decl, expr_variable(temp));
 			if (!sema_analyse_expr(context, current_expr)) return false;
 			Expr *var_for_len = expr_variable(temp);
+			if (by_ref)
+			{
+				expr_rewrite_insert_deref(current_expr);
+				expr_rewrite_insert_deref(var_for_len);
+			}
 			Expr *len_expr = expr_new(EXPR_CALL, expr->span);
 			if (!sema_insert_method_call(context, len_expr, len, var_for_len, NULL, false)) return false;
 			if (!sema_analyse_expr(context, len_expr)) return false;
-- 
2.43.0


From c458acef1454a1bf5c3f81241801c62427f1f64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:26 +0000
Subject: [PATCH 39/76] fix: crash on foreach by value over a type with only a
 &[] overload

---
 src/compiler/sema_stmts.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/compiler/sema_stmts.c b/src/compiler/sema_stmts.c
index 340bf52..7053ddc 100644
--- a/src/compiler/sema_stmts.c
+++ b/src/compiler/sema_stmts.c
@@ -1492,6 +1492,11 @@ static inline bool sema_analyse_foreach_stmt(SemaContext *context, Ast *statemen
 		{
 			RETURN_SEMA_ERROR(enumerator, "%s does not support 'foreach' by reference, but you iterate by value.", type_quoted_error_string(enumerator->type));
 		}
+		if (!by_val && !value_by_ref)
+		{
+			if (value_type) goto SKIP_OVERLOAD;
+			RETURN_SEMA_ERROR(enumerator, "%s does not support 'foreach' by value, but you iterate by value.", type_quoted_error_string(enumerator->type));
+		}
 		if (!decl_ok(len) || !decl_ok(by_val) || !decl_ok(by_ref)) return false;
 		index_macro = value_by_ref ? by_ref : by_val;
 		ASSERT(index_macro);
-- 
2.43.0


From c30c941e1acee336af66bf73798a8acc131177bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:54 +0000
Subject: [PATCH 40/76] fix: constant strings that differ after a zero byte
 compared equal

---
 src/compiler/number.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/number.c b/src/compiler/number.c
index 3cc1530..4ed5fa8 100644
--- a/src/compiler/number.c
+++ b/src/compiler/number.c
@@ -161,7 +161,7 @@ bool expr_const_compare(const ExprConst *left, const ExprConst *right, BinaryOp
 				is_eq = true;
 				goto RETURN;
 			}
-			is_eq = !strncmp(left->bytes.ptr, right->bytes.ptr, left->bytes.len);
+			is_eq = !memcmp(left->bytes.ptr, right->bytes.ptr, left->bytes.len);
 			goto RETURN;
 		case CONST_TYPEID:
 			is_eq = left->typeid == right->typeid;
-- 
2.43.0


From abdfb65fe55b732fac562a6d893c23cbbd6e9d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:54 +0000
Subject: [PATCH 41/76] fix: $stringify took along the text between its ')' and
 the next token

---
 src/compiler/parse_expr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/parse_expr.c b/src/compiler/parse_expr.c
index ac85cca..34da8c6 100644
--- a/src/compiler/parse_expr.c
+++ b/src/compiler/parse_expr.c
@@ -682,7 +682,7 @@ static Expr *parse_ct_stringify(ParseContext *c, Expr *left)
 	advance(c);
 	CONSUME_OR_RET(TOKEN_LPAREN, poisoned_expr);
 	ASSIGN_EXPR_OR_RET(Expr *inner, parse_expr(c), poisoned_expr);
-	const char *end = c->lexer.lexing_start - 1;
+	const char *end = c->data.lex_start;
 	CONSUME_OR_RET(TOKEN_RPAREN, poisoned_expr);
 	if (inner->expr_kind == EXPR_HASH_IDENT)
 	{
-- 
2.43.0


From dccdf612fde67fbf1a88eddea02e64e17be324a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:54 +0000
Subject: [PATCH 42/76] fix: $foreach over a constant slice skipped or rejected
 lists with zeroes

---
 src/compiler/sema_stmts.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/sema_stmts.c b/src/compiler/sema_stmts.c
index 7053ddc..1bb4742 100644
--- a/src/compiler/sema_stmts.c
+++ b/src/compiler/sema_stmts.c
@@ -2650,7 +2650,7 @@ static inline bool sema_analyse_ct_foreach_stmt(SemaContext *context, Ast *state
 			initializer = collection->const_expr.initializer;
 		INITIALIZER:;
 			ConstInitType init_type = initializer->kind;
-			const_list_type = type_flatten(collection->type);
+			const_list_type = type_flatten(initializer->type);
 			if (const_list_type->type_kind == TYPE_ARRAY || const_list_type->type_kind == TYPE_VECTOR)
 			{
 				count = const_list_type->array.len;
-- 
2.43.0


From bf6f644981ad4e5e12186b7ecb08e99b2dee8ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:54 +0000
Subject: [PATCH 43/76] fix: $defined on a #parameter passed on from another
 macro crashed

---
 src/compiler/sema_expr.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/compiler/sema_expr.c b/src/compiler/sema_expr.c
index 225882f..73815c2 100644
--- a/src/compiler/sema_expr.c
+++ b/src/compiler/sema_expr.c
@@ -9546,10 +9546,10 @@ static inline bool sema_expr_analyse_ct_defined(SemaContext *context, Expr *expr
 		{
 			case EXPR_OTHER_CONTEXT:
 				active_context->call_env.in_no_eval = in_no_eval;
-				active_context = expr->expr_other_context.context;
+				active_context = main_expr->expr_other_context.context;
 				in_no_eval = active_context->call_env.in_no_eval;
 				active_context->call_env.in_no_eval = true;
-				main_expr = expr->expr_other_context.inner;
+				main_expr = main_expr->expr_other_context.inner;
 				goto RETRY;
 			case EXPR_ACCESS_UNRESOLVED:
 				if (!sema_expr_analyse_access(active_context, main_expr, &failed, CHECK_VALUE, false))
@@ -9671,7 +9671,7 @@ static inline bool sema_expr_analyse_ct_defined(SemaContext *context, Expr *expr
 				UNREACHABLE
 			case EXPR_BINARY:
 				main_expr->resolve_status = RESOLVE_RUNNING;
-				if (!sema_expr_analyse_binary(context, NULL, main_expr, &failed))
+				if (!sema_expr_analyse_binary(active_context, NULL, main_expr, &failed))
 				{
 					if (!failed) goto FAIL;
 					success = false;
-- 
2.43.0


From 4e85922e10b1d7066c4432ad8a02691ccecdf4c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:54 +0000
Subject: [PATCH 44/76] fix: slicing a constant string stopped at a zero byte

---
 src/compiler/sema_expr.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/compiler/sema_expr.c b/src/compiler/sema_expr.c
index 73815c2..02ed51a 100644
--- a/src/compiler/sema_expr.c
+++ b/src/compiler/sema_expr.c
@@ -3913,6 +3913,8 @@ static inline bool sema_expr_analyse_slice(SemaContext *context, Expr *expr, Che
 			{
 				const char *data = str_copy(subscripted->const_expr.bytes.ptr + range->start_index, range->len_index);
 				expr_rewrite_const_string(expr, data);
+				// The part may contain zeroes.
+				expr->const_expr.bytes.len = range->len_index;
 				return true;
 			}
 			case CONST_BYTES:
-- 
2.43.0


From c9f6f27a4bcf742713fd67049e4a208c8305f83d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:54 +0000
Subject: [PATCH 45/76] fix: slicing a sparse constant array kept the old
 element positions

---
 src/compiler/sema_expr.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/compiler/sema_expr.c b/src/compiler/sema_expr.c
index 02ed51a..4efa869 100644
--- a/src/compiler/sema_expr.c
+++ b/src/compiler/sema_expr.c
@@ -3857,7 +3857,9 @@ static inline void sema_slice_initializer(Expr *expr, Expr *subscripted, Range *
 					vec_erase_at(initializer->init_array.elements, i);
 					elements--;
 					i--;
+					continue;
 				}
+				element->init_array_value.index = index - range->start_index;
 			}
 			if (vec_size(initializer->init_array.elements) == 0)
 			{
-- 
2.43.0


From afcaef84656ae4aba4eea6f23e66c1faf808beaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:54 +0000
Subject: [PATCH 46/76] fix: a run-time value could be assigned to a compile
 time variable

---
 src/compiler/sema_expr.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/compiler/sema_expr.c b/src/compiler/sema_expr.c
index 4efa869..dab3a6b 100644
--- a/src/compiler/sema_expr.c
+++ b/src/compiler/sema_expr.c
@@ -5977,6 +5977,10 @@ static bool sema_expr_analyse_ct_identifier_assign(SemaContext *context, Expr *e
 		RETURN_SEMA_ERROR(left, "Compile time variables may only be modified in the scope they are defined in.");
 	}
 
+	if (right->expr_kind == EXPR_TYPEINFO || !expr_is_runtime_const(right))
+	{
+		RETURN_SEMA_ERROR(right, "Expected a constant expression assigned to '%s'.", ident->name);
+	}
 	ident->var.init_expr = right;
 	expr_replace(expr, right);
 	ident->type = right->type;
-- 
2.43.0


From 8a801ea1127ccb5aafd6269cea4b01cb56e6f729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:54 +0000
Subject: [PATCH 47/76] fix: compile time list operations changed the constants
 they started from

---
 src/compiler/compiler_internal.h |  1 +
 src/compiler/sema_const.c        |  4 ++--
 src/compiler/sema_expr.c         | 40 +++++++++++++++++++++++++-------
 3 files changed, 35 insertions(+), 10 deletions(-)

diff --git a/src/compiler/compiler_internal.h b/src/compiler/compiler_internal.h
index d9280f3..887fe2c 100644
--- a/src/compiler/compiler_internal.h
+++ b/src/compiler/compiler_internal.h
@@ -2318,6 +2318,7 @@ bool sema_analyse_expr_rhs(SemaContext *context, Type *to, Expr *expr, bool allo
 
 bool sema_analyse_expr(SemaContext *context, Expr *expr);
 bool sema_cast_const(Expr *expr);
+bool sema_cast_const_copy(Expr *expr);
 
 bool sema_expr_check_discard(SemaContext *context, Expr *expr);
 bool sema_analyse_inferred_expr(SemaContext *context, Type *to, Expr *expr);
diff --git a/src/compiler/sema_const.c b/src/compiler/sema_const.c
index 9d63b81..7d2957f 100644
--- a/src/compiler/sema_const.c
+++ b/src/compiler/sema_const.c
@@ -308,9 +308,9 @@ bool sema_expr_analyse_ct_concat(SemaContext *context, Expr *concat_expr, Expr *
 	bool use_array = true;
 	Type *indexed_type = NULL;
 	if (!sema_analyse_expr(context, left)) return false;
-	if (!sema_cast_const(left)) RETURN_SEMA_ERROR(left, "Expected this to evaluate to a constant value.");
+	if (!sema_cast_const_copy(left)) RETURN_SEMA_ERROR(left, "Expected this to evaluate to a constant value.");
 	if (!sema_analyse_expr(context, right)) return false;
-	if (!sema_cast_const(right)) RETURN_SEMA_ERROR(right, "Expected this to evaluate to a constant value.");
+	if (!sema_cast_const_copy(right)) RETURN_SEMA_ERROR(right, "Expected this to evaluate to a constant value.");
 	Type *element_type = left->type->canonical;
 	Type *right_type = right->type->canonical;
 	switch (left->const_expr.const_kind)
diff --git a/src/compiler/sema_expr.c b/src/compiler/sema_expr.c
index dab3a6b..191205a 100644
--- a/src/compiler/sema_expr.c
+++ b/src/compiler/sema_expr.c
@@ -3907,7 +3907,10 @@ static inline bool sema_expr_analyse_slice(SemaContext *context, Expr *expr, Che
 	Range *range = &expr->slice_expr.range;
 	if (!sema_expr_analyse_range(context, range, length, env)) return false;
 	if (range->is_optional) optional = true;
-	if (check == CHECK_VALUE && sema_cast_const(subscripted) && range->range_type == RANGE_CONST_RANGE)
+	bool is_global_init = context->call_env.kind == CALL_ENV_GLOBAL_INIT;
+	if (check == CHECK_VALUE
+		&& (is_global_init ? sema_cast_const(subscripted) : sema_cast_const_copy(subscripted))
+		&& range->range_type == RANGE_CONST_RANGE)
 	{
 		switch (subscripted->const_expr.const_kind)
 		{
@@ -6004,6 +6007,18 @@ static bool sema_expr_analyse_ct_subscript_rhs(SemaContext *context, Decl *ct_va
 	return true;
 }
 
+// Changing an element requires a constant, but the variable might still refer to a global one.
+static Expr *sema_ct_subscript_own_value(SemaContext *context, Expr *expr, Decl *ct_var)
+{
+	Expr *value = ct_var->var.init_expr;
+	if (!sema_cast_const_copy(value))
+	{
+		SEMA_ERROR(expr, "Only constant values can be modified at compile time.");
+		return poisoned_expr;
+	}
+	return value;
+}
+
 static bool sema_expr_analyse_ct_subscript_set_value(SemaContext *context, Expr *left, Decl *ct_var, Expr *right)
 {
 	if (context->call_env.in_other)
@@ -6011,8 +6026,7 @@ static bool sema_expr_analyse_ct_subscript_set_value(SemaContext *context, Expr
 		RETURN_SEMA_ERROR(left, "Compile time variables may only be modified in the scope they are defined in.");
 	}
 	ArrayIndex index = left->ct_subscript_expr.index;
-	Expr *original_value = ct_var->var.init_expr;
-	ASSERT_SPAN(original_value, original_value->expr_kind == EXPR_CONST);
+	ASSIGN_EXPR_OR_RET(Expr *original_value, sema_ct_subscript_own_value(context, left, ct_var), false);
 	ExprConst *expr_const = &original_value->const_expr;
 
 	switch (expr_const->const_kind)
@@ -6204,9 +6218,8 @@ static bool sema_binary_analyse_ct_subscript_op_assign(SemaContext *context, Exp
 
 	Decl *left_var = left->ct_subscript_expr.var;
 	ArrayIndex idx = left->ct_subscript_expr.index;
-	Expr *lhs_expr = left_var->var.init_expr;
-	ASSERT_SPAN(lhs_expr, lhs_expr->expr_kind == EXPR_CONST);
-	Expr *value = expr_from_const_expr_at_index(left_var->var.init_expr, idx);
+	ASSIGN_EXPR_OR_RET(Expr *lhs_expr, sema_ct_subscript_own_value(context, left, left_var), false);
+	ASSIGN_EXPR_OR_RET(Expr *value, expr_from_const_expr_at_index(lhs_expr, idx), false);
 
 	BinaryOp op = binaryop_assign_base_op(expr->binary_expr.operator);
 	expr->binary_expr = (ExprBinary) { .left = exprid(value), .right = expr->binary_expr.right, .operator = op };
@@ -8006,7 +8019,7 @@ static inline bool sema_expr_analyse_not(SemaContext *context, Expr *expr)
 static inline bool sema_expr_analyse_ct_subscript_incdec(SemaContext *context, Expr *expr, Expr *inner)
 {
 	Decl *ct_var = inner->ct_subscript_expr.var;
-	Expr *init = ct_var->var.init_expr;
+	ASSIGN_EXPR_OR_RET(Expr *init, sema_ct_subscript_own_value(context, inner, ct_var), false);
 	ArrayIndex index = inner->ct_subscript_expr.index;
 	bool post = expr->expr_kind == EXPR_POST_UNARY;
 	bool dec = expr->unary_expr.operator == UNARYOP_DEC;
@@ -10337,7 +10350,7 @@ static inline bool sema_cast_ct_ident_rvalue(SemaContext *context, Expr *expr)
 		RETURN_SEMA_ERROR(expr, "'%s' was not yet initialized to any value, assign a value to it before use.", decl->name);
 	}
 	if (!sema_analyse_expr(context, copy)) return false;
-	sema_cast_const(copy);
+	sema_cast_const_copy(copy);
 	expr_replace(expr, copy);
 	return true;
 }
@@ -10784,6 +10797,17 @@ bool sema_cast_const(Expr *expr)
 	UNREACHABLE
 }
 
+/**
+ * Like sema_cast_const, but a constant that was looked up is copied, so that it is safe to change in place.
+ */
+bool sema_cast_const_copy(Expr *expr)
+{
+	if (expr->expr_kind == EXPR_CONST) return true;
+	if (!sema_cast_const(expr)) return false;
+	expr_replace(expr, copy_expr_single(expr));
+	return true;
+}
+
 bool sema_analyse_inferred_expr(SemaContext *context, Type *to, Expr *expr)
 {
 	to = type_no_optional(to);
-- 
2.43.0


From c62d207cde2b3d31c9fe5b8f77d008a0fc4c1a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:52 +0000
Subject: [PATCH 48/76] fix: $vasplat rejected a range ending at the last
 argument and crashed on a reversed one

---
 src/compiler/sema_expr.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/compiler/sema_expr.c b/src/compiler/sema_expr.c
index 191205a..b78ffe7 100644
--- a/src/compiler/sema_expr.c
+++ b/src/compiler/sema_expr.c
@@ -5723,12 +5723,17 @@ static Expr **sema_vasplat_insert(SemaContext *context, Expr **init_expressions,
 		{
 			end_idx++;
 		}
-		if (param_count <= end_idx)
+		if (param_count < end_idx)
 		{
 			SEMA_ERROR(expr, "End index would exceed the number of parameters.");
 			return NULL;
 		}
 	}
+	if (end_idx < start_idx)
+	{
+		SEMA_ERROR(expr, "The start index is greater than the end index.");
+		return NULL;
+	}
 
 	unsigned added = end_idx - start_idx;
 
-- 
2.43.0


From 5794a81a25fa6cf18a052bdd5a0b3fb810e3a074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:52 +0000
Subject: [PATCH 49/76] fix: 'x.typeid ? a : b' did not parse

---
 src/compiler/parse_expr.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/compiler/parse_expr.c b/src/compiler/parse_expr.c
index 34da8c6..1d56eae 100644
--- a/src/compiler/parse_expr.c
+++ b/src/compiler/parse_expr.c
@@ -1091,6 +1091,18 @@ static Expr *parse_access_expr(ParseContext *c, Expr *left)
 	advance_and_verify(c, TOKEN_DOT);
 	Expr *access_expr = expr_new_expr(EXPR_ACCESS_UNRESOLVED, left);
 	access_expr->access_unresolved_expr.parent = left;
+	if (tok_is(c, TOKEN_TYPEID))
+	{
+		// Only the name: in `x.typeid ? a : b` the `?` does not make it an optional type.
+		Expr *child = EXPR_NEW_TOKEN(EXPR_TYPEINFO);
+		child->type_expr = type_info_new_base(type_typeid, c->span);
+		child->type = type_typeinfo;
+		child->resolve_status = RESOLVE_DONE;
+		advance_and_verify(c, TOKEN_TYPEID);
+		access_expr->access_unresolved_expr.child = child;
+		RANGE_EXTEND_PREV(access_expr);
+		return access_expr;
+	}
 	ASSIGN_EXPR_OR_RET(access_expr->access_unresolved_expr.child, parse_precedence(c, PREC_PRIMARY), poisoned_expr);
 	RANGE_EXTEND_PREV(access_expr);
 	return access_expr;
-- 
2.43.0


From e36ab5ca6ad29d277c371c15cd3b66288651e5a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:52 +0000
Subject: [PATCH 50/76] fix: invalid code or a wrong branch when one side of
 ??, &&, ||, ?: or if (try) is never reached

---
 src/compiler/llvm_codegen_expr.c | 45 +++++++++++++++++++++++---------
 1 file changed, 32 insertions(+), 13 deletions(-)

diff --git a/src/compiler/llvm_codegen_expr.c b/src/compiler/llvm_codegen_expr.c
index 371c7f7..09a142c 100644
--- a/src/compiler/llvm_codegen_expr.c
+++ b/src/compiler/llvm_codegen_expr.c
@@ -27,6 +27,7 @@ static inline void llvm_emit_initialize_reference_list(GenContext *c, BEValue *r
 static inline void llvm_emit_initialize_reference_vector(GenContext *c, BEValue *ref, Type *real_type, Expr **elements);
 static inline void llvm_emit_initializer_list_expr(GenContext *c, BEValue *value, Expr *expr);
 static inline void llvm_emit_macro_block(GenContext *c, BEValue *be_value, Expr *expr);
+static bool llvm_emit_br_if_reachable(GenContext *c, LLVMBasicBlockRef next_block);
 static inline void llvm_emit_post_inc_dec(GenContext *c, BEValue *value, Expr *expr, int diff, bool allow_wrap);
 static inline void llvm_emit_pre_inc_dec(GenContext *c, BEValue *value, Expr *expr, int diff, bool allow_wrap);
 static inline void llvm_emit_return_block(GenContext *c, BEValue *be_value, Type *type, AstId current, BlockExit **block_exit);
@@ -3013,7 +3014,7 @@ static void llvm_emit_logical_and_or(GenContext *c, BEValue *be_value, Expr *exp
 	LLVMValueRef result_on_skip = LLVMConstInt(c->bool_type, op == BINARYOP_AND ? 0 : 1, 0);
 
 	// We might end this with a jump, eg (foo()? || bar()) where foo() is a macro and guaranteed not to exit.
-	if (!lhs_end_block)
+	if (!lhs_end_block || !llvm_emit_check_block_branch(c))
 	{
 		// Just set any value.
 		llvm_value_set(be_value, result_on_skip, type_bool);
@@ -3040,10 +3041,7 @@ static void llvm_emit_logical_and_or(GenContext *c, BEValue *be_value, Expr *exp
 
 	LLVMBasicBlockRef rhs_end_block = llvm_get_current_block_if_in_use(c);
 
-	if (rhs_end_block)
-	{
-		llvm_emit_br(c, phi_block);
-	}
+	if (rhs_end_block && !llvm_emit_br_if_reachable(c, phi_block)) rhs_end_block = NULL;
 
 	// Generate phi
 	llvm_emit_block(c, phi_block);
@@ -3784,6 +3782,16 @@ void llvm_emit_comp(GenContext *c, BEValue *result, BEValue *lhs, BEValue *rhs,
 	TODO // When updated, also update tilde_codegen_expr
 }
 
+/**
+ * Branch to a block, unless the current block is never reached: then it is removed and the result is false.
+ */
+static bool llvm_emit_br_if_reachable(GenContext *c, LLVMBasicBlockRef next_block)
+{
+	if (!llvm_emit_check_block_branch(c)) return false;
+	llvm_emit_br(c, next_block);
+	return true;
+}
+
 static void llvm_emit_else(GenContext *c, BEValue *be_value, Expr *expr)
 {
 	LLVMBasicBlockRef else_block = llvm_basic_block_new(c, "else_block");
@@ -3811,7 +3819,7 @@ static void llvm_emit_else(GenContext *c, BEValue *be_value, Expr *expr)
 
 	// Only jump to phi if we didn't have an immediate jump. That would
 	// for example happen on "{| defer foo(); return Foo.ERR?; |} ?? 123"
-	if (success_end_block) llvm_emit_br(c, phi_block);
+	if (success_end_block && !llvm_emit_br_if_reachable(c, phi_block)) success_end_block = NULL;
 
 	// Emit else
 	llvm_emit_block(c, else_block);
@@ -3835,6 +3843,7 @@ static void llvm_emit_else(GenContext *c, BEValue *be_value, Expr *expr)
 	}
 
 	LLVMBasicBlockRef else_block_exit = llvm_get_current_block_if_in_use(c);
+	if (else_block_exit && !llvm_emit_br_if_reachable(c, phi_block)) else_block_exit = NULL;
 
 	// While the value may not be an optional, we may get a jump
 	// from this construction: foo() ?? (bar()?)
@@ -3842,11 +3851,16 @@ static void llvm_emit_else(GenContext *c, BEValue *be_value, Expr *expr)
 	if (!else_block_exit)
 	{
 		llvm_emit_block(c, phi_block);
+		// Neither side is ever completed.
+		if (!success_end_block && real_value.type != type_void)
+		{
+			llvm_value_set(be_value, llvm_get_undef(c, real_value.type), real_value.type);
+			return;
+		}
 		*be_value = real_value;
 		return;
 	}
 
-	llvm_emit_br(c, phi_block);
 	llvm_emit_block(c, phi_block);
 
 	// Was there never a success, if so the result is the be_value.
@@ -4276,12 +4290,12 @@ void llvm_emit_try_assign_try_catch(GenContext *c, bool is_try, BEValue *be_valu
 	// 9. Store the success block.
 	LLVMBasicBlockRef success_block = c->current_block;
 
-	// 10. Jump to the phi
-	llvm_emit_br(c, phi_catch);
+	// 10. Jump to the phi, unless this is never reached.
+	if (success_block && !llvm_emit_br_if_reachable(c, phi_catch)) success_block = NULL;
 
-	// 11. Emit the catch and jump.
+	// 11. Emit the catch and jump, unless it is never reached.
 	llvm_emit_block(c, catch_block);
-	llvm_emit_br(c, phi_catch);
+	if (!llvm_emit_br_if_reachable(c, phi_catch)) catch_block = NULL;
 
 	// 12. Emit the phi
 	llvm_emit_block(c, phi_catch);
@@ -4289,6 +4303,11 @@ void llvm_emit_try_assign_try_catch(GenContext *c, bool is_try, BEValue *be_valu
 	// 13. Use a phi to pick true / false.
 	LLVMValueRef from_try = LLVMConstInt(c->bool_type, is_try ? 1 : 0, false);
 	LLVMValueRef from_catch = LLVMConstInt(c->bool_type, is_try ? 0 : 1, false);
+	if (!success_block || !catch_block)
+	{
+		llvm_value_set(be_value, success_block ? from_try : from_catch, type_bool);
+		return;
+	}
 	llvm_new_phi(c, be_value, "val", type_bool, from_try, success_block, from_catch, catch_block);
 }
 
@@ -4565,7 +4584,7 @@ void gencontext_emit_ternary_expr(GenContext *c, BEValue *value, Expr *expr)
 	{
 		llvm_emit_trunc_bool(c, lhs_value);
 	}
-	if (lhs_exit) llvm_emit_br(c, phi_block);
+	if (lhs_exit && !llvm_emit_br_if_reachable(c, phi_block)) lhs_value = NULL, lhs_exit = NULL;
 
 	llvm_emit_block(c, rhs_block);
 	BEValue rhs;
@@ -4578,7 +4597,7 @@ void gencontext_emit_ternary_expr(GenContext *c, BEValue *value, Expr *expr)
 	}
 
 	LLVMBasicBlockRef rhs_exit = llvm_get_current_block_if_in_use(c);
-	if (rhs_exit) llvm_emit_br(c, phi_block);
+	if (rhs_exit && !llvm_emit_br_if_reachable(c, phi_block)) rhs_value = NULL, rhs_exit = NULL;
 
 	// Generate phi
 	llvm_emit_block(c, phi_block);
-- 
2.43.0


From 3e8d8ad1ca41eb24fc3a403ec6322227e6e655d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:04 +0000
Subject: [PATCH 51/76] fix: the first of several '@public' imports silently
 won over the others instead of being ambiguous

---
 src/compiler/sema_name_resolution.c | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/compiler/sema_name_resolution.c b/src/compiler/sema_name_resolution.c
index d32099c..212b09c 100644
--- a/src/compiler/sema_name_resolution.c
+++ b/src/compiler/sema_name_resolution.c
@@ -146,7 +146,7 @@ static bool sema_find_decl_in_imports(SemaContext *context, NameResolve *name_re
 	{
 		if (import->import.module->is_generic != want_generic) continue;
 		bool is_private_import = import->import.import_private_as_public;
-		if (!path && (decl || !is_private_import)) continue;
+		if (!path && !is_private_import) continue;
 		// Is the decl in the import.
 		Decl *found = sema_find_decl_in_module(import->import.module, path, symbol, &name_resolve->path_found);
 
@@ -156,14 +156,10 @@ static bool sema_find_decl_in_imports(SemaContext *context, NameResolve *name_re
 		if (!found) continue;
 		ASSERT(found->visibility != VISIBLE_LOCAL);
 
-		if (found->visibility != VISIBLE_PUBLIC)
+		if (found->visibility != VISIBLE_PUBLIC && !is_private_import)
 		{
-			if (decl) continue;
-			if (!is_private_import)
-			{
-				name_resolve->private_decl = found;
-				continue;
-			}
+			if (!decl) name_resolve->private_decl = found;
+			continue;
 		}
 
 		// Did we already have a match?
-- 
2.43.0


From 7936242e623a3ec1ac32e5d10373c27bd5d5f6e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:04 +0000
Subject: [PATCH 52/76] fix: undefined reference when a module uses an alias of
 another module's non-public declaration

---
 src/compiler/sema_expr.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/compiler/sema_expr.c b/src/compiler/sema_expr.c
index b78ffe7..0c76486 100644
--- a/src/compiler/sema_expr.c
+++ b/src/compiler/sema_expr.c
@@ -1113,6 +1113,8 @@ static inline bool sema_expr_analyse_identifier(SemaContext *context, Type *to,
 	sema_display_deprecated_warning_on_use(decl, expr->span);
 
 	unit_register_external_symbol(context, decl);
+	// The aliased declaration might not be visible itself
+	if (decl->decl_kind == DECL_DEFINE) unit_register_external_symbol(context, decl_flatten(decl));
 	if (decl->decl_kind == DECL_VAR)
 	{
 		decl->var.is_read = true;
-- 
2.43.0


From fd47e112c7bf7f9b836f0d3a076f4e2097641e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:04 +0000
Subject: [PATCH 53/76] fix: an alias of an alias could not be used

---
 src/compiler/sema_decls.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/sema_decls.c b/src/compiler/sema_decls.c
index 24f7582..83a2155 100755
--- a/src/compiler/sema_decls.c
+++ b/src/compiler/sema_decls.c
@@ -5012,7 +5012,7 @@ static inline bool sema_analyse_define(SemaContext *context, Decl *decl, bool *e
 		RETURN_SEMA_ERROR(expr, "An at-macro like '%s' must be aliased with an identifier also starting with '@'.", symbol->name);
 	}
 	decl->type = symbol->type;
-	decl->define_decl.alias = symbol;
+	decl->define_decl.alias = decl_flatten(symbol);
 	return true;
 }
 
-- 
2.43.0


From 5665f2a078fe3c78b30b6d6f5e93b3e260e313f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:47 +0000
Subject: [PATCH 54/76] fix: a pointer to an array converted implicitly to any
 interface

---
 src/compiler/sema_casts.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/sema_casts.c b/src/compiler/sema_casts.c
index 49628cf..bcf100a 100644
--- a/src/compiler/sema_casts.c
+++ b/src/compiler/sema_casts.c
@@ -2317,7 +2317,7 @@ CastRule cast_rules[CONV_LAST + 1][CONV_LAST + 1] = {
  {REXPL, _NO__, REXPL, RPTIN, _NO__, REXPL, _NO__, REXVC, _NO__, RXXDI, _NO__, _NO__, _NO__, _NO__, _NO__, _NO__, _NO__, _NA__, _NO__, REXPL, REXPL, _NO__, _NO__}, // TYPEID
  {REXPL, _NO__, REXPL, RPTIN, _NO__, REXPL, _NO__, REXVC, _NO__, RXXDI, _NO__, _NO__, _NO__, _NO__, _NO__, _NO__, _NO__, _NO__, _NA__, REXPL, REXPL, _NO__, _NO__}, // ANYFAULT
  {REXPL, _NO__, REXPL, RPTIN, _NO__, ROKOK, _NO__, REXVC, _NO__, RXXDI, _NO__, _NO__, _NO__, RVPAN, RVPAN, _NO__, ROKOK, _NO__, _NO__, _NA__, ROKOK, _NO__, _NO__}, // VOIDPTR
- {REXPL, _NO__, REXPL, RPTIN, _NO__, RPTPT, RAPSL, REXVC, _NO__, RXXDI, _NO__, _NO__, _NO__, ROKOK, ROKOK, _NO__, _NO__, _NO__, _NO__, ROKOK, RPTPT, RPTFE, _NO__}, // ARRPTR
+ {REXPL, _NO__, REXPL, RPTIN, _NO__, RPTPT, RAPSL, REXVC, _NO__, RXXDI, _NO__, _NO__, _NO__, ROKOK, RPTIF, _NO__, _NO__, _NO__, _NO__, ROKOK, RPTPT, RPTFE, _NO__}, // ARRPTR
  {_NO__, _NO__, _NO__, _NO__, _NO__, _NO__, _NO__, _NO__, _NO__, _NO__, _NO__, _NO__, _NO__, _NO__, _NO__, _NO__, _NO__, _NO__, _NO__, _NO__, _NO__, _NO__, _NO__}, // INFERRED
  {_NO__, _NO__, _NO__, _NO__, _NO__, _NO__, RULSL, RULAR, RULST, RXXDI, RULAR, RULST, _NO__, _NO__, _NO__, _NO__, _NO__, _NO__, _NO__, _NO__, _NO__, RULFE, _NO__}, // UNTYPED_LIST
 };
-- 
2.43.0


From c746bc5b0865291738625fe5088f179f0c9b9bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:47 +0000
Subject: [PATCH 55/76] fix: @dynamic methods of a bitstruct were not checked
 against its interfaces

---
 src/compiler/sema_decls.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/compiler/sema_decls.c b/src/compiler/sema_decls.c
index 83a2155..c23050c 100755
--- a/src/compiler/sema_decls.c
+++ b/src/compiler/sema_decls.c
@@ -2447,6 +2447,7 @@ static inline Decl *sema_find_interface_for_method(SemaContext *context, Canonic
 		case TYPE_UNION:
 		case TYPE_DISTINCT:
 		case TYPE_ENUM:
+		case TYPE_BITSTRUCT:
 			break;
 		case TYPE_TYPEDEF:
 			UNREACHABLE
-- 
2.43.0


From c4015104719b90b20247ce6b98465f715b51cd8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:47 +0000
Subject: [PATCH 56/76] fix: an enum could declare an interface without
 implementing it

---
 src/compiler/sema_passes.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/compiler/sema_passes.c b/src/compiler/sema_passes.c
index 03311ca..9b69caf 100644
--- a/src/compiler/sema_passes.c
+++ b/src/compiler/sema_passes.c
@@ -746,6 +746,10 @@ void sema_analysis_pass_interface(Module *module)
 				sema_check_interfaces(&context, decl);
 			}
 		}
+		FOREACH(Decl *, decl, unit->enums)
+		{
+			if (decl->decl_kind == DECL_ENUM && decl->interfaces) sema_check_interfaces(&context, decl);
+		}
 		sema_context_destroy(&context);
 	}
 
-- 
2.43.0


From 5368609c84f8e7cb9ec5118ff67bcb8b0b91f57c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:47 +0000
Subject: [PATCH 57/76] fix: typeids of the same function type declared with
 other parameter names differed at compile time and in arrays

---
 src/compiler/compiler_internal.h |  1 +
 src/compiler/llvm_codegen_type.c |  8 +++++++
 src/compiler/number.c            |  2 +-
 src/compiler/types.c             | 40 ++++++++++++++++++++++++++++++++
 4 files changed, 50 insertions(+), 1 deletion(-)

diff --git a/src/compiler/compiler_internal.h b/src/compiler/compiler_internal.h
index 887fe2c..8d6cb68 100644
--- a/src/compiler/compiler_internal.h
+++ b/src/compiler/compiler_internal.h
@@ -2434,6 +2434,7 @@ Type *type_find_max_type(Type *type, Type *other);
 Type *type_find_max_type_may_fail(Type *type, Type *other);
 Type *type_abi_find_single_struct_element(Type *type);
 Module *type_base_module(Type *type);
+bool type_has_same_typeid(Type *left, Type *right);
 bool type_is_valid_for_vector(Type *type);
 bool type_is_valid_for_array(Type *type);
 Type *type_get_array(Type *arr_type, ArraySize len);
diff --git a/src/compiler/llvm_codegen_type.c b/src/compiler/llvm_codegen_type.c
index 78f4779..a28646e 100644
--- a/src/compiler/llvm_codegen_type.c
+++ b/src/compiler/llvm_codegen_type.c
@@ -433,6 +433,14 @@ static inline LLVMValueRef llvm_generate_introspection_global(GenContext *c, LLV
 		scratch_buffer_clear();
 		scratch_buffer_append("$ct.");
 		type_mangle_introspect_name_to_buffer(type);
+		LLVMValueRef existing = original_global ? NULL : LLVMGetNamedGlobal(c->module, scratch_buffer_to_string());
+		if (existing)
+		{
+			// Types that only differ in the declaration of a function type share the same typeid.
+			type->backend_typeid = LLVMBuildPtrToInt(c->builder, existing, c->typeid_type, "");
+			c->builder = builder;
+			return type->backend_typeid;
+		}
 		global_name = LLVMAddGlobal(c->module, c->introspect_type, scratch_buffer_to_string());
 		type->backend_typeid = LLVMBuildPtrToInt(c->builder, global_name, c->typeid_type, "");
 	}
diff --git a/src/compiler/number.c b/src/compiler/number.c
index 4ed5fa8..d9918b1 100644
--- a/src/compiler/number.c
+++ b/src/compiler/number.c
@@ -164,7 +164,7 @@ bool expr_const_compare(const ExprConst *left, const ExprConst *right, BinaryOp
 			is_eq = !memcmp(left->bytes.ptr, right->bytes.ptr, left->bytes.len);
 			goto RETURN;
 		case CONST_TYPEID:
-			is_eq = left->typeid == right->typeid;
+			is_eq = type_has_same_typeid(left->typeid, right->typeid);
 			goto RETURN;
 		case CONST_ENUM:
 		{
diff --git a/src/compiler/types.c b/src/compiler/types.c
index b01ec93..ce3d942 100644
--- a/src/compiler/types.c
+++ b/src/compiler/types.c
@@ -1151,6 +1151,46 @@ Type *type_get_array(Type *arr_type, ArraySize len)
 	return type_create_array(arr_type, len, false, false);
 }
 
+/**
+ * Function types that only differ in their declaration (such as parameter names) share the same typeid at runtime.
+ */
+bool type_has_same_typeid(Type *left, Type *right)
+{
+	while (left != right)
+	{
+		if (!left || !right || left->type_kind != right->type_kind) return false;
+		switch (left->type_kind)
+		{
+			case TYPE_FUNC_PTR:
+				left = left->pointer;
+				right = right->pointer;
+				FALLTHROUGH;
+			case TYPE_FUNC_RAW:
+				return left->function.prototype->raw_type == right->function.prototype->raw_type;
+			case TYPE_POINTER:
+				left = left->pointer;
+				right = right->pointer;
+				continue;
+			case TYPE_OPTIONAL:
+				left = left->optional;
+				right = right->optional;
+				continue;
+			case TYPE_ARRAY:
+			case TYPE_VECTOR:
+				if (left->array.len != right->array.len) return false;
+				FALLTHROUGH;
+			case TYPE_SLICE:
+			case TYPE_FLEXIBLE_ARRAY:
+				left = left->array.base;
+				right = right->array.base;
+				continue;
+			default:
+				return false;
+		}
+	}
+	return true;
+}
+
 bool type_is_valid_for_vector(Type *type)
 {
 	RETRY:
-- 
2.43.0


From 85261d92db56665b9689c61fa2e28aa321adef55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:58 +0000
Subject: [PATCH 58/76] fix: a function only used in a second contract of a
 return or of an extern call was left out

---
 src/compiler/sema_liveness.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/compiler/sema_liveness.c b/src/compiler/sema_liveness.c
index 0139b02..75d22e2 100644
--- a/src/compiler/sema_liveness.c
+++ b/src/compiler/sema_liveness.c
@@ -128,10 +128,10 @@ static void sema_trace_stmt_liveness(Ast *ast)
 		case AST_RETURN_STMT:
 		case AST_BLOCK_EXIT_STMT:
 			sema_trace_expr_liveness(ast->return_stmt.expr);
-			sema_trace_astid_liveness(ast->return_stmt.cleanup);
+			sema_trace_stmt_chain_liveness(ast->return_stmt.cleanup);
 			if (ast->return_stmt.cleanup != ast->return_stmt.cleanup_fail)
 			{
-				sema_trace_astid_liveness(ast->return_stmt.cleanup_fail);
+				sema_trace_stmt_chain_liveness(ast->return_stmt.cleanup_fail);
 			}
 			return;
 		case AST_ASM_BLOCK_STMT:
@@ -325,7 +325,7 @@ RETRY:
 				sema_trace_expr_liveness(exprptr(expr->call_expr.function));
 				return;
 			}
-			sema_trace_astid_liveness(expr->call_expr.function_contracts);
+			sema_trace_stmt_chain_liveness(expr->call_expr.function_contracts);
 			sema_trace_decl_liveness(declptr(expr->call_expr.func_ref));
 			return;
 		}
-- 
2.43.0


From 3e62d8d7e1bdba19b9cda0a6fd8929c115fe36b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:58 +0000
Subject: [PATCH 59/76] fix: compiler crash when a bounds check is known to
 fail in code that is not reached

---
 src/compiler/llvm_codegen_stmt.c | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/compiler/llvm_codegen_stmt.c b/src/compiler/llvm_codegen_stmt.c
index 055ed20..f0a1005 100644
--- a/src/compiler/llvm_codegen_stmt.c
+++ b/src/compiler/llvm_codegen_stmt.c
@@ -1600,11 +1600,8 @@ void llvm_emit_panic(GenContext *c, const char *message, SourceSpan loc, const c
 void llvm_emit_panic_if_true(GenContext *c, BEValue *value, const char *panic_name, SourceSpan loc, const char *fmt, BEValue *value_1,
 							 BEValue *value_2)
 {
-	if (LLVMIsAConstantInt(value->value))
-	{
-		ASSERT(!LLVMConstIntGetZExtValue(value->value) && "Unexpected bounds check failed.");
-		return;
-	}
+	// The check may be known to fail in code that isn't reached at runtime.
+	if (LLVMIsAConstantInt(value->value) && !LLVMConstIntGetZExtValue(value->value)) return;
 	LLVMBasicBlockRef panic_block = llvm_basic_block_new(c, "panic");
 	LLVMBasicBlockRef ok_block = llvm_basic_block_new(c, "checkok");
 	value->value = llvm_emit_expect_false(c, value);
-- 
2.43.0


From 85cfd4e007a18cfa31d652a45c470b1ad7c31722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:58 +0000
Subject: [PATCH 60/76] fix: the output depended on the order in which a
 directory lists its files

---
 src/utils/file_utils.c | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/utils/file_utils.c b/src/utils/file_utils.c
index d742c02..30e50aa 100644
--- a/src/utils/file_utils.c
+++ b/src/utils/file_utils.c
@@ -646,6 +646,11 @@ void file_add_wildcard_files(const char ***files, const char *path, bool recursi
 }
 #else
 
+static int dirent_compare(const struct dirent **a, const struct dirent **b)
+{
+	return strcmp((*a)->d_name, (*b)->d_name);
+}
+
 void file_add_wildcard_files(const char ***files, const char *path, bool recursive, const char **suffix_list, int suffix_count)
 {
 	size_t len = strlen(path);
@@ -654,15 +659,17 @@ void file_add_wildcard_files(const char ***files, const char *path, bool recursi
 		path = "./";
 		len = 2;
 	}
-	DIR *dir = opendir(path);
+	// The order in which a directory lists its files differs between file systems, so visit them sorted.
+	struct dirent **entries;
+	int entry_count = scandir(path, &entries, NULL, dirent_compare);
 	bool path_ends_with_slash = is_path_separator(path[len - 1]);
-	if (!dir)
+	if (entry_count < 0)
 	{
 		error_exit("Can't open the directory '%s'. Please check the paths. %s", path, strerror(errno));
 	}
-	struct dirent *ent;
-	while ((ent = readdir(dir)))
+	for (int i = 0; i < entry_count; i++)
 	{
+		struct dirent *ent = entries[i];
 		size_t namelen = strlen(ent->d_name);
 		if (namelen == 0 || ent->d_name[0] == '.') continue;
 		DEBUG_LOG("Searching file %s", ent->d_name);
@@ -689,7 +696,8 @@ void file_add_wildcard_files(const char ***files, const char *path, bool recursi
 		INFO_LOG("Added file %s", ent->d_name);
 		vec_add(*files, str_printf(format, path, ent->d_name));
 	}
-	closedir(dir);
+	for (int i = 0; i < entry_count; i++) free(entries[i]);
+	free(entries);
 }
 
 #endif
-- 
2.43.0


From 4a4cca02dff9ce6a3084b97dbef6d68c3069a08e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:21 +0000
Subject: [PATCH 61/76] fix: typedefs and interfaces lacked tags and external
 names (or crashed the compiler), and pointers read a type as a declaration
 for tags

---
 src/compiler/sema_expr.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/compiler/sema_expr.c b/src/compiler/sema_expr.c
index 0c76486..732d383 100644
--- a/src/compiler/sema_expr.c
+++ b/src/compiler/sema_expr.c
@@ -2895,9 +2895,11 @@ static inline bool sema_expr_analyse_typecall(SemaContext *context, Expr *expr)
 	{
 		RETURN_SEMA_ERROR(key, "The tag name should be a string constant.");
 	}
+	const char *tagname = key->const_expr.bytes.ptr;
+	// Types like pointers and arrays have no declaration, and so no tags.
+	if (!decl) goto NOT_FOUND;
 	ASSERT_SPAN(expr, decl->resolved_attributes);
 	ResolvedAttrData *attrs = decl->attrs_resolved;
-	const char *tagname = key->const_expr.bytes.ptr;
 	if (!attrs || !attrs->tags) goto NOT_FOUND;
 	Expr *value = NULL;
 	FOREACH(Attr *, attr, attrs->tags)
@@ -5030,7 +5032,7 @@ static bool sema_type_property_is_valid_for_type(Type *original_type, TypeProper
 		case TYPE_PROPERTY_TAGOF:
 		case TYPE_PROPERTY_HAS_TAGOF:
 		case TYPE_PROPERTY_EXTNAMEOF:
-			return !type_is_builtin(type->type_kind);
+			return !type_is_builtin(type->type_kind) || type_is_user_defined(original_type->canonical);
 	}
 	UNREACHABLE
 }
@@ -5132,18 +5134,19 @@ static bool sema_expr_rewrite_to_type_property(SemaContext *context, Expr *expr,
 			return true;
 		}
 		case TYPE_PROPERTY_EXTNAMEOF:
-			ASSERT_SPAN(expr, !type_is_builtin(type->type_kind));
+			ASSERT_SPAN(expr, !type_is_builtin(type->type_kind) || type_is_user_defined(type));
 			if (!sema_resolve_type_decl(context, type)) return false;
 			sema_expr_rewrite_to_type_nameof(expr, type, TOKEN_CT_EXTNAMEOF);
 			return true;
 		case TYPE_PROPERTY_TAGOF:
 		case TYPE_PROPERTY_HAS_TAGOF:
 		case TYPE_PROPERTY_FROM_ORDINAL:
+			if (!sema_resolve_type_decl(context, type)) return false;
 			expr->expr_kind = EXPR_TYPECALL;
 			expr->type_call_expr = (ExprTypeCall) {
 				.type = type->type_kind == TYPE_FUNC_PTR
 						? type->pointer->function.decl
-						: type->decl,
+						: type_is_user_defined(type) ? type->decl : NULL,
 				.property = property };
 			return true;
 		case TYPE_PROPERTY_NONE:
@@ -8975,7 +8978,7 @@ static inline void sema_expr_rewrite_to_type_nameof(Expr *expr, Type *type, Toke
 	if (type_is_func_ptr(type)) type = type->pointer->function.prototype->raw_type;
 	if (name_type == TOKEN_CT_EXTNAMEOF)
 	{
-		if (type_is_user_defined(type))
+		if (type_is_user_defined(type) && type->decl)
 		{
 			scratch_buffer_set_extern_decl_name(type->decl, true);
 			expr_rewrite_const_string(expr, scratch_buffer_copy());
-- 
2.43.0


From bc6b4b4817c6e816b7a08e96a78b63f612462201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:48 +0000
Subject: [PATCH 62/76] fix: methodsof of a type without a declaration crashed
 the compiler, $extnameof gave a name that later changed

---
 src/compiler/sema_expr.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/compiler/sema_expr.c b/src/compiler/sema_expr.c
index 732d383..7d25929 100644
--- a/src/compiler/sema_expr.c
+++ b/src/compiler/sema_expr.c
@@ -4642,7 +4642,7 @@ static inline void sema_create_const_membersof(Expr *expr, Type *type, AlignSize
 
 static inline void sema_create_const_methodsof(Expr *expr, Type *type)
 {
-	Decl **methods = type->decl->methods;
+	Decl **methods = type_is_user_defined(type) ? type->decl->methods : NULL;
 	unsigned method_count = vec_size(methods);
 	
 	if (!method_count)
@@ -5105,7 +5105,7 @@ static bool sema_expr_rewrite_to_type_property(SemaContext *context, Expr *expr,
 			return true;
 		}
 		case TYPE_PROPERTY_METHODSOF:
-			sema_create_const_methodsof(expr, flat);
+			sema_create_const_methodsof(expr, type->canonical);
 			return true;
 		case TYPE_PROPERTY_PARAMSOF:
 			return sema_create_const_paramsof(expr, flat);
@@ -9079,7 +9079,7 @@ static inline bool sema_expr_analyse_ct_nameof(SemaContext *context, Expr *expr)
 		}
 RETURN_CT:
 		scratch_buffer_set_extern_decl_name(decl, true);
-		expr_rewrite_const_string(expr, scratch_buffer_to_string());
+		expr_rewrite_const_string(expr, scratch_buffer_copy());
 		return true;
 	}
 	if (!decl->unit || name_type == TOKEN_CT_NAMEOF || decl_is_var_local(decl))
-- 
2.43.0


From 192537c1fbeb2c227fed0dc07912f63276240769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:23 +0000
Subject: [PATCH 63/76] fix: structs with packed members had a smaller size in
 arrays than sizeof, or crashed the compiler

---
 src/compiler/sema_decls.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/compiler/sema_decls.c b/src/compiler/sema_decls.c
index c23050c..17cc866 100755
--- a/src/compiler/sema_decls.c
+++ b/src/compiler/sema_decls.c
@@ -447,6 +447,8 @@ RETRY:;
 		case TYPE_STRUCT:
 		case TYPE_UNION:
 		{
+			// If packed, then no member has its natural alignment.
+			if (type->decl->is_packed) return 1;
 			AlignSize max = 0;
 			FOREACH(Decl *, member, type->decl->strukt.members)
 			{
@@ -640,7 +642,6 @@ static bool sema_analyse_struct_members(SemaContext *context, Decl *decl)
 	}
 	if (is_unaligned && size > offset)
 	{
-		ASSERT(!decl->strukt.padding);
 		decl->strukt.padding = (AlignSize)(size - offset);
 	}
 
-- 
2.43.0


From 8d47e6765eac4769f6d04c08f2be5ed7262a0cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:02 +0000
Subject: [PATCH 64/76] fix: the JSON reader lost exponents and \u escapes, and
 accepted or crashed on malformed documents

---
 src/utils/json.c | 159 ++++++++++++++++++++++++++++++++++++-----------
 src/utils/json.h |   1 +
 2 files changed, 125 insertions(+), 35 deletions(-)

diff --git a/src/utils/json.c b/src/utils/json.c
index bd30f55..917faa3 100644
--- a/src/utils/json.c
+++ b/src/utils/json.c
@@ -1,5 +1,6 @@
 #include "lib.h"
 #include "json.h"
+#include <math.h>
 
 #define PRINTF(file, string, ...) fprintf(file, string, ##__VA_ARGS__) /* NOLINT */
 
@@ -8,8 +9,16 @@ JSONObject true_val = { .type = J_BOOL, .b = true };
 JSONObject false_val = { .type = J_BOOL, .b = false };
 JSONObject zero_val = { .type = J_NUMBER, .f = 0.0 };
 
+#define JSON_MAX_DEPTH 1000
+
 #define CONSUME(token_) do { if (!consume(parser, token_)) { json_error(parser, "Unexpected character encountered."); return &error; } } while(0)
 
+void json_error(JsonParser *parser, const char *error_message)
+{
+	if (!parser->error_message) parser->error_message = error_message;
+	parser->current_token_type = T_ERROR;
+}
+
 static inline void json_skip_whitespace(JsonParser *parser)
 {
 	char c;
@@ -31,13 +40,15 @@ static inline void json_skip_whitespace(JsonParser *parser)
 					parser->current++;
 					while ((c = (++parser->current)[0]))
 					{
+						if (c == '\n') parser->line++;
 						if (c == '*' && parser->current[1] == '/')
 						{
 							parser->current += 2;
 							goto RETRY;
 						}
 					}
-					goto RETRY;
+					json_error(parser, "Unterminated comment.");
+					return;
 				}
 				return;
 			case '\n':
@@ -65,38 +76,82 @@ static bool json_match(JsonParser *parser, const char *str)
 }
 
 
-void json_error(JsonParser *parser, const char *error_message)
+static bool json_skip_digits(JsonParser *parser)
 {
-	if (!parser->error_message) parser->error_message = error_message;
-	parser->current_token_type = T_ERROR;
+	const char *start = parser->current;
+	while (char_is_digit(parser->current[0])) parser->current++;
+	return parser->current > start;
 }
 
 static void json_parse_number(JsonParser *parser)
 {
-	char c = parser->current[0];
-	bool negate = c == '-';
-	if (negate) c = (++parser->current)[0];
-	double value = 0;
-	while (c >= '0' && c <= '9')
+	const char *start = parser->current;
+	if (parser->current[0] == '-') parser->current++;
+	// A leading zero is not followed by more digits.
+	if (parser->current[0] == '0' && char_is_digit(parser->current[1])) goto ERROR;
+	if (!json_skip_digits(parser)) goto ERROR;
+	if (parser->current[0] == '.')
 	{
-		value = value * 10.0 + (c - '0');
-		c = (++parser->current)[0];
+		parser->current++;
+		if (!json_skip_digits(parser)) goto ERROR;
 	}
-	double decimals = 0;
-	double divide = 10.0;
-	if (c == '.')
+	if (parser->current[0] == 'e' || parser->current[0] == 'E')
 	{
-		c = (++parser->current)[0];
-		while (c >= '0' && c <= '9')
+		parser->current++;
+		if (parser->current[0] == '+' || parser->current[0] == '-') parser->current++;
+		if (!json_skip_digits(parser)) goto ERROR;
+	}
+	parser->current_token_type = T_NUMBER;
+	parser->last_number = strtod(start, NULL);
+	if (isinf(parser->last_number)) goto ERROR;
+	return;
+ERROR:
+	json_error(parser, "Invalid number.");
+}
+
+static bool json_parse_hex4(JsonParser *parser, unsigned *result)
+{
+	*result = 0;
+	for (int i = 0; i < 4; i++)
+	{
+		char c = parser->current[0];
+		if (!char_is_hex(c))
 		{
-			decimals = decimals + (c - '0') / divide;
-			divide *= 10.0;
-			c = (++parser->current)[0];
+			json_error(parser, "Invalid hex in \\u escape sequence.");
+			return false;
 		}
+		parser->current++;
+		*result = (*result << 4) + char_hex_to_nibble(c);
 	}
-	value += decimals;
-	parser->current_token_type = T_NUMBER;
-	parser->last_number = value;
+	return true;
+}
+
+static char *json_append_utf8(char *str, unsigned c)
+{
+	if (c < 0x80)
+	{
+		str++[0] = (char)c;
+		return str;
+	}
+	if (c < 0x800)
+	{
+		str++[0] = (char)(0xC0 | (c >> 6));
+	}
+	else
+	{
+		if (c < 0x10000)
+		{
+			str++[0] = (char)(0xE0 | (c >> 12));
+		}
+		else
+		{
+			str++[0] = (char)(0xF0 | (c >> 18));
+			str++[0] = (char)(0x80 | ((c >> 12) & 0x3F));
+		}
+		str++[0] = (char)(0x80 | ((c >> 6) & 0x3F));
+	}
+	str++[0] = (char)(0x80 | (c & 0x3F));
+	return str;
 }
 
 static void json_parse_string(JsonParser *parser)
@@ -127,6 +182,7 @@ static void json_parse_string(JsonParser *parser)
 		}
 		if (c != '\\')
 		{
+			if (c == '\n') parser->line++;
 			str_current++[0] = c;
 			continue;
 		}
@@ -154,17 +210,27 @@ static void json_parse_string(JsonParser *parser)
 				break;
 			case 'u':
 			{
-				char u1 = parser->current++[0];
-				char u2 = parser->current++[0];
-				char u3 = parser->current++[0];
-				char u4 = parser->current++[0];
-				if (!char_is_hex(u1) || !char_is_hex(u2) || !char_is_hex(u3) || !char_is_hex(u4))
+				unsigned u;
+				if (!json_parse_hex4(parser, &u)) return;
+				if (u >= 0xD800 && u < 0xDC00 && parser->current[0] == '\\' && parser->current[1] == 'u')
 				{
-					json_error(parser, "Invalid hex in \\u escape sequence.");
+					unsigned low;
+					parser->current += 2;
+					if (!json_parse_hex4(parser, &low)) return;
+					if (low < 0xDC00 || low > 0xDFFF)
+					{
+						json_error(parser, "Invalid surrogate pair in string.");
+						return;
+					}
+					u = 0x10000 + ((u - 0xD800) << 10) + (low - 0xDC00);
+				}
+				else if (u == 0 || (u >= 0xD800 && u <= 0xDFFF))
+				{
+					json_error(parser, "Invalid code point in \\u escape sequence.");
 					return;
 				}
-				c = (char_hex_to_nibble(u1) << 12) + (char_hex_to_nibble(u2) << 8) + (char_hex_to_nibble(u3) << 4) + char_hex_to_nibble(u4);
-				break;
+				str_current = json_append_utf8(str_current, u);
+				continue;
 			}
 			default:
 				json_error(parser, "Invalid escape sequence.");
@@ -180,6 +246,7 @@ static void json_parse_string(JsonParser *parser)
 static inline void json_lexer_advance(JsonParser *parser)
 {
 	json_skip_whitespace(parser);
+	if (parser->error_message) return;
 	switch (parser->current[0])
 	{
 		case '\0':
@@ -269,6 +336,8 @@ static inline bool consume(JsonParser *parser, JSONTokenType token)
 	return false;
 }
 
+static JSONObject *json_parse_value(JsonParser *parser);
+
 JSONObject *json_parse_array(JsonParser *parser)
 {
 	CONSUME(T_LBRACKET);
@@ -282,7 +351,7 @@ JSONObject *json_parse_array(JsonParser *parser)
 	size_t index = 0;
 	while (1)
 	{
-		JSONObject *parsed = json_parse(parser);
+		JSONObject *parsed = json_parse_value(parser);
 		if (parser->error_message) return &error;
 		vec_add(array->elements, parsed);
 
@@ -311,7 +380,7 @@ JSONObject *json_parse_object(JsonParser *parser)
 		CONSUME(T_STRING);
 		CONSUME(T_COLON);
 
-		JSONObject *value = json_parse(parser);
+		JSONObject *value = json_parse_value(parser);
 
 		if (parser->error_message) return NULL;
 		vec_add(obj->keys, key);
@@ -353,7 +422,7 @@ JSONObject *json_map_get(JSONObject *obj, const char *key)
 	return NULL;
 }
 
-JSONObject *json_parse(JsonParser *parser)
+static JSONObject *json_parse_value(JsonParser *parser)
 {
 	if (parser->error_message) return &error;
 	switch (parser->current_token_type)
@@ -363,9 +432,18 @@ JSONObject *json_parse(JsonParser *parser)
 		case T_ERROR:
 			UNREACHABLE
 		case T_LBRACE:
-			return json_parse_object(parser);
 		case T_LBRACKET:
-			return json_parse_array(parser);
+		{
+			if (parser->depth >= JSON_MAX_DEPTH)
+			{
+				json_error(parser, "Too deeply nested.");
+				return NULL;
+			}
+			parser->depth++;
+			JSONObject *obj = parser->current_token_type == T_LBRACE ? json_parse_object(parser) : json_parse_array(parser);
+			parser->depth--;
+			return obj;
+		}
 		case T_COMMA:
 		case T_RBRACE:
 		case T_RBRACKET:
@@ -405,11 +483,22 @@ JSONObject *json_parse(JsonParser *parser)
 	UNREACHABLE
 }
 
+JSONObject *json_parse(JsonParser *parser)
+{
+	JSONObject *obj = json_parse_value(parser);
+	if (!parser->error_message && parser->current_token_type != T_EOF)
+	{
+		json_error(parser, "Unexpected data after the end.");
+	}
+	return obj;
+}
+
 void json_init_string(JsonParser *parser, const char *str)
 {
 	parser->current = str;
 	parser->error_message = NULL;
 	parser->line = 1;
+	parser->depth = 0;
 	json_lexer_advance(parser);
 }
 
diff --git a/src/utils/json.h b/src/utils/json.h
index 219810c..67a6294 100644
--- a/src/utils/json.h
+++ b/src/utils/json.h
@@ -50,6 +50,7 @@ typedef enum JSONTokenType_
 typedef struct
 {
 	unsigned line;
+	unsigned depth;
 	const char *current;
 	JSONTokenType current_token_type;
 	const char *error_message;
-- 
2.43.0


From 9d3655625ea06a986264517cb14c81b2d168ca56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:28 +0000
Subject: [PATCH 65/76] fix: project manipulation wrote strings, numbers and
 null back as something else, and null crashed the readers of project and
 manifest

---
 src/build/common_build.c         |  2 +-
 src/build/libraries.c            |  6 +++-
 src/build/project.c              |  2 +-
 src/build/project_manipulation.c | 10 ++++--
 src/utils/json.c                 | 60 +++++++++++++++++++++++++++++---
 5 files changed, 70 insertions(+), 10 deletions(-)

diff --git a/src/build/common_build.c b/src/build/common_build.c
index c78ba2a..ffbe7eb 100644
--- a/src/build/common_build.c
+++ b/src/build/common_build.c
@@ -92,7 +92,7 @@ const char **get_string_array(BuildParseContext context, JSONObject *table, cons
 	const char **values = NULL;
 	FOREACH(JSONObject *, val, value->elements)
 	{
-		if (val->type != J_STRING) goto NOT_ARRAY;
+		if (!val || val->type != J_STRING) goto NOT_ARRAY;
 		vec_add(values, val->str);
 	}
 	return values;
diff --git a/src/build/libraries.c b/src/build/libraries.c
index ff419ea..0997a79 100644
--- a/src/build/libraries.c
+++ b/src/build/libraries.c
@@ -54,7 +54,7 @@ static inline void parse_library_type(Library *library, LibraryTarget ***target_
 	FOREACH_IDX(i, JSONObject *, member, object->members)
 	{
 		const char *key = object->keys[i];
-		if (member->type != J_OBJECT) error_exit("Expected a list of properties for a target in %s.", library->dir);
+		if (!member || member->type != J_OBJECT) error_exit("Expected a list of properties for a target in %s.", library->dir);
 		check_json_keys(manifest_target_keys, manifest_target_keys_count, manifest_deprecated_target_keys, manifest_deprecated_target_key_count, member, key, "--list-manifest-properties");
 		LibraryTarget *library_target = CALLOCS(LibraryTarget);
 		library_target->parent = library;
@@ -175,6 +175,10 @@ INLINE JSONObject* read_manifest(const char *lib, const char *manifest_data)
 	{
 		error_exit("Empty 'manifest.json' for library '%s'.", lib);
 	}
+	if (json->type != J_OBJECT)
+	{
+		error_exit("Expected a map of properties in 'manifest.json' for library '%s'.", lib);
+	}
 	return json;
 }
 
diff --git a/src/build/project.c b/src/build/project.c
index 51b7a89..bbe0bf8 100644
--- a/src/build/project.c
+++ b/src/build/project.c
@@ -503,7 +503,7 @@ static void project_add_targets(const char *filename, Project *project, JSONObje
 	FOREACH_IDX(i, JSONObject *, object, targets_json->members)
 	{
 		const char *key = targets_json->keys[i];
-		if (object->type != J_OBJECT)
+		if (!object || object->type != J_OBJECT)
 		{
 			error_exit("Invalid data in target '%s'", key);
 		}
diff --git a/src/build/project_manipulation.c b/src/build/project_manipulation.c
index dfebaf1..c986e04 100644
--- a/src/build/project_manipulation.c
+++ b/src/build/project_manipulation.c
@@ -292,7 +292,7 @@ void fetch_project(BuildOptions* options)
 		FOREACH_IDX(i, JSONObject *, target, targets_json->members)
 		{
 			const char *key = targets_json->keys[i];
-			if (target->type != J_OBJECT)
+			if (!target || target->type != J_OBJECT)
 			{
 				error_exit("Invalid data in target '%s'", key);
 			}
@@ -397,6 +397,10 @@ void add_target_project(BuildOptions *build_options)
 		targets_json = json_new_object(J_OBJECT);
 		json_map_set(project_json, "targets", targets_json);
 	}
+	if (targets_json->type != J_OBJECT)
+	{
+		error_exit("'targets' did not contain map of targets.");
+	}
 
 	if (json_map_get(targets_json, build_options->project_options.target_name) != NULL)
 	{
@@ -502,7 +506,7 @@ static void view_filtered_project_properties(BuildOptions *build_options, const
 		FOREACH_IDX(i, JSONObject *, object, targets_json->members)
 		{
 			const char *key = targets_json->keys[i];
-			if (object->type != J_OBJECT)
+			if (!object || object->type != J_OBJECT)
 			{
 				error_exit("Invalid data in target '%s'", key);
 			}
@@ -591,7 +595,7 @@ void view_project(BuildOptions *build_options)
 	FOREACH_IDX(i, JSONObject *, object, targets_json->members)
 	{
 		const char *key = targets_json->keys[i];
-		if (object->type != J_OBJECT)
+		if (!object || object->type != J_OBJECT)
 		{
 			error_exit("Invalid data in target '%s'", key);
 		}
diff --git a/src/utils/json.c b/src/utils/json.c
index 917faa3..c2dc227 100644
--- a/src/utils/json.c
+++ b/src/utils/json.c
@@ -406,6 +406,7 @@ void json_map_set(JSONObject *obj, const char *key, JSONObject *value)
 		if (str_eq(a_key, key))
 		{
 			obj->members[i] = value;
+			return;
 		}
 	}
 	vec_add(obj->members, value);
@@ -519,10 +520,60 @@ static inline void print_indent(int indent_level, FILE *file)
 	}
 }
 
+static void print_json_string(const char *str, FILE *file)
+{
+	fputc('"', file);
+	char c;
+	while ((c = str++[0]))
+	{
+		switch (c)
+		{
+			case '"':
+			case '\\':
+				fputc('\\', file);
+				break;
+			case '\b':
+				fputs("\\b", file);
+				continue;
+			case '\f':
+				fputs("\\f", file);
+				continue;
+			case '\n':
+				fputs("\\n", file);
+				continue;
+			case '\r':
+				fputs("\\r", file);
+				continue;
+			case '\t':
+				fputs("\\t", file);
+				continue;
+			default:
+				if (c > 0 && c < ' ')
+				{
+					PRINTF(file, "\\u%04x", c);
+					continue;
+				}
+				break;
+		}
+		fputc(c, file);
+	}
+	fputc('"', file);
+}
+
+static void print_json_number(double value, FILE *file)
+{
+	// Use the short form when it reads back as the same number.
+	char buffer[64];
+	snprintf(buffer, sizeof(buffer), "%.15g", value);
+	if (strtod(buffer, NULL) != value) snprintf(buffer, sizeof(buffer), "%.17g", value);
+	fputs(buffer, file);
+}
+
 static inline void print_json(JSONObject *obj, int indent_level, FILE *file)
 {
 	if (obj == NULL)
 	{
+		fputs("null", file);
 		return;
 	}
 
@@ -532,10 +583,10 @@ static inline void print_json(JSONObject *obj, int indent_level, FILE *file)
 			PRINTF(file, "%s", obj->b ? "true" : "false");
 			break;
 		case J_STRING:
-			PRINTF(file, "\"%s\"", obj->str);
+			print_json_string(obj->str, file);
 			break;
 		case J_NUMBER:
-			PRINTF(file, "%f", obj->f);
+			print_json_number(obj->f, file);
 			break;
 		case J_ARRAY:
 			fputs(" [ ", file);
@@ -548,7 +599,7 @@ static inline void print_json(JSONObject *obj, int indent_level, FILE *file)
 			bool should_print_item_per_line = false;
 			FOREACH(JSONObject *, object, obj->elements)
 			{
-				if (object->type == J_OBJECT)
+				if (object && object->type == J_OBJECT)
 				{
 					should_print_item_per_line = true;
 					break;
@@ -583,7 +634,8 @@ static inline void print_json(JSONObject *obj, int indent_level, FILE *file)
 			{
 				if (i != 0) fputs(",\n", file);
 				print_indent(indent_level + 1, file);
-				PRINTF(file, "\"%s\": ", obj->keys[i]);
+				print_json_string(obj->keys[i], file);
+				fputs(": ", file);
 				print_json(object, indent_level + 1, file);
 			}
 			fputs("\n", file);
-- 
2.43.0


From d85c8d877f14b7b8f17ab28b4ed1ee2d307cd356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:58:19 +0000
Subject: [PATCH 66/76] fix: a file name part such as 'x' in './x' was taken
 for '.'

---
 src/utils/file_utils.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils/file_utils.c b/src/utils/file_utils.c
index 30e50aa..788fe02 100644
--- a/src/utils/file_utils.c
+++ b/src/utils/file_utils.c
@@ -166,8 +166,8 @@ bool file_namesplit(const char *path, char** filename_ptr, char** directory_ptr)
 		}
 	}
 	size_t file_len = (found_at != ((size_t)-1)) ? len - found_at - 1 : len;
-	if (file_len == 1 && path[0] == '.') return false;
-	if (file_len == 2 && path[0] == '.' && path[1] == '.') return false;
+	const char *file = &path[len - file_len];
+	if (str_eq(file, ".") || str_eq(file, "..")) return false;
 	if (!file_len) return false;
 	if (filename_ptr) *filename_ptr = str_copy(&path[len - file_len], file_len);
 	if (!directory_ptr) return true;
-- 
2.43.0


From cd91ba5a4fdc72153d6799ab29debbad1d470309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:58:29 +0000
Subject: [PATCH 67/76] fix: an entry of a packed library could be written
 outside of the library's directory

---
 src/utils/unzipper.c | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/utils/unzipper.c b/src/utils/unzipper.c
index 4d9d955..072f6ee 100644
--- a/src/utils/unzipper.c
+++ b/src/utils/unzipper.c
@@ -231,7 +231,22 @@ const char *zip_file_read(FILE *zip, ZipFile *file, void **buffer_ptr)
 	}
 END:
 	inflateEnd(&strm);
-	return NULL;
+	return zip_check_data(file, mz_crc32(MZ_CRC32_INIT, start, strm.total_out), strm.total_out);
+}
+
+// Is the name absolute, or is any part of it '..'?
+INLINE bool zip_name_escapes(const char *name)
+{
+	if (name[0] == '/' || name[0] == '\\') return true;
+	while (*name)
+	{
+		size_t len = strcspn(name, "/\\:");
+		if (name[len] == ':') return true;
+		if (len == 2 && name[0] == '.' && name[1] == '.') return true;
+		name += len;
+		if (*name) name++;
+	}
+	return false;
 }
 
 const char *zip_file_write(FILE *zip, ZipFile *file, const char *dir, bool overwrite)
@@ -239,6 +254,8 @@ const char *zip_file_write(FILE *zip, ZipFile *file, const char *dir, bool overw
 	const char *error = zip_prepare_zip_for_read(zip, file);
 	if (error) return error;
 
+	if (zip_name_escapes(file->name)) return str_printf("Illegal file name '%s'", file->name);
+
 	char *file_name;
 	char *dir_path;
 	if (!file_namesplit(file->name, &file_name, &dir_path)) return "Failed to split file name";
-- 
2.43.0


From 41b7c2accb7091c6b3dceabb2f30bf95c0e40081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:58:30 +0000
Subject: [PATCH 68/76] fix: a packed library was not unpacked anew when a file
 other than the manifest changed, empty files were left out

---
 src/build/libraries.c |  8 +++++---
 src/utils/lib.h       |  1 +
 src/utils/unzipper.c  | 20 ++++++++++++++++++++
 3 files changed, 26 insertions(+), 3 deletions(-)

diff --git a/src/build/libraries.c b/src/build/libraries.c
index 0997a79..bb44dd1 100644
--- a/src/build/libraries.c
+++ b/src/build/libraries.c
@@ -215,7 +215,8 @@ static inline JSONObject *resolve_zip_library(BuildTarget *build_target, const c
 	char *lib_dir_copy = scratch_buffer_copy();
 	scratch_buffer_append("checksum.txt");
 	const char *checksum_file = scratch_buffer_to_string();
-	uint32_t crc = file.file_crc32;
+	uint32_t crc;
+	zip_check_err(lib, zip_dir_checksum(f, &crc));
 	if (file_is_dir(lib_dir))
 	{
 		size_t len;
@@ -230,9 +231,10 @@ static inline JSONObject *resolve_zip_library(BuildTarget *build_target, const c
 	while (iterator.current_file < iterator.files)
 	{
 		zip_check_err(lib, zip_dir_iterator_next(&iterator, &file));
-		if (file.uncompressed_size == 0 || file.name[0] == '.') continue;
+		size_t name_len = strlen(file.name);
+		if (!name_len || file.name[0] == '.' || file.name[name_len - 1] == '/') continue;
 		// Copy file.
-		zip_file_write(f, &file, lib_dir, false);
+		zip_check_err(lib, zip_file_write(f, &file, lib_dir, false));
 	}
 DONE:
 	fclose(f);
diff --git a/src/utils/lib.h b/src/utils/lib.h
index d1ea4f1..1af7394 100644
--- a/src/utils/lib.h
+++ b/src/utils/lib.h
@@ -717,5 +717,6 @@ typedef struct
 
 const char *zip_dir_iterator(FILE *zip, ZipDirIterator *iterator);
 const char *zip_dir_iterator_next(ZipDirIterator *iterator, ZipFile *file);
+const char *zip_dir_checksum(FILE *zip, uint32_t *checksum);
 const char *zip_file_read(FILE *zip, ZipFile *file, void **buffer_ptr);
 const char *zip_file_write(FILE *zip, ZipFile *file, const char *dir, bool overwrite);
diff --git a/src/utils/unzipper.c b/src/utils/unzipper.c
index 072f6ee..45587c5 100644
--- a/src/utils/unzipper.c
+++ b/src/utils/unzipper.c
@@ -157,6 +157,26 @@ const char *zip_dir_iterator_next(ZipDirIterator *iterator, ZipFile *file)
 	return NULL;
 }
 
+// A checksum over the names, sizes and contents of all files.
+const char *zip_dir_checksum(FILE *zip, uint32_t *checksum)
+{
+	ZipDirIterator iterator;
+	const char *error = zip_dir_iterator(zip, &iterator);
+	if (error) return error;
+	uint32_t crc = MZ_CRC32_INIT;
+	while (iterator.current_file < iterator.files)
+	{
+		ZipFile file;
+		error = zip_dir_iterator_next(&iterator, &file);
+		if (error) return error;
+		uint64_t data[2] = { file.uncompressed_size, file.file_crc32 };
+		crc = mz_crc32(crc, (uint8_t *)file.name, strlen(file.name) + 1);
+		crc = mz_crc32(crc, (uint8_t *)data, sizeof(data));
+	}
+	*checksum = crc;
+	return NULL;
+}
+
 INLINE const char *zip_prepare_zip_for_read(FILE *zip, ZipFile *file)
 {
 	if (fseek(zip, file->offset, SEEK_SET)) return "Failed to search in file.";
-- 
2.43.0


From 728eddde19cc1aa1716508f95a19ffd5662268ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:58:30 +0000
Subject: [PATCH 69/76] fix: unpacking wrote stored files late and lost the end
 of some deflated ones, damaged packed libraries were accepted or hung the
 compiler

---
 src/utils/unzipper.c | 42 ++++++++++++++++++++++++++++++++----------
 1 file changed, 32 insertions(+), 10 deletions(-)

diff --git a/src/utils/unzipper.c b/src/utils/unzipper.c
index 45587c5..f6346d3 100644
--- a/src/utils/unzipper.c
+++ b/src/utils/unzipper.c
@@ -189,20 +189,28 @@ INLINE const char *zip_prepare_zip_for_read(FILE *zip, ZipFile *file)
 	return NULL;
 }
 
+INLINE const char *zip_check_data(ZipFile *file, uint32_t crc, size_t size)
+{
+	if (size != file->uncompressed_size) return str_printf("The size of '%s' is incorrect", file->name);
+	if (crc != file->file_crc32) return str_printf("The checksum of '%s' does not match", file->name);
+	return NULL;
+}
+
 const char *zip_file_read(FILE *zip, ZipFile *file, void **buffer_ptr)
 {
 	const char *error = zip_prepare_zip_for_read(zip, file);
 	if (error) return error;
 
-	unsigned char *bytes = MALLOC(file->uncompressed_size + 1);
+	unsigned char *bytes = MALLOC((size_t)file->uncompressed_size + 1);
 	bytes[file->uncompressed_size] = 0;
 	*buffer_ptr = bytes;
+	unsigned char *start = bytes;
 
 	// Uncompressed
 	if (file->compression_method == 0)
 	{
 		if (!read_all(zip, bytes, file->uncompressed_size) || ferror(zip)) return "Failed to read data.";
-		return NULL;
+		return zip_check_data(file, mz_crc32(MZ_CRC32_INIT, bytes, file->uncompressed_size), file->uncompressed_size);
 	}
 
 	// Only deflate supported.
@@ -293,6 +301,8 @@ const char *zip_file_write(FILE *zip, ZipFile *file, const char *dir, bool overw
 	FILE *f = fopen(out_file_name, "wb");
 	if (!f) return "Failed to open file output path.";
 
+	uint32_t crc = MZ_CRC32_INIT;
+
 	// Uncompressed
 	if (file->compression_method == 0)
 	{
@@ -312,9 +322,11 @@ const char *zip_file_write(FILE *zip, ZipFile *file, const char *dir, bool overw
 				fclose(f);
 				return "Failed to write";
 			}
+			crc = mz_crc32(crc, internal_buffer, written);
 			left_to_read -= written;
 		}
-		return NULL;
+		if (fclose(f)) return "Failed to write";
+		return zip_check_data(file, crc, file->uncompressed_size);
 	}
 
 	// Only deflate supported.
@@ -328,7 +340,8 @@ const char *zip_file_write(FILE *zip, ZipFile *file, const char *dir, bool overw
 
 	// Inflate compressed data
 	long compressed_left = file->compressed_size;
-	while (compressed_left)
+	bool stream_end = false;
+	while (compressed_left && !stream_end)
 	{
 		size_t to_read = ZIP_BUFFER_SIZE < compressed_left ? ZIP_BUFFER_SIZE : compressed_left;
 		strm.avail_in = fread(internal_buffer, 1, to_read, zip);
@@ -340,12 +353,11 @@ const char *zip_file_write(FILE *zip, ZipFile *file, const char *dir, bool overw
 		}
 
 		strm.next_in = internal_buffer;
-		while (strm.avail_in)
+		do
 		{
 			strm.avail_out = FILE_OUTBUF_LEN;
 			strm.next_out = file_out_buffer;
 
-			bool stream_end = false;
 			switch (inflate(&strm, Z_NO_FLUSH))
 			{
 				case Z_STREAM_ERROR:
@@ -358,6 +370,11 @@ const char *zip_file_write(FILE *zip, ZipFile *file, const char *dir, bool overw
 				case Z_MEM_ERROR:
 					fclose(f);
 					return "Inflate memory error";
+				case Z_BUF_ERROR:
+					// Only fine if everything was already written.
+					if (!strm.avail_in) break;
+					fclose(f);
+					return "Inflate data error";
 				case Z_STREAM_END:
 					stream_end = true;
 					FALLTHROUGH;
@@ -367,17 +384,22 @@ const char *zip_file_write(FILE *zip, ZipFile *file, const char *dir, bool overw
 
 			size_t to_write = FILE_OUTBUF_LEN - strm.avail_out;
 
+			if (strm.total_out > file->uncompressed_size)
+			{
+				fclose(f);
+				return zip_check_data(file, crc, strm.total_out);
+			}
 			if (to_write > 0 && to_write != fwrite(file_out_buffer, 1, to_write, f))
 			{
 				fclose(f);
 				return "Failed to write";
 			}
-			if (stream_end) break;
-		}
+			crc = mz_crc32(crc, file_out_buffer, to_write);
+		} while (!stream_end && (strm.avail_in || !strm.avail_out));
 		compressed_left = file->compressed_size - strm.total_in;
 	}
-	fclose(f);
 	inflateEnd(&strm);
-	return NULL;
+	if (fclose(f)) return "Failed to write";
+	return zip_check_data(file, crc, strm.total_out);
 }
 
-- 
2.43.0


From efab88fa2e66c63a3e74e560910604d2e30ff08f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:09:26 +0000
Subject: [PATCH 70/76] fix: crashes and internal errors of the compiler on
 invalid programs, '&&&' as a prefix and shift assignments by anything were
 accepted

---
 src/compiler/parse_expr.c        | 4 ++--
 src/compiler/parse_global.c      | 2 +-
 src/compiler/parse_stmt.c        | 2 +-
 src/compiler/sema_decls.c        | 2 +-
 src/compiler/sema_expr.c         | 9 +++++++++
 src/compiler/semantic_analyser.c | 5 ++++-
 src/utils/lib.h                  | 2 +-
 7 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/compiler/parse_expr.c b/src/compiler/parse_expr.c
index 1d56eae..2b708ba 100644
--- a/src/compiler/parse_expr.c
+++ b/src/compiler/parse_expr.c
@@ -426,7 +426,7 @@ static Expr *parse_lambda(ParseContext *c, Expr *left)
 	Decl **decls = NULL;
 	Variadic variadic = VARIADIC_NONE;
 	int vararg_index = -1;
-	if (!parse_parameters(c, &decls, &variadic, &vararg_index, PARAM_PARSE_LAMBDA)) return false;
+	if (!parse_parameters(c, &decls, &variadic, &vararg_index, PARAM_PARSE_LAMBDA)) return poisoned_expr;
 	CONSUME_OR_RET(TOKEN_RPAREN, poisoned_expr);
 	Signature *sig = &func->func_decl.signature;
 	sig->vararg_index = vararg_index < 0 ? vec_size(decls) : vararg_index;
@@ -2012,7 +2012,7 @@ ParseRule rules[TOKEN_EOF + 1] = {
 		[TOKEN_CT_OR] = { NULL, parse_binary, PREC_OR },
 		[TOKEN_CT_CONCAT] = { NULL, parse_binary, PREC_MULTIPLICATIVE },
 		[TOKEN_AND] = { parse_unary_expr, parse_binary, PREC_AND },
-		[TOKEN_CT_AND] = { parse_unary_expr, parse_binary, PREC_AND },
+		[TOKEN_CT_AND] = { NULL, parse_binary, PREC_AND },
 		[TOKEN_EQ] = { NULL, parse_binary, PREC_ASSIGNMENT },
 		[TOKEN_PLUS_ASSIGN] = { NULL, parse_binary, PREC_ASSIGNMENT },
 		[TOKEN_MINUS_ASSIGN] = { NULL, parse_binary, PREC_ASSIGNMENT },
diff --git a/src/compiler/parse_global.c b/src/compiler/parse_global.c
index 85baf8b..b08eabc 100644
--- a/src/compiler/parse_global.c
+++ b/src/compiler/parse_global.c
@@ -2211,7 +2211,7 @@ static inline Decl *parse_attrdef(ParseContext *c)
 
 	Decl *decl = decl_new(DECL_ATTRIBUTE, symstr(c), c->span);
 
-	advance_and_verify(c, TOKEN_AT_TYPE_IDENT);
+	CONSUME_OR_RET(TOKEN_AT_TYPE_IDENT, poisoned_decl);
 
 	if (try_consume(c, TOKEN_LPAREN))
 	{
diff --git a/src/compiler/parse_stmt.c b/src/compiler/parse_stmt.c
index 9882062..dcd5ec1 100644
--- a/src/compiler/parse_stmt.c
+++ b/src/compiler/parse_stmt.c
@@ -976,7 +976,7 @@ static inline Ast *parse_decl_or_expr_stmt(ParseContext *c)
 	// If so we need to unwrap this.
 	if (expr->expr_kind == EXPR_OPTIONAL && expr->inner_expr->expr_kind == EXPR_TYPEINFO)
 	{
-		UNREACHABLE
+		RETURN_PRINT_ERROR_AT(poisoned_ast, expr, "The type was already optional.");
 	}
 	if (expr->expr_kind == EXPR_TYPEINFO)
 	{
diff --git a/src/compiler/sema_decls.c b/src/compiler/sema_decls.c
index 17cc866..57a4730 100755
--- a/src/compiler/sema_decls.c
+++ b/src/compiler/sema_decls.c
@@ -826,7 +826,7 @@ static inline bool sema_analyse_bitstruct_member(SemaContext *context, Decl *par
 		if (end)
 		{
 			// Analyse the end
-			if (!sema_analyse_expr(context, start)) return false;
+			if (!sema_analyse_expr(context, end)) return false;
 			if (!sema_cast_const(end) || !type_is_integer(end->type) || int_is_neg(end->const_expr.ixx))
 			{
 				SEMA_ERROR(end, "This must be a constant non-negative integer value.");
diff --git a/src/compiler/sema_expr.c b/src/compiler/sema_expr.c
index 7d25929..1da6752 100644
--- a/src/compiler/sema_expr.c
+++ b/src/compiler/sema_expr.c
@@ -6547,6 +6547,10 @@ BITSTRUCT_OK:
 
 	if (is_shift)
 	{
+		if (!type_flat_is_intlike(type_flatten(right->type)))
+		{
+			RETURN_SEMA_ERROR(right, "Expected an integer here, not a value of type %s.", type_quoted_error_string(right->type));
+		}
 		if (!sema_expr_check_shift_rhs(context, expr, left->type, type_flatten(left->type), right, type_flatten(right->type)))
 		{
 			return false;
@@ -10522,6 +10526,11 @@ RETRY:
 		case EXPR_IDENTIFIER:
 IDENT_CHECK:;
 		{
+			if (expr->expr_kind != EXPR_IDENTIFIER)
+			{
+				if (failed_ref) goto FAILED_REF;
+				RETURN_SEMA_ERROR(expr, "You cannot assign to a constant expression.");
+			}
 			Decl *decl = expr->ident_expr;
 			if (decl->decl_kind != DECL_VAR)
 			{
diff --git a/src/compiler/semantic_analyser.c b/src/compiler/semantic_analyser.c
index e710fa7..d9c9294 100644
--- a/src/compiler/semantic_analyser.c
+++ b/src/compiler/semantic_analyser.c
@@ -13,7 +13,10 @@ void context_change_scope_with_flags(SemaContext *context, ScopeFlags flags)
 	unsigned depth = context->active_scope.depth + 1;
 	if (depth > MAX_SCOPE_DEPTH)
 	{
-		FATAL_ERROR("Too deeply nested scopes.");
+		Decl *decl = context->current_macro ? context->current_macro : context->call_env.current_function;
+		if (!decl) error_exit("Error: Too deeply nested scopes.");
+		sema_error_at(context, decl->span, "Too deeply nested scopes.");
+		exit_compiler(EXIT_FAILURE);
 	}
 
 	bool scope_is_dead = context->active_scope.is_dead;
diff --git a/src/utils/lib.h b/src/utils/lib.h
index 1af7394..00b4f61 100644
--- a/src/utils/lib.h
+++ b/src/utils/lib.h
@@ -536,7 +536,7 @@ static char hex_conv[256] = {
 
 static inline int char_hex_to_nibble(char c)
 {
-	return hex_conv[(unsigned)c] - 1;
+	return hex_conv[(unsigned char)c] - 1;
 }
 
 static inline bool char_is_hex_or_(char c)
-- 
2.43.0


From 531f51a0d8edad0c46d5cf37fc2ab3941299f845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:11:48 +0000
Subject: [PATCH 71/76] fix: '$defined' of a generic type crashed or silently
 failed the compilation

---
 src/compiler/sema_expr.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/compiler/sema_expr.c b/src/compiler/sema_expr.c
index 1da6752..563e791 100644
--- a/src/compiler/sema_expr.c
+++ b/src/compiler/sema_expr.c
@@ -9112,7 +9112,8 @@ RETRY:
 		case TYPE_INFO_POISON:
 			return poisoned_type;
 		case TYPE_INFO_GENERIC:
-			return poisoned_type;
+			if (!sema_resolve_type_info(context, type_info, RESOLVE_TYPE_DEFAULT)) return poisoned_type;
+			return type_info->type;
 		case TYPE_INFO_VECTOR:
 		{
 			ArraySize size;
-- 
2.43.0


From 92dfea8c95bf09a7083a22d9bdc7e27559ece47a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:22:31 +0000
Subject: [PATCH 72/76] fix: cleaning deleted nothing, a library's file name
 was run by the shell, long output of library scripts failed the build, names
 of linked libraries were not quoted

---
 src/compiler/compiler.c |  2 +-
 src/compiler/linker.c   |  2 +-
 src/utils/file_utils.c  | 38 +++++++++++++++++++++++++++++++++-----
 3 files changed, 35 insertions(+), 7 deletions(-)

diff --git a/src/compiler/compiler.c b/src/compiler/compiler.c
index 0984947..d4f5122 100644
--- a/src/compiler/compiler.c
+++ b/src/compiler/compiler.c
@@ -1238,7 +1238,7 @@ PRINT_SCRIPT:;
 			printf("%.*s\n", (int)out_len, out);
 		}
 	}
-	dir_change(old_path);
+	if (compiler.build.script_dir) dir_change(old_path);
 }
 
 static void check_sanitizer_options(BuildTarget *target)
diff --git a/src/compiler/linker.c b/src/compiler/linker.c
index bba19f2..251d0b3 100644
--- a/src/compiler/linker.c
+++ b/src/compiler/linker.c
@@ -605,7 +605,7 @@ static void add_linked_libs(const char ***args_ref, const char **libs, bool is_w
 			if (str_has_suffix(lib, ".a") || str_has_suffix(lib, ".so") ||
 			    str_has_suffix(lib, ".dylib") || str_has_suffix(lib, ".tbd"))
 			{
-				add_plain_arg(lib);
+				add_quote_arg(lib);
 			}
 			else
 			{
diff --git a/src/utils/file_utils.c b/src/utils/file_utils.c
index 788fe02..de4b4e5 100644
--- a/src/utils/file_utils.c
+++ b/src/utils/file_utils.c
@@ -594,11 +594,29 @@ void file_delete_dir(const char *path)
 #if (_WIN32)
 	// Windows command to remove a directory recursively
 	const char *cmd = "rmdir /S /Q \"%s\" >nul 2>&1";
+	execute_cmd(str_printf(cmd, path), true, NULL, 2048);
 #else
-	// UNIX-like command to remove a directory recursively
-	const char *cmd = "rm -rf \"%s\"";
+	DIR *dir = opendir(path);
+	if (!dir) return;
+	struct dirent *entry;
+	while ((entry = readdir(dir)) != NULL)
+	{
+		if (str_eq(entry->d_name, ".") || str_eq(entry->d_name, "..")) continue;
+		const char *name = file_append_path(path, entry->d_name);
+		struct stat st;
+		// Do not follow symlinks.
+		if (lstat(name, &st) == 0 && S_ISDIR(st.st_mode))
+		{
+			file_delete_dir(name);
+		}
+		else
+		{
+			unlink(name);
+		}
+	}
+	closedir(dir);
+	rmdir(path);
 #endif
-	execute_cmd(str_printf(cmd, path), true, NULL, 2048);
 }
 
 void file_delete_all_files_in_dir_with_suffix(const char *path, const char *suffix)
@@ -606,10 +624,18 @@ void file_delete_all_files_in_dir_with_suffix(const char *path, const char *suff
 	ASSERT(path);
 #if (_WIN32)
 	const char *cmd = "del /q \"%s\\*%s\" >nul 2>&1";
+	execute_cmd(str_printf(cmd, path, suffix), true, NULL, 2048);
 #else
-	const char *cmd = "rm -f \"%s/*%s\"";
+	DIR *dir = opendir(path);
+	if (!dir) return;
+	struct dirent *entry;
+	while ((entry = readdir(dir)) != NULL)
+	{
+		if (entry->d_name[0] == '.' || !str_has_suffix(entry->d_name, suffix)) continue;
+		unlink(file_append_path(path, entry->d_name));
+	}
+	closedir(dir);
 #endif
-	execute_cmd(str_printf(cmd, path, suffix), true, NULL, 2048);
 }
 
 #if (_MSC_VER)
@@ -810,6 +836,8 @@ bool execute_cmd_failable(const char *cmd, char **result, const char *stdin_stri
 			if (len > limit)
 			{
 				output = str_cat(output, " ... [TRUNCATED]");
+				// Read the rest, or the command fails when it writes to the closed pipe.
+				while (fgets(buffer, BUFSIZE - 1, process)) {}
 				break;
 			}
 			len += strlen(buffer);
-- 
2.43.0


From f1aa487d9752e3f33658fe291fa7b0622e1dd92e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:22:31 +0000
Subject: [PATCH 73/76] fix: an empty '-override' list in a target did not
 override

---
 src/build/common_build.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/build/common_build.c b/src/build/common_build.c
index ffbe7eb..731b073 100644
--- a/src/build/common_build.c
+++ b/src/build/common_build.c
@@ -121,9 +121,11 @@ INLINE void append_strings_to_strings(const char*** list_of_strings_ptr, const c
 
 void get_list_append_strings(BuildParseContext context, JSONObject *json, const char ***list_ptr, const char *base, const char *override)
 {
-	const char **value = get_optional_string_array(context, json, context.target ? override : base);
+	const char *key = context.target ? override : base;
+	const char **value = get_optional_string_array(context, json, key);
 	const char **add_value = context.target ? get_optional_string_array(context, json, base) : NULL;
-	if (value) *list_ptr = value;
+	// An empty list overrides as well.
+	if (json_map_get(json, key)) *list_ptr = value;
 	if (add_value)
 	{
 		append_strings_to_strings(&add_value, *list_ptr);
-- 
2.43.0


From afd406dcc295501031f3d8b488dc4f3f868b9848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:47:01 +0000
Subject: [PATCH 74/76] fix: more crashes and internal errors of the compiler
 on invalid programs

---
 src/compiler/compiler_internal.h |  1 +
 src/compiler/expr.c              | 18 ++++++++++++++++--
 src/compiler/parse_global.c      | 12 ++++++++----
 src/compiler/parse_stmt.c        |  4 ++--
 src/compiler/sema_casts.c        |  6 ++++--
 src/compiler/sema_decls.c        |  7 ++++++-
 src/compiler/sema_expr.c         | 13 ++++++++++++-
 src/compiler/sema_stmts.c        |  1 +
 src/compiler/sema_types.c        |  5 +++++
 9 files changed, 55 insertions(+), 12 deletions(-)

diff --git a/src/compiler/compiler_internal.h b/src/compiler/compiler_internal.h
index 8d6cb68..171e976 100644
--- a/src/compiler/compiler_internal.h
+++ b/src/compiler/compiler_internal.h
@@ -2218,6 +2218,7 @@ const char *expr_kind_to_string(ExprKind kind);
 bool expr_is_simple(Expr *expr, bool to_float);
 bool expr_is_pure(Expr *expr);
 bool expr_is_runtime_const(Expr *expr);
+void expr_remove_discarded_ct_const(Expr *expr);
 Expr *expr_generate_decl(Decl *decl, Expr *assign);
 Expr *expr_new_two(Expr *first, Expr *second);
 void expr_rewrite_two(Expr *original, Expr *first, Expr *second);
diff --git a/src/compiler/expr.c b/src/compiler/expr.c
index 6a6212d..39b299f 100644
--- a/src/compiler/expr.c
+++ b/src/compiler/expr.c
@@ -291,6 +291,16 @@ bool expr_may_addr(Expr *expr)
 }
 
 
+/**
+ * Members and untyped lists only exist at compile time, when they are discarded there is nothing to emit.
+ */
+void expr_remove_discarded_ct_const(Expr *expr)
+{
+	if (!expr_is_const_member(expr) && !expr_is_const_untyped_list(expr)) return;
+	expr->expr_kind = EXPR_NOP;
+	expr->type = type_void;
+}
+
 bool expr_is_runtime_const(Expr *expr)
 {
 	ASSERT(expr->resolve_status == RESOLVE_DONE);
@@ -430,13 +440,17 @@ bool expr_is_runtime_const(Expr *expr)
 				Decl *decl = expr->ident_expr;
 				if (decl->decl_kind == DECL_VAR)
 				{
+					// Using a slice or a pointer would need to load it.
+					bool is_arraylike = type_is_any_arraylike(type_flatten(decl->type));
 					switch (decl->var.kind)
 					{
 						case VARDECL_CONST:
-						case VARDECL_GLOBAL:
 							break;
+						case VARDECL_GLOBAL:
+							if (is_arraylike) break;
+							return false;
 						case VARDECL_LOCAL:
-							if (decl->var.is_static) break;
+							if (decl->var.is_static && is_arraylike) break;
 						default:
 							return false;
 					}
diff --git a/src/compiler/parse_global.c b/src/compiler/parse_global.c
index b08eabc..6c517ed 100644
--- a/src/compiler/parse_global.c
+++ b/src/compiler/parse_global.c
@@ -886,7 +886,7 @@ Decl *parse_const_declaration(ParseContext *c, bool is_global, bool is_extern)
 	// Differentiate between global and local attributes, global have visibility
 	if (is_global)
 	{
-		if (!parse_attributes_for_global(c, decl)) return false;
+		if (!parse_attributes_for_global(c, decl)) return poisoned_decl;
 	}
 	else
 	{
@@ -895,7 +895,11 @@ Decl *parse_const_declaration(ParseContext *c, bool is_global, bool is_extern)
 		decl->is_cond = is_cond;
 	}
 
-	if (is_extern) return decl;
+	if (is_extern)
+	{
+		if (!type_info) RETURN_PRINT_ERROR_AT(poisoned_decl, decl, "An extern constant must have a type.");
+		return decl;
+	}
 	// Required initializer
 	CONSUME_OR_RET(TOKEN_EQ, poisoned_decl);
 	if (!parse_decl_initializer(c, decl)) return poisoned_decl;
@@ -924,7 +928,7 @@ Decl *parse_var_decl(ParseContext *c)
 			if (!tok_is(c, TOKEN_EQ))
 			{
 				PRINT_ERROR_HERE("'var' must always have an initial value, or the type cannot be inferred.");
-				return false;
+				return poisoned_decl;
 			}
 			advance_and_verify(c, TOKEN_EQ);
 			ASSIGN_EXPR_OR_RET(decl->var.init_expr, parse_expr(c), poisoned_decl);
@@ -2555,7 +2559,7 @@ static inline Decl *parse_func_definition(ParseContext *c, AstId contracts, Func
 	if (!parse_func_macro_header(c, func)) return poisoned_decl;
 	if (func->name[0] == '@')
 	{
-		RETURN_PRINT_ERROR_AT(false, func, "Function names may not use '@'.");
+		RETURN_PRINT_ERROR_AT(poisoned_decl, func, "Function names may not use '@'.");
 	}
 	if (!parse_fn_parameter_list(c, &(func->func_decl.signature))) return poisoned_decl;
 	if (!parse_attributes_for_global(c, func)) return poisoned_decl;
diff --git a/src/compiler/parse_stmt.c b/src/compiler/parse_stmt.c
index dcd5ec1..d7c3438 100644
--- a/src/compiler/parse_stmt.c
+++ b/src/compiler/parse_stmt.c
@@ -431,7 +431,7 @@ static inline Ast* parse_asm_block_stmt(ParseContext *c)
 		else
 		{
 			PRINT_ERROR_HERE("Only the '@pure' attribute is allowed.");
-			return false;
+			return poisoned_ast;
 		}
 		advance_and_verify(c, TOKEN_AT_IDENT);
 		if (!tok_is(c, TOKEN_LBRACE))
@@ -466,7 +466,7 @@ static inline Ast* parse_asm_block_stmt(ParseContext *c)
 		else
 		{
 			PRINT_ERROR_HERE("Only the '@pure' attribute is allowed.");
-			return false;
+			return poisoned_ast;
 		}
 		advance_and_verify(c, TOKEN_AT_IDENT);
 	}
diff --git a/src/compiler/sema_casts.c b/src/compiler/sema_casts.c
index bcf100a..3e3b40d 100644
--- a/src/compiler/sema_casts.c
+++ b/src/compiler/sema_casts.c
@@ -287,10 +287,10 @@ Type *type_infer_len_from_actual_type(Type *to_infer, Type *actual_type)
 			// The case of int[*][2] x = ...
 			return type_add_optional(type_get_array(indexed, to_infer->array.len), is_optional);
 		case TYPE_INFERRED_ARRAY:
-			ASSERT(type_is_arraylike(type_flatten(actual_type)));
+			if (!type_is_arraylike(type_flatten(actual_type))) return type_add_optional(to_infer, is_optional);
 			return type_add_optional(type_get_array(indexed, type_flatten(actual_type)->array.len), is_optional);
 		case TYPE_INFERRED_VECTOR:
-			ASSERT(type_is_arraylike(type_flatten(actual_type)));
+			if (!type_is_arraylike(type_flatten(actual_type))) return type_add_optional(to_infer, is_optional);
 			return type_add_optional(type_get_vector(indexed, type_flatten(actual_type)->array.len), is_optional);
 		case TYPE_SLICE:
 			return type_add_optional(type_get_slice(indexed), is_optional);
@@ -1139,6 +1139,7 @@ static bool rule_slice_to_infer(CastContext *cc, bool is_explicit, bool is_silen
 static bool rule_vecarr_to_infer(CastContext *cc, bool is_explicit, bool is_silent)
 {
 	Type *new_type = type_infer_len_from_actual_type(cc->to, cc->from);
+	if (type_len_is_inferred(new_type)) return sema_cast_error(cc, false, is_silent);
 	cast_context_set_to(cc, new_type);
 	return cast_is_allowed(cc, is_explicit, is_silent);
 }
@@ -1204,6 +1205,7 @@ static bool rule_ptr_to_infer(CastContext *cc, bool is_explicit, bool is_silent)
 	if (cc->to->type_kind != TYPE_POINTER) return sema_cast_error(cc, false, is_silent);
 
 	Type *new_type = type_infer_len_from_actual_type(cc->to, cc->from);
+	if (type_len_is_inferred(new_type)) return sema_cast_error(cc, false, is_silent);
 	cast_context_set_to(cc, new_type->pointer->canonical);
 	cast_context_set_from(cc, cc->from->pointer);
 	return cast_is_allowed(cc, is_explicit, is_silent);
diff --git a/src/compiler/sema_decls.c b/src/compiler/sema_decls.c
index 57a4730..cc0e310 100755
--- a/src/compiler/sema_decls.c
+++ b/src/compiler/sema_decls.c
@@ -3947,7 +3947,7 @@ static inline bool sema_analyse_func(SemaContext *context, Decl *decl, bool *era
 		unsigned params = vec_size(sig->params);
 		if (params)
 		{
-			RETURN_SEMA_ERROR(sig->params[0], "%s functions may not take any parameters.",
+			RETURN_SEMA_ERROR(sig->params[0] ? sig->params[0] : decl, "%s functions may not take any parameters.",
 							  is_init_finalizer ? "'@init' and '@finalizer'" : "'@test' and '@benchmark'");
 		}
 		TypeInfo *rtype_info = type_infoptr(sig->rtype);
@@ -4327,6 +4327,11 @@ bool sema_analyse_var_decl_ct(SemaContext *context, Decl *decl)
 			if (type_info)
 			{
 				if (!sema_resolve_type_info(context, type_info, RESOLVE_TYPE_ALLOW_INFER)) goto FAIL;
+				if (type_is_optional(type_info->type))
+				{
+					SEMA_ERROR(type_info, "A compile time variable may not be optional.");
+					goto FAIL;
+				}
 				// Set the type of the declaration.
 				decl->type = type_info->type;
 				init = decl->var.init_expr;
diff --git a/src/compiler/sema_expr.c b/src/compiler/sema_expr.c
index 563e791..0e7b08a 100644
--- a/src/compiler/sema_expr.c
+++ b/src/compiler/sema_expr.c
@@ -2979,6 +2979,11 @@ static inline bool sema_expr_analyse_call(SemaContext *context, Expr *expr, bool
 {
 	if (no_match_ref) *no_match_ref = true;
 	Expr *func_expr = exprptr(expr->call_expr.function);
+	if (func_expr->expr_kind == EXPR_BUILTIN && func_expr->resolve_status != RESOLVE_DONE)
+	{
+		if (!sema_expr_analyse_builtin(context, func_expr, true)) return expr_poison(func_expr);
+		func_expr->resolve_status = RESOLVE_DONE;
+	}
 	if (!sema_analyse_expr_value(context, func_expr)) return false;
 	if (func_expr->expr_kind == EXPR_MACRO_BODY_EXPANSION)
 	{
@@ -5333,6 +5338,10 @@ static inline bool sema_expr_analyse_access(SemaContext *context, Expr *expr, bo
 	// 3. Find the actual token.
 	Expr *identifier = sema_expr_resolve_access_child(context, child, missing_ref);
 	if (!identifier) return false;
+	if (identifier->expr_kind != EXPR_UNRESOLVED_IDENTIFIER)
+	{
+		RETURN_SEMA_ERROR(identifier, "Expected an identifier here.");
+	}
 	const char *kw = identifier->unresolved_ident_expr.ident;
 
 	// 2. If our left-hand side is a type, e.g. MyInt.abc, handle this here.
@@ -5830,6 +5839,7 @@ static inline bool sema_expr_analyse_expr_list(SemaContext *context, Expr *expr)
 		Expr *checked_expr = expr->expression_list[i];
 		if (!sema_analyse_expr(context, checked_expr)) return false;
 		if (i != last && !sema_expr_check_discard(context, checked_expr)) return false;
+		expr_remove_discarded_ct_const(checked_expr);
 	}
 	expr->type = expr->expression_list[last]->type;
 	return success;
@@ -10182,7 +10192,8 @@ static inline bool sema_analyse_expr_dispatch(SemaContext *context, Expr *expr,
 		case EXPR_RETVAL:
 			return sema_expr_analyse_retval(context, expr);
 		case EXPR_BUILTIN:
-			return sema_expr_analyse_builtin(context, expr, true);
+			if (!sema_expr_analyse_builtin(context, expr, true)) return false;
+			RETURN_SEMA_ERROR(expr, "A builtin can't be used as a value, it must be called.");
 		case EXPR_CT_CALL:
 			return sema_expr_analyse_ct_call(context, expr);
 		case EXPR_HASH_IDENT:
diff --git a/src/compiler/sema_stmts.c b/src/compiler/sema_stmts.c
index 1bb4742..3a4a183 100644
--- a/src/compiler/sema_stmts.c
+++ b/src/compiler/sema_stmts.c
@@ -1043,6 +1043,7 @@ static inline bool sema_analyse_cond_list(SemaContext *context, Expr *expr, Cond
 	for (unsigned i = 0; i < entries - 1; i++)
 	{
 		if (!sema_analyse_expr(context, dexprs[i])) return false;
+		expr_remove_discarded_ct_const(dexprs[i]);
 	}
 
 	if (!sema_analyse_last_cond(context, dexprs[entries - 1], cond_type, result)) return false;
diff --git a/src/compiler/sema_types.c b/src/compiler/sema_types.c
index feb0b40..1b83f9f 100644
--- a/src/compiler/sema_types.c
+++ b/src/compiler/sema_types.c
@@ -100,6 +100,11 @@ bool sema_resolve_array_like_len(SemaContext *context, TypeInfo *type_info, Arra
 
 static inline bool sema_check_array_type(SemaContext *context, TypeInfo *original_info, Type *base, TypeInfoKind kind, ArraySize len, Type **result_ref)
 {
+	Type *canonical = base->canonical;
+	if (canonical->type_kind == TYPE_DISTINCT && canonical->decl->resolve_status == RESOLVE_NOT_DONE)
+	{
+		if (!sema_analyse_decl(context, canonical->decl)) return type_info_poison(original_info);
+	}
 	Type *distinct_base = type_flatten(base);
 
 	// We don't want to allow arrays with flexible members
-- 
2.43.0


From da6b151e51145dd6e34749041163f50b77142882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:10:10 +0000
Subject: [PATCH 75/76] fix: failures of reading and writing were not noticed
 or crashed the compiler, 'C3C_CC' crashed it, static libraries contained
 times and users

---
 src/build/libraries.c            |  1 +
 src/build/project_creation.c     |  4 ++--
 src/build/project_manipulation.c | 31 +++++++++++++++++++++++--------
 src/compiler/compiler.c          |  2 +-
 src/compiler/headers.c           |  4 +++-
 src/compiler/llvm_codegen.c      | 17 +++++++++++++----
 src/main.c                       |  7 +++++++
 src/utils/file_utils.c           | 32 ++++++++++++++++++++++++--------
 src/utils/lib.h                  |  1 +
 src/utils/taskqueue.c            |  7 +++++++
 src/utils/whereami.c             |  2 +-
 wrapper/src/wrapper.cpp          | 21 ++++++++++++++++++---
 12 files changed, 101 insertions(+), 28 deletions(-)

diff --git a/src/build/libraries.c b/src/build/libraries.c
index bb44dd1..3ce7766 100644
--- a/src/build/libraries.c
+++ b/src/build/libraries.c
@@ -223,6 +223,7 @@ static inline JSONObject *resolve_zip_library(BuildTarget *build_target, const c
 		char *data = file_exists(checksum_file) ? file_read_all(checksum_file, &len) : NULL;
 		if (data && crc == strtoll(data, &data, 16)) goto DONE;
 		file_delete_dir(lib_dir);
+		if (file_is_dir(lib_dir)) error_exit("Failed to remove the outdated directory '%s'.", lib_dir);
 	}
 	dir_make_recursive(lib_dir_copy);
 
diff --git a/src/build/project_creation.c b/src/build/project_creation.c
index cf9a674..362f544 100644
--- a/src/build/project_creation.c
+++ b/src/build/project_creation.c
@@ -362,9 +362,9 @@ static void create_file_or_fail(BuildOptions *build_options, const char *filenam
 	}
 	va_list list;
 	va_start(list, fmt);
-	(void) vfprintf(file, fmt, list);
+	bool write_failed = vfprintf(file, fmt, list) < 0;
 	va_end(list);
-	if (fclose(file))
+	if (fclose(file) || write_failed)
 	{
 		delete_dir_and_exit(build_options, "Couldn't close the '%s' file.", filename);
 	}
diff --git a/src/build/project_manipulation.c b/src/build/project_manipulation.c
index c986e04..88c80f7 100644
--- a/src/build/project_manipulation.c
+++ b/src/build/project_manipulation.c
@@ -345,6 +345,27 @@ void fetch_project(BuildOptions* options)
 #endif
 
 
+/**
+ * Replace the project file only when the new one is complete.
+ */
+static void write_project_file(const char *filename, JSONObject *project_json)
+{
+	const char *temp_name = str_printf("%s.tmp", filename);
+	FILE *file = fopen(temp_name, "w");
+	if (!file) error_exit("Failed to open file '%s'", temp_name);
+	print_json_to_file(project_json, file);
+	bool write_failed = ferror(file);
+	if (fclose(file)) write_failed = true;
+#if PLATFORM_WINDOWS
+	if (!write_failed) file_delete_file(filename);
+#endif
+	if (write_failed || rename(temp_name, filename))
+	{
+		file_delete_file(temp_name);
+		error_exit("Failed to write file '%s'", filename);
+	}
+}
+
 void add_libraries_to_project_file(const char** libs, const char* target_name) {
 
 	if (!file_exists(PROJECT_JSON5) && !file_exists(PROJECT_JSON)) return;
@@ -379,10 +400,7 @@ void add_libraries_to_project_file(const char** libs, const char* target_name) {
 	libraries_json->elements = elements;
 
 	// write to project json file
-	FILE *file = fopen(filename, "w");
-	if (!file) error_exit("Failed to open file '%s'", filename);
-	print_json_to_file(project_json, file);
-	fclose(file);
+	write_project_file(filename, project_json);
 }
 
 void add_target_project(BuildOptions *build_options)
@@ -420,10 +438,7 @@ void add_target_project(BuildOptions *build_options)
 
 	json_map_set(targets_json, build_options->project_options.target_name, new_target);
 
-	FILE *file = fopen(filename, "w");
-	if (!file) error_exit("Failed to open file '%s'", filename);
-	print_json_to_file(project_json, file);
-	fclose(file);
+	write_project_file(filename, project_json);
 }
 
 static void view_filtered_project_properties(BuildOptions *build_options, const char* filename, JSONObject *project_json)
diff --git a/src/compiler/compiler.c b/src/compiler/compiler.c
index d4f5122..af55687 100644
--- a/src/compiler/compiler.c
+++ b/src/compiler/compiler.c
@@ -1678,7 +1678,7 @@ const char *default_c_compiler(void)
 	if (cc_env && strlen(cc_env) > 0)
 	{
 		INFO_LOG("Setting CC to %s from environment variable 'C3C_CC'.", cc_env);
-		cc = strdup(cc);
+		cc = strdup(cc_env);
 		return cc;
 	}
 #if PLATFORM_WINDOWS
diff --git a/src/compiler/headers.c b/src/compiler/headers.c
index 88e33ee..0ad0806 100644
--- a/src/compiler/headers.c
+++ b/src/compiler/headers.c
@@ -767,6 +767,7 @@ void header_gen(Module **modules, unsigned module_count)
 	const char *name = build_base_name();
 	const char *filename = str_printf("%s.h", name);
 	FILE *file = fopen(filename, "w");
+	if (!file) error_exit("Failed to open the header file '%s'.", filename);
 	HeaderContext context = { .file = file, .gen_def = &table1, .gen_decl = &table2 };
 	HeaderContext *c = &context;
 	PRINTF("#include <stdint.h>\n");
@@ -799,7 +800,8 @@ void header_gen(Module **modules, unsigned module_count)
 	header_gen_global_decls(c, modules, module_count, false);
 	process_queue(c);
 	header_gen_global_decls(c, modules, module_count, true);
-	fclose(file);
+	bool write_failed = ferror(file);
+	if (fclose(file) || write_failed) error_exit("Failed to write the header file '%s'.", filename);
 
 }
 
diff --git a/src/compiler/llvm_codegen.c b/src/compiler/llvm_codegen.c
index 2d6e8a1..385f2f0 100644
--- a/src/compiler/llvm_codegen.c
+++ b/src/compiler/llvm_codegen.c
@@ -712,7 +712,14 @@ static void llvm_emit_file(GenContext *c, const char *filename, LLVMCodeGenFileT
 		ptr += written;
 		len -= written;
 	}
-	fclose(file);
+	// What was written is only on its way until the file is closed.
+	int close_failed = fclose(file);
+	file = NULL;
+	if (close_failed)
+	{
+		err = "Failed to write to file";
+		goto ERR;
+	}
 	LLVMDisposeMemoryBuffer(buffer);
 	return;
 ERR:
@@ -723,11 +730,13 @@ ERR:
 
 void gencontext_print_llvm_ir(GenContext *context)
 {
-	char *err = NULL;
-	if (LLVMPrintModuleToFile(context->module, context->ir_filename, &err))
+	// Not with 'LLVMPrintModuleToFile', as it ends the process in this thread when writing fails.
+	char *ir = LLVMPrintModuleToString(context->module);
+	if (!file_write_all(context->ir_filename, ir, strlen(ir)))
 	{
-		error_exit("Could not emit ir '%s' to file: %s", context->ir_filename, err);
+		error_exit("Could not emit ir '%s' to file.", context->ir_filename);
 	}
+	LLVMDisposeMessage(ir);
 }
 
 
diff --git a/src/main.c b/src/main.c
index e469b0d..8701e24 100644
--- a/src/main.c
+++ b/src/main.c
@@ -12,6 +12,13 @@ jmp_buf on_error_jump;
 NORETURN void exit_compiler(int exit_value)
 {
 	ASSERT(exit_value != 0);
+	if (taskqueue_is_running)
+	{
+		// Other threads are using the memory, and this may not be the thread of the jump.
+		fflush(stdout);
+		fflush(stderr);
+		_Exit(exit_value == COMPILER_SUCCESS_EXIT ? EXIT_SUCCESS : exit_value);
+	}
 	longjmp(on_error_jump, exit_value);
 }
 
diff --git a/src/utils/file_utils.c b/src/utils/file_utils.c
index de4b4e5..8f70f85 100644
--- a/src/utils/file_utils.c
+++ b/src/utils/file_utils.c
@@ -263,7 +263,8 @@ bool file_write_all(const char *path, const char *data, size_t len)
 	FILE *file = file_open_write(path);
 	if (file == NULL) return false;
 	bool success = len == fwrite(data, 1, len, file);
-	fclose(file);
+	// What was written is only on its way until the file is closed.
+	if (fclose(file)) success = false;
 	return success;
 }
 
@@ -276,8 +277,12 @@ char *file_read_all(const char *path, size_t *return_size)
 		error_exit("Could not open file \"%s\".\n", path);
 	}
 
-	fseek(file, 0L, SEEK_END);
-	size_t file_size = (size_t)ftell(file);
+	long end;
+	if (fseek(file, 0L, SEEK_END) || (end = ftell(file)) < 0 || end == LONG_MAX)
+	{
+		error_exit("Failed to read file \"%s\".\n", path);
+	}
+	size_t file_size = (size_t)end;
 	*return_size = file_size;
 	rewind(file);
 
@@ -330,11 +335,17 @@ char *file_read_binary(const char *path, size_t *size)
 
 	if (file == NULL) return NULL;
 
-	fseek(file, 0L, SEEK_END);
-	size_t file_size = (size_t)ftell(file);
+	long end;
+	if (fseek(file, 0L, SEEK_END) || (end = ftell(file)) < 0 || end == LONG_MAX)
+	{
+		fclose(file);
+		return NULL;
+	}
+	size_t file_size = (size_t)end;
 
 	if (!file_size)
 	{
+		fclose(file);
 		*size = 0;
 		return zero;
 	}
@@ -790,7 +801,7 @@ char *execute_cmd(const char *cmd, bool ignore_failure, const char *stdin_string
 	if (!success)
 	{
 		if (ignore_failure) return "";
-		if (strlen(result))
+		if (result && strlen(result))
 		{
 			eprintf("+-- Command output --------------------+\n");
 			eprintf("%s\n", result);
@@ -820,8 +831,13 @@ bool execute_cmd_failable(const char *cmd, char **result, const char *stdin_stri
 		free((char*)cmd);
 		cmd = scratch_buffer_to_string();
 		FILE *f = fopen("__c3temp.bin", "w");
-		fputs(stdin_string, f);
-		fclose(f);
+		if (!f) return false;
+		bool written = fputs(stdin_string, f) >= 0;
+		if (fclose(f) || !written)
+		{
+			file_delete_file("__c3temp.bin");
+			return false;
+		}
 	}
 #if (PLATFORM_WINDOWS)
 	if (!(process = _wpopen(win_utf8to16(cmd), L"rb"))) return false;
diff --git a/src/utils/lib.h b/src/utils/lib.h
index 00b4f61..bb2919a 100644
--- a/src/utils/lib.h
+++ b/src/utils/lib.h
@@ -128,6 +128,7 @@ void free_arena(void);
 void print_arena_status(void);
 void run_arena_allocator_tests(void);
 void taskqueue_run(int threads, Task **task_list);
+extern bool taskqueue_is_running;
 int cpus(void);
 const char *date_get(void);
 const char *time_get(void);
diff --git a/src/utils/taskqueue.c b/src/utils/taskqueue.c
index 386f1b0..5231c7c 100644
--- a/src/utils/taskqueue.c
+++ b/src/utils/taskqueue.c
@@ -4,6 +4,9 @@
 // Our task queue is only made for scheduling compilation tasks so there is
 // a single thread that adds the tasks.
 
+// While this is set there may be several threads.
+bool taskqueue_is_running;
+
 #if USE_PTHREAD
 #include <pthread.h>
 
@@ -38,6 +41,7 @@ void taskqueue_run(int threads, Task **task_list)
 	pthread_t *pthreads = malloc(sizeof(pthread_t) * (unsigned)threads);
 	TaskQueue queue = { .queue = task_list };
 	if (pthread_mutex_init(&queue.lock, NULL)) error_exit("Failed to set up mutex");
+	taskqueue_is_running = true;
 	for (int i = 0; i < threads; i++)
 	{
 		if (pthread_create(&pthreads[i], NULL, taskqueue_thread, &queue)) error_exit("Fail to set up thread pool");
@@ -46,6 +50,7 @@ void taskqueue_run(int threads, Task **task_list)
 	{
 		if (pthread_join(pthreads[i], NULL) != 0) error_exit("Failed to join thread.");
 	}
+	taskqueue_is_running = false;
 	free(pthreads);
 	pthread_mutex_destroy(&queue.lock);
 }
@@ -86,6 +91,7 @@ void taskqueue_run(int threads, Task **task_list)
 	HANDLE *handles = malloc(sizeof(HANDLE) * (unsigned)threads);
 	TaskQueue queue = { .queue = task_list };
 	InitializeCriticalSection(&queue.lock);
+	taskqueue_is_running = true;
 	for (int i = 0; i < threads; i++)
 	{
 		handles[i] = (HANDLE)_beginthreadex(NULL, 0, taskqueue_thread, &queue, 0, NULL);
@@ -97,6 +103,7 @@ void taskqueue_run(int threads, Task **task_list)
 	{
 		CloseHandle(handles[i]);
 	}
+	taskqueue_is_running = false;
 	free((void*)handles);
 	DeleteCriticalSection(&queue.lock);
 }
diff --git a/src/utils/whereami.c b/src/utils/whereami.c
index ada5312..392e4e9 100644
--- a/src/utils/whereami.c
+++ b/src/utils/whereami.c
@@ -416,7 +416,7 @@ static int get_executable_path_raw(char *out, int capacity, int *dirname_length)
 char *find_executable_path(void)
 {
 	int len = get_executable_path_raw(NULL, 0, NULL);
-	if (len < 0) return "";
+	if (len < 0) return strdup("");
 	char *path = malloc((unsigned)len + 1);
 	get_executable_path_raw(path, len, NULL);
 	path[len] = '\0';
diff --git a/wrapper/src/wrapper.cpp b/wrapper/src/wrapper.cpp
index 2b63565..1bb0e32 100644
--- a/wrapper/src/wrapper.cpp
+++ b/wrapper/src/wrapper.cpp
@@ -289,7 +289,7 @@ bool llvm_ar(const char *out_name, const char **args, size_t count, int ArFormat
 	std::vector<llvm::NewArchiveMember> new_members{};
 	for (size_t i = 0; i < count; i++)
 	{
-		auto member = llvm::NewArchiveMember::getFile(std::string(args[i]), false);
+		auto member = llvm::NewArchiveMember::getFile(std::string(args[i]), true);
 		if (!member) return false;
 		if (is_win)
 		{
@@ -300,10 +300,25 @@ bool llvm_ar(const char *out_name, const char **args, size_t count, int ArFormat
 		new_members.push_back(std::move(*member));
 	}
 #if LLVM_VERSION_MAJOR > 17
-	return !llvm::writeArchive(std::string(out_name), std::move(new_members), llvm::SymtabWritingMode::NormalSymtab, kind, true, false, nullptr);
+	auto archive = llvm::writeArchiveToBuffer(new_members, llvm::SymtabWritingMode::NormalSymtab, kind, true, false);
 #else
-	return !llvm::writeArchive(std::string(out_name), std::move(new_members), true, kind, true, false, nullptr);
+	auto archive = llvm::writeArchiveToBuffer(new_members, true, kind, true, false);
 #endif
+	if (!archive)
+	{
+		llvm::consumeError(archive.takeError());
+		return false;
+	}
+	// Not with 'writeArchive', as it ends the process when writing fails, leaving a part of the archive.
+	std::error_code error;
+	llvm::raw_fd_ostream out(out_name, error);
+	if (error) return false;
+	out << (*archive)->getBuffer();
+	out.close();
+	if (!out.has_error()) return true;
+	out.clear_error();
+	llvm::sys::fs::remove(out_name);
+	return false;
 }
 
 int llvm_version_major = LLVM_VERSION_MAJOR;
-- 
2.43.0


From 579a5f675ad9ebb7a3b616f3e26d3299bd9b291c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:19:51 +0000
Subject: [PATCH 76/76] fix: inferred lengths below slices, types as values of
 '?:', elements of untyped lists as targets and named arguments of builtins
 crashed the compiler

---
 src/build/libraries.c        | 2 +-
 src/compiler/sema_builtins.c | 4 ++++
 src/compiler/sema_casts.c    | 2 ++
 src/compiler/sema_decls.c    | 5 +++++
 src/compiler/sema_expr.c     | 8 ++++++++
 5 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/build/libraries.c b/src/build/libraries.c
index 3ce7766..8970f88 100644
--- a/src/build/libraries.c
+++ b/src/build/libraries.c
@@ -235,7 +235,7 @@ static inline JSONObject *resolve_zip_library(BuildTarget *build_target, const c
 		size_t name_len = strlen(file.name);
 		if (!name_len || file.name[0] == '.' || file.name[name_len - 1] == '/') continue;
 		// Copy file.
-		zip_check_err(lib, zip_file_write(f, &file, lib_dir, false));
+		zip_check_err(lib, zip_file_write(f, &file, lib_dir, true));
 	}
 DONE:
 	fclose(f);
diff --git a/src/compiler/sema_builtins.c b/src/compiler/sema_builtins.c
index 9cb2b3a..4195d11 100644
--- a/src/compiler/sema_builtins.c
+++ b/src/compiler/sema_builtins.c
@@ -496,6 +496,10 @@ bool sema_expr_analyse_builtin_call(SemaContext *context, Expr *expr)
 	BuiltinFunction func = exprptr(expr->call_expr.function)->builtin_expr.builtin;
 	Expr **args = expr->call_expr.arguments;
 	unsigned arg_count = vec_size(args);
+	FOREACH(Expr *, arg, args)
+	{
+		if (arg->expr_kind == EXPR_NAMED_ARGUMENT) RETURN_SEMA_ERROR(arg, "Builtins have no named parameters.");
+	}
 	int expected_args = builtin_expected_args(func);
 	bool expect_vararg = false;
 	if (expected_args < 0)
diff --git a/src/compiler/sema_casts.c b/src/compiler/sema_casts.c
index 3e3b40d..8652413 100644
--- a/src/compiler/sema_casts.c
+++ b/src/compiler/sema_casts.c
@@ -1118,6 +1118,8 @@ static bool rule_slice_to_infer(CastContext *cc, bool is_explicit, bool is_silen
 	{
 		cast_context_set_from(cc, cc->from->array.base);
 		cast_context_set_to(cc, cc->to->array.base);
+		// The length of the expression is not the length of the elements.
+		if (cc->from->type_kind == TYPE_SLICE && cc->to->type_kind != TYPE_SLICE) return sema_cast_error(cc, false, is_silent);
 		return cast_is_allowed(cc, is_explicit, is_silent);
 	}
 	// 2. Otherwise there is a vector matching.
diff --git a/src/compiler/sema_decls.c b/src/compiler/sema_decls.c
index cc0e310..f2f1c68 100755
--- a/src/compiler/sema_decls.c
+++ b/src/compiler/sema_decls.c
@@ -4584,6 +4584,11 @@ bool sema_analyse_var_decl(SemaContext *context, Decl *decl, bool local)
 		if (infer_len)
 		{
 			decl->type = type_add_optional(init->type, IS_OPTIONAL(decl));
+			if (type_len_is_inferred(decl->type))
+			{
+				SEMA_ERROR(init, "The length of the type cannot be inferred from this expression.");
+				return decl_poison(decl);
+			}
 		}
 
 		// 2. Check const-ness
diff --git a/src/compiler/sema_expr.c b/src/compiler/sema_expr.c
index 0e7b08a..b139b0d 100644
--- a/src/compiler/sema_expr.c
+++ b/src/compiler/sema_expr.c
@@ -961,6 +961,8 @@ static inline bool sema_expr_analyse_ternary(SemaContext *context, Type *infer_t
 	Type *right_canonical = right->type->canonical;
 	if (left_canonical != right_canonical)
 	{
+		if (left_canonical == type_typeinfo) RETURN_SEMA_ERROR(left, "A value was expected here, not a type.");
+		if (right_canonical == type_typeinfo) RETURN_SEMA_ERROR(right, "A value was expected here, not a type.");
 		Type *max = type_find_max_type(type_no_optional(left_canonical), type_no_optional(right_canonical));
 		if (!max)
 		{
@@ -3345,6 +3347,12 @@ static inline bool sema_expr_analyse_subscript_lvalue(SemaContext *context, Expr
 		return false;
 	}
 
+	if (current_type == type_untypedlist && current_expr->expr_kind != EXPR_CT_IDENT)
+	{
+		if (check_valid) goto VALID_FAIL_POISON;
+		RETURN_SEMA_ERROR(subscripted, "An element of an untyped list can only be assigned if the list is a compile time variable.");
+	}
+
 	// 4. If we are indexing into a complist
 	if (current_expr->expr_kind == EXPR_CT_IDENT)
 	{
-- 
2.43.0

