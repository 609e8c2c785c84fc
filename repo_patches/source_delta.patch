From 168c08d53800f2e07395f68417ee493e0356b75e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:19 +0000
Subject: [PATCH 01/28] fix: allocate the stack frame before storing arguments
 in it

Register arguments were stored below sp, where a signal handler running
on the same stack overwrites them.
---
 codegen.c | 34 +++++++++++++++++++++++-----------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/codegen.c b/codegen.c
index eabf11d..98c668f 100644
--- a/codegen.c
+++ b/codegen.c
@@ -1953,11 +1953,11 @@ static void emit_data(struct Obj *prog)
 
 static void store_args(int r, int offset, int sz)
 {
-	const char *rs = "sp";
+	const char *rs = "fp";
 
 	if (beyond_instruction_offset(offset)) {
 		println("\tli t0, %d", offset);
-		println("\tadd t0, sp, t0");
+		println("\tadd t0, fp, t0");
 		rs = "t0";
 		offset = 0;
 	}
@@ -1992,13 +1992,22 @@ static void store_fltargs(size_t r, int offset, int sz)
 {
 	assert(r < MAX_ARG_REGS);
 
+	const char *rs = "fp";
+
+	if (beyond_instruction_offset(offset)) {
+		println("\tli t0, %d", offset);
+		println("\tadd t0, fp, t0");
+		rs = "t0";
+		offset = 0;
+	}
+
 	switch (sz) {
 	case sizeof(float):
-		println("\tfsw %s, %d(sp)", argflt[r], offset);
+		println("\tfsw %s, %d(%s)", argflt[r], offset, rs);
 		break;
 
 	case sizeof(double):
-		println("\tfsd %s, %d(sp)", argflt[r], offset);
+		println("\tfsd %s, %d(%s)", argflt[r], offset, rs);
 		break;
 
 	default:
@@ -2074,6 +2083,16 @@ static void emit_text(struct Obj *prog)
 		for (int i = 0; i < 12; i++)
 			println("\tfsgnj.d ft%d, fs%d, fs%d", i, i, i);
 
+		// Allocate the frame before anything is stored in it:
+		// memory below sp may be overwritten at any time by a
+		// signal handler.
+		if (beyond_instruction_offset(-fn->stack_size)) {
+			println("\tli t0, -%d", fn->stack_size);
+			println("\tadd sp, sp, t0");
+		} else {
+			println("\tadd sp, sp, -%d", fn->stack_size);
+		}
+
 		debug("Prologue end");
 
 		// Save passed-by-register arguments to the stack
@@ -2130,13 +2149,6 @@ static void emit_text(struct Obj *prog)
 				fn->va_area->name);
 		}
 
-		if (beyond_instruction_offset(-fn->stack_size)) {
-			println("\tli t0, -%d", fn->stack_size);
-			println("\tadd sp, sp, t0");
-		} else {
-			println("\tadd sp, sp, -%d", fn->stack_size);
-		}
-
 		debug("'%s' save args end", fn->name);
 
 		// record the bottom of alloca area
-- 
2.43.0


From 4cae0c30d1075d457a7cca893fd25b239219c6b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:46 +0000
Subject: [PATCH 02/28] fix: keep the callee-saved fs registers in the stack
 frame

They were saved in ft0-ft11, which every callee may overwrite, so a
function with two levels of calls did not preserve them.
---
 codegen.c | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/codegen.c b/codegen.c
index 98c668f..ac40496 100644
--- a/codegen.c
+++ b/codegen.c
@@ -34,6 +34,9 @@ static int count(void)
 
 #define MAX_ARG_REGS ARRAY_SIZE(argreg)
 
+// callee-saved floating-point registers: fs0-fs11
+#define NR_SAVED_FLT 12
+
 // code generator
 static int depth = 0;
 static const char * const argreg[] = {
@@ -1883,8 +1886,10 @@ static void assign_lvar_offsets(struct Obj *prog)
 			bottom = align_to(bottom, var->align);
 			var->offset = -bottom;
 		}
-		// initialize stack size
-		fn->stack_size = align_to(bottom, sizeof(long));
+		// initialize stack size, the lowest part of the frame is
+		// where the callee-saved fs0~fs11 are kept
+		fn->stack_size = align_to(bottom, sizeof(long)) +
+				 NR_SAVED_FLT * sizeof(long);
 	}
 }
 
@@ -2079,10 +2084,6 @@ static void emit_text(struct Obj *prog)
 		push("fp");
 		println("\tmv fp, sp");
 
-		debug("save all fs0~fs11 registers");
-		for (int i = 0; i < 12; i++)
-			println("\tfsgnj.d ft%d, fs%d, fs%d", i, i, i);
-
 		// Allocate the frame before anything is stored in it:
 		// memory below sp may be overwritten at any time by a
 		// signal handler.
@@ -2093,6 +2094,10 @@ static void emit_text(struct Obj *prog)
 			println("\tadd sp, sp, -%d", fn->stack_size);
 		}
 
+		debug("save all fs0~fs11 registers");
+		for (int i = 0; i < NR_SAVED_FLT; i++)
+			println("\tfsd fs%d, %ld(sp)", i, i * sizeof(long));
+
 		debug("Prologue end");
 
 		// Save passed-by-register arguments to the stack
@@ -2180,8 +2185,10 @@ static void emit_text(struct Obj *prog)
 		println("return.%s:", fn->name);
 
 		debug("restore all fs0~fs11 registers");
-		for (int i = 0; i < 12; i++)
-			println("\tfsgnj.d fs%d, ft%d, ft%d", i, i, i);
+		println("\tli t0, -%d", fn->stack_size);
+		println("\tadd t0, t0, fp");
+		for (int i = 0; i < NR_SAVED_FLT; i++)
+			println("\tfld fs%d, %ld(t0)", i, i * sizeof(long));
 
 		// restore sp register
 		println("\tmv sp, fp");
-- 
2.43.0


From 34332f26847b7cf2e6255e132d07f09ddfa0c06a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:03 +0000
Subject: [PATCH 03/28] fix: address thread-local variables relative to tp

The sequence started from pc instead of tp and only worked after linker
relaxation, that is for the first 2 KiB of thread-local storage.
---
 codegen.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/codegen.c b/codegen.c
index ac40496..3a3f535 100644
--- a/codegen.c
+++ b/codegen.c
@@ -273,9 +273,10 @@ static void gen_addr(struct Node *node)
 		// Thread-local variable
 		if (node->var->is_tls) {
 			// HI20
-			println("\tauipc a0, %%tprel_hi(%s)", node->var->name);
+			println("\tlui a0, %%tprel_hi(%s)", node->var->name);
+			println("\tadd a0, a0, tp, %%tprel_add(%s)", node->var->name);
 			// LO12
-			println("\tadd a0, a0, %%tprel_lo(%s)", node->var->name);
+			println("\taddi a0, a0, %%tprel_lo(%s)", node->var->name);
 			return;
 		}
 
-- 
2.43.0


From 13e866e31cbde3194e9c3ec02b64092ea45ace77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:28 +0000
Subject: [PATCH 04/28] fix: make compare-and-swap and exchange work for every
 object width

Both always accessed 32 bits (exchange: 32 or 64), compared an unsigned
int with its sign-extended copy, and compare-and-swap kept its operands in
temporaries that the evaluation of the next operand could overwrite.
---
 codegen.c       | 185 +++++++++++++++++++++++++++++++++++++-----------
 parser/parser.c |  15 +++-
 2 files changed, 155 insertions(+), 45 deletions(-)

diff --git a/codegen.c b/codegen.c
index 3a3f535..0a622a0 100644
--- a/codegen.c
+++ b/codegen.c
@@ -964,6 +964,135 @@ static void builtin_alloca(void)
 	println("\tsd a0, (t5)");
 }
 
+// An atomic operation wants its floating-point operand in a0
+static void to_int_reg(struct Type *ty)
+{
+	if (ty->kind == TY_FLOAT)
+		println("\tfmv.x.w a0, fa0");
+	else if (ty->kind == TY_DOUBLE)
+		println("\tfmv.x.d a0, fa0");
+}
+
+// There is no lr/sc for char and short, so operate on the aligned word
+// containing the object.
+//
+// t0: address -> address of the word
+// t5: bit offset of the object in the word
+// t6: mask of the object in the word
+static void to_container_word(int size)
+{
+	println("\tandi t5, t0, 3");
+	println("\tslli t5, t5, 3");
+	println("\tandi t0, t0, -4");
+	println("\tli t6, %d", (1 << (size * 8)) - 1);
+	println("\tand t3, t3, t6");
+	println("\tsll t3, t3, t5");
+	println("\tsll t6, t6, t5");
+}
+
+// t0: A addr
+// t1: B addr
+// t3: C value
+static void compare_and_swap(int size)
+{
+	int c = count();
+	bool is_sub_word = size < (int)sizeof(int);
+	const char *width = size == (int)sizeof(long) ? "d" : "w";
+	const char *sub_width = size == (int)sizeof(char) ? "b" : "h";
+
+	// t2: B value
+	if (is_sub_word) {
+		to_container_word(size);
+		println("\tl%su t2, (t1)", sub_width);
+		println("\tsll t2, t2, t5");
+	} else {
+		println("\tl%s t2, (t1)", width);
+	}
+
+	println(".L.cas_retry.%d:", c);
+
+	// lr(Load-Reserved):
+	// Load and Reserved control of the memory address.
+	//
+	// aq(acquisition):
+	// If the AQ bit is set, any memory operations in this
+	// hardware thread that occur after an atomic memory
+	// operation(AMO) will not occur before the AMO.
+
+	// t4: A value
+	println("\tlr.%s.aq t4, (t0)", width);
+
+	if (is_sub_word) {
+		println("\tmv a1, t4");
+		println("\tand t4, t4, t6");
+		println("\tbne t4, t2, .L.cas_return.%d", c);
+		println("\txor a1, a1, t2");
+		println("\tor a1, a1, t3");
+	} else {
+		println("\tbne t4, t2, .L.cas_return.%d", c);
+		println("\tmv a1, t3");
+	}
+
+	// sc(Store-Conditional):
+	// Writes a value from a register to a specified memory
+	// address, the write operation takes effect only if the
+	// memory address is still reserved by the processor.
+	println("\tsc.%s.aq a0, a1, (t0)", width);
+	println("\tbnez a0, .L.cas_retry.%d", c);
+
+	println(".L.cas_return.%d:", c);
+	// compare A value and B value
+	println("\txor t2, t4, t2");
+	println("\tseqz a0, t2");
+	println("\tbeqz t2, .L.cas_end.%d", c);
+
+	// if not equals, write B addr with A value
+	if (is_sub_word) {
+		println("\tsrl t4, t4, t5");
+		println("\ts%s t4, (t1)", sub_width);
+	} else {
+		println("\ts%s t4, (t1)", width);
+	}
+	println(".L.cas_end.%d:", c);
+}
+
+// Swap a0 with the object a1 is pointing to.
+static void exchange(struct Type *ty)
+{
+	if (ty->size >= (int)sizeof(int)) {
+		println("\tamoswap.%s.aq a0, a0, (a1)",
+			ty->size == (int)sizeof(int) ? "w" : "d");
+	} else {
+		int c = count();
+
+		println("\tmv t0, a1");
+		println("\tmv t3, a0");
+		to_container_word(ty->size);
+
+		println(".L.exch_retry.%d:", c);
+		println("\tlr.w.aq t4, (t0)");
+		println("\tnot t2, t6");
+		println("\tand t2, t2, t4");
+		println("\tor t2, t2, t3");
+		println("\tsc.w.aq a0, t2, (t0)");
+		println("\tbnez a0, .L.exch_retry.%d", c);
+
+		println("\tand t4, t4, t6");
+		println("\tsrl a0, t4, t5");
+	}
+
+	// give the old value the form it has after load()
+	if (ty->kind == TY_FLOAT)
+		println("\tfmv.w.x fa0, a0");
+	else if (ty->kind == TY_DOUBLE)
+		println("\tfmv.d.x fa0, a0");
+	else if (ty->size < (int)sizeof(long)) {
+		println("\tslli a0, a0, %d", 64 - ty->size * 8);
+		println("\tsr%si a0, a0, %d", ty->is_unsigned ? "l" : "a",
+			64 - ty->size * 8);
+	}
+}
+
 // Generate code for a given node.
 static void gen_expr(struct Node *node)
 {
@@ -1347,60 +1476,30 @@ static void gen_expr(struct Node *node)
 		return;
 
 	case ND_CAS:
-		// t0: A addr
+		// The operands may be any expression, so keep them on
+		// the stack until all of them are evaluated.
 		gen_expr(node->cas_addr);
-		println("\tmv t0, a0");
-		// t1: B addr
+		push("a0");
 		gen_expr(node->cas_old);
-		println("\tmv t1, a0");
-		// t2: B value
-		load(node->cas_old->ty->base);
-		println("\tmv t2, a0");
-		// t3: C value
+		push("a0");
 		gen_expr(node->cas_new);
+		to_int_reg(node->cas_new->ty);
+		// t3: C value
 		println("\tmv t3, a0");
-
-		c = count();
-		println(".L.cas_retry.%d:", c);
-
-		// lr(Load-Reserved):
-		// Load and Reserved control of the memory address.
-		//
-		// aq(acquisition):
-		// If the AQ bit is set, any memory operations in this
-		// hardware thread that occur after an atomic memory
-		// operation(AMO) will not occur before the AMO.
-
-		// t4: A value
-		println("\tlr.w.aq t4, (t0)");
-		println("\tbne t4, t2, .L.cas_return.%d", c);
-
-		// sc(Store-Conditional):
-		// Writes a value from a register to a specified memory
-		// address, the write operation takes effect only if the
-		// memory address is still reserved by the processor.
-		println("\tsc.w.aq a0, t3, (t0)");
-		println("\tbnez a0, .L.cas_retry.%d", c);
-
-		println(".L.cas_return.%d:", c);
-		// compare A value and B value
-		println("\tsubw t2, t4, t2");
-		println("\tseqz a0, t2");
-		println("\tbeqz t2, .L.cas_end.%d", c);
-
-		// if not equals, write B addr with A value
-		println("\tsw t4, (t1)");
-		println(".L.cas_end.%d:", c);
+		// t1: B addr
+		pop("t1");
+		// t0: A addr
+		pop("t0");
+		compare_and_swap(node->cas_addr->ty->base->size);
 		return;
 
 	case ND_EXCH:
 		gen_expr(node->lhs);
 		push("a0");
 		gen_expr(node->rhs);
+		to_int_reg(node->rhs->ty);
 		pop("a1");
-
-		size_t sz = node->lhs->ty->base->size;
-		println("amoswap.%s.aq a0, a0, (a1)", sz <= sizeof(int) ? "w" : "d");
+		exchange(node->lhs->ty->base);
 		return;
 
 	default:
diff --git a/parser/parser.c b/parser/parser.c
index ceb23a5..1416f06 100644
--- a/parser/parser.c
+++ b/parser/parser.c
@@ -134,6 +134,17 @@ static struct Node *generic_selection(struct Token **rest, struct Token *tok)
 // 	rest: return current tok pointer
 static struct Node *compound_stmt(struct Token **rest, struct Token *tok);
 static struct Node *unary(struct Token **rest, struct Token *tok);
+
+// Convert the new value of an atomic operation to the object's type.
+static struct Node *atomic_operand(struct Node *val, struct Node *addr)
+{
+	add_type(addr);
+
+	if (addr->ty->base && is_numeric(addr->ty->base))
+		return new_cast(val, addr->ty->base);
+	return val;
+}
+
 // primary = "(" "{" stmt+ "}" ")"
 // 	| "(" expr ")"
 //	| "sizeof" "(" type-name ")"
@@ -236,7 +247,7 @@ static struct Node *primary(struct Token **rest, struct Token *tok)
 		tok = skip(tok, ",");
 		node->cas_old = assign(&tok, tok);
 		tok = skip(tok, ",");
-		node->cas_new = assign(&tok, tok);
+		node->cas_new = atomic_operand(assign(&tok, tok), node->cas_addr);
 		*rest = skip(tok, ")");
 		return node;
 	}
@@ -247,7 +258,7 @@ static struct Node *primary(struct Token **rest, struct Token *tok)
 		tok = skip(tok->next, "(");
 		node->lhs = assign(&tok, tok);
 		tok = skip(tok, ",");
-		node->rhs = assign(&tok, tok);
+		node->rhs = atomic_operand(assign(&tok, tok), node->lhs);
 		*rest = skip(tok, ")");
 		return node;
 	}
-- 
2.43.0


From 0daf096a30d03fb6063994e0772ff77f0ac79df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:16 +0000
Subject: [PATCH 05/28] fix: update atomic structure members atomically

A compound assignment to a member took the non-atomic path whatever the
member's type, so concurrent updates were lost.
---
 parser/parser.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/parser/parser.c b/parser/parser.c
index 1416f06..068e87e 100644
--- a/parser/parser.c
+++ b/parser/parser.c
@@ -385,7 +385,10 @@ static struct Node *to_assign(struct Node *binary)
 	struct Token *tok = binary->tok;
 
 	// Convert `A.x op= C` to `tmp = &A, (*tmp).x = (*tmp).x op C`.
-	if (binary->lhs->kind == ND_MEMBER) {
+	// An atomic member is updated by its address like any other
+	// atomic object, unless it is a bit-field, which has none.
+	if (binary->lhs->kind == ND_MEMBER &&
+	    (!binary->lhs->ty->is_atomic || binary->lhs->member->is_bitfield)) {
 		// var tmp
 		struct Obj *var = new_lvar("", pointer_to(binary->lhs->lhs->ty));
 
@@ -431,10 +434,14 @@ static struct Node *to_assign(struct Node *binary)
 		struct Node head = {};
 		struct Node *cur = &head;
 
+		// the temporaries are not atomic themselves
+		struct Type *ty = copy_type(binary->lhs->ty);
+		ty->is_atomic = false;
+
 		struct Obj *addr = new_lvar("", pointer_to(binary->lhs->ty));
 		struct Obj *val = new_lvar("", binary->rhs->ty);
-		struct Obj *old = new_lvar("", binary->lhs->ty);
-		struct Obj *new = new_lvar("", binary->lhs->ty);
+		struct Obj *old = new_lvar("", ty);
+		struct Obj *new = new_lvar("", ty);
 
 		// addr = &A
 		cur = cur->next =
-- 
2.43.0


From b0c710206a93d218983b41e2c5b337aeef33105a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:20 +0000
Subject: [PATCH 06/28] fix: atomic_fetch_* return the value before the
 operation

---
 include/stdatomic.h | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/include/stdatomic.h b/include/stdatomic.h
index 22da14f..6c91052 100644
--- a/include/stdatomic.h
+++ b/include/stdatomic.h
@@ -34,17 +34,26 @@ enum memory_order {
 #define atomic_load_explicit(addr, order) (*(addr))
 #define atomic_store_explicit(addr, val, order) (*(addr) = (val))
 
-#define atomic_fetch_add(obj, val) (*(obj) += (val))
-#define atomic_fetch_sub(obj, val) (*(obj) -= (val))
-#define atomic_fetch_or(obj, val) (*(obj) |= (val))
-#define atomic_fetch_xor(obj, val) (*(obj) ^= (val))
-#define atomic_fetch_and(obj, val) (*(obj) &= (val))
+// atomically replace *obj with (*obj op val), return the old value
+#define __atomic_fetch_op(obj, op, val) ({				\
+	typeof(&*(obj)) __obj = (obj);					\
+	typeof(val) __val = (val);					\
+	typeof(*__obj) __old = *__obj;					\
+	while (!__builtin_compare_and_swap(__obj, &__old, __old op __val)); \
+	__old;								\
+})
 
-#define atomic_fetch_add_explicit(obj, val, order) (*(obj) += (val))
-#define atomic_fetch_sub_explicit(obj, val, order) (*(obj) -= (val))
-#define atomic_fetch_or_explicit(obj, val, order) (*(obj) |= (val))
-#define atomic_fetch_xor_explicit(obj, val, order) (*(obj) ^= (val))
-#define atomic_fetch_and_explicit(obj, val, order) (*(obj) &= (val))
+#define atomic_fetch_add(obj, val) __atomic_fetch_op((obj), +, (val))
+#define atomic_fetch_sub(obj, val) __atomic_fetch_op((obj), -, (val))
+#define atomic_fetch_or(obj, val) __atomic_fetch_op((obj), |, (val))
+#define atomic_fetch_xor(obj, val) __atomic_fetch_op((obj), ^, (val))
+#define atomic_fetch_and(obj, val) __atomic_fetch_op((obj), &, (val))
+
+#define atomic_fetch_add_explicit(obj, val, order) __atomic_fetch_op((obj), +, (val))
+#define atomic_fetch_sub_explicit(obj, val, order) __atomic_fetch_op((obj), -, (val))
+#define atomic_fetch_or_explicit(obj, val, order) __atomic_fetch_op((obj), |, (val))
+#define atomic_fetch_xor_explicit(obj, val, order) __atomic_fetch_op((obj), ^, (val))
+#define atomic_fetch_and_explicit(obj, val, order) __atomic_fetch_op((obj), &, (val))
 
 // __builtin_compare_and_swap(pa, pb, c_val)
 // if (*pa == *pb) then *pa = c_val, return true
-- 
2.43.0


From 5cb4dd2b0788beb00b5dba93718638000662a9e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:20 +0000
Subject: [PATCH 07/28] fix: postfix ++ and -- on an atomic bool return its old
 value

---
 parser/parser.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/parser/parser.c b/parser/parser.c
index 068e87e..337b536 100644
--- a/parser/parser.c
+++ b/parser/parser.c
@@ -522,6 +522,20 @@ static struct Node *new_inc_dec(struct Node *node, struct Token *tok, int addend
 {
 	add_type(node);
 
+	// The old value of an atomic bool can't be told from the new one.
+	// A++ sets it and A-- inverts it.
+	if (node->ty->kind == TY_BOOL && node->ty->is_atomic &&
+	    !(node->kind == ND_MEMBER && node->member->is_bitfield)) {
+		if (addend > 0)
+			return new_binary(ND_EXCH, new_unary(ND_ADDR, node, tok),
+					  new_num(1, tok), tok);
+
+		struct Node *inv = to_assign(new_binary(ND_BITXOR, node,
+							new_num(1, tok), tok));
+		return new_cast(new_binary(ND_BITXOR, inv, new_num(1, tok), tok),
+				node->ty);
+	}
+
 	struct Node *node_add = new_add(node, new_num(addend, tok), tok);
 	struct Node *node_to_assign = to_assign(node_add);
 	struct Node *node_minus = new_add(node_to_assign, new_num(-addend, tok), tok);
-- 
2.43.0


From 47816f0815d1f10fc5cd753c42701168b1b886f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:38 +0000
Subject: [PATCH 08/28] fix: order accesses to atomic objects

Atomic loads and stores were plain accesses, read-modify-write sequences
only had acquire semantics and atomic_thread_fence() was empty, so other
threads could see them out of order.
---
 codegen.c           | 25 +++++++++++++++++++------
 include/stdatomic.h |  2 +-
 2 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/codegen.c b/codegen.c
index 0a622a0..c1c890d 100644
--- a/codegen.c
+++ b/codegen.c
@@ -374,7 +374,7 @@ static void gen_addr(struct Node *node)
 static struct Obj *current_fn;
 
 // Load a value from where a0 is pointing to.
-static void load(struct Type *ty)
+static void load_value(struct Type *ty)
 {
 	// If it is an array, do not attempt to load a value
 	// to the register because in general we can't load
@@ -423,11 +423,24 @@ static void load(struct Type *ty)
 		println("\tld a0, (a0)");
 }
 
+// An access to an atomic object is sequentially consistent.
+static void load(struct Type *ty)
+{
+	if (ty->is_atomic)
+		println("\tfence rw, rw");
+	load_value(ty);
+	if (ty->is_atomic)
+		println("\tfence r, rw");
+}
+
 // Store a0 to an address that the stack top is pointing to.
 static void store(struct Type *ty)
 {
 	pop("a1");
 
+	if (ty->is_atomic)
+		println("\tfence rw, w");
+
 	switch (ty->kind) {
 	case TY_STRUCT:
 	case TY_UNION:
@@ -1020,7 +1033,7 @@ static void compare_and_swap(int size)
 	// operation(AMO) will not occur before the AMO.
 
 	// t4: A value
-	println("\tlr.%s.aq t4, (t0)", width);
+	println("\tlr.%s.aqrl t4, (t0)", width);
 
 	if (is_sub_word) {
 		println("\tmv a1, t4");
@@ -1037,7 +1050,7 @@ static void compare_and_swap(int size)
 	// Writes a value from a register to a specified memory
 	// address, the write operation takes effect only if the
 	// memory address is still reserved by the processor.
-	println("\tsc.%s.aq a0, a1, (t0)", width);
+	println("\tsc.%s.aqrl a0, a1, (t0)", width);
 	println("\tbnez a0, .L.cas_retry.%d", c);
 
 	println(".L.cas_return.%d:", c);
@@ -1060,7 +1073,7 @@ static void compare_and_swap(int size)
 static void exchange(struct Type *ty)
 {
 	if (ty->size >= (int)sizeof(int)) {
-		println("\tamoswap.%s.aq a0, a0, (a1)",
+		println("\tamoswap.%s.aqrl a0, a0, (a1)",
 			ty->size == (int)sizeof(int) ? "w" : "d");
 	} else {
 		int c = count();
@@ -1070,11 +1083,11 @@ static void exchange(struct Type *ty)
 		to_container_word(ty->size);
 
 		println(".L.exch_retry.%d:", c);
-		println("\tlr.w.aq t4, (t0)");
+		println("\tlr.w.aqrl t4, (t0)");
 		println("\tnot t2, t6");
 		println("\tand t2, t2, t4");
 		println("\tor t2, t2, t3");
-		println("\tsc.w.aq a0, t2, (t0)");
+		println("\tsc.w.aqrl a0, t2, (t0)");
 		println("\tbnez a0, .L.exch_retry.%d", c);
 
 		println("\tand t4, t4, t6");
diff --git a/include/stdatomic.h b/include/stdatomic.h
index 6c91052..134b077 100644
--- a/include/stdatomic.h
+++ b/include/stdatomic.h
@@ -24,7 +24,7 @@ enum memory_order {
 #define ATOMIC_FLAG_INIT(x) (x)
 #define atomic_init(addr, val) (*(addr) = (val))
 #define kill_dependency(x) (x)
-#define atomic_thread_fence(order)
+#define atomic_thread_fence(order) ((void)({ asm("fence rw, rw"); 0; }))
 #define atomic_signal_fence(order)
 #define atomic_is_lock_free(x) 1
 
-- 
2.43.0


From e4ca17f20f9ee778c894a6563787acf6000596c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:14 +0000
Subject: [PATCH 09/28] fix: storing a bit-field writes only the bytes it
 occupies

The whole storage unit was written back, undoing concurrent stores to
other members in it.
---
 codegen.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/codegen.c b/codegen.c
index c1c890d..53e74f8 100644
--- a/codegen.c
+++ b/codegen.c
@@ -487,6 +487,19 @@ static void store(struct Type *ty)
 		println("\tsd a0, (a1)");
 }
 
+// Store only those bytes of a0 that contain the bit-field: the rest of
+// its storage unit may belong to other members.
+static void store_bitfield(struct Member *mem)
+{
+	int end = mem->bit_offset + mem->bit_width;
+
+	pop("a1");
+	for (int i = mem->bit_offset / 8; i * 8 < end; i++) {
+		println("\tsrli t0, a0, %d", i * 8);
+		println("\tsb t0, %d(a1)", i);
+	}
+}
+
 enum {
 	I8, I16, I32, I64,
 	U8, U16, U32, U64,
@@ -1255,7 +1268,7 @@ static void gen_expr(struct Node *node)
 
 			println("\tand a0, a0, t1");
 			println("\tor a0, a0, t0");
-			store(node->ty);
+			store_bitfield(mem);
 
 			debug("merge new value into bit_field end");
 
-- 
2.43.0


From 3289025ff12a61935ac4e0e3224c04b4d2b66b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:53 +0000
Subject: [PATCH 10/28] fix: evaluating an argument may not disturb the other
 arguments

The address for the next structure argument was kept in t1 while the
arguments, which may contain calls, were evaluated.
---
 codegen.c | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/codegen.c b/codegen.c
index 53e74f8..b49e54e 100644
--- a/codegen.c
+++ b/codegen.c
@@ -674,7 +674,7 @@ static void cmp_zero(struct Type *ty)
 // When structs or unions larger than 16 bytes, save the struct
 // in caller's stack, and transmit the pointer to callee by one
 // register.
-static void push_struct(struct Type *ty)
+static void push_struct(struct Type *ty, int *struct_depth)
 {
 	int i;
 	int sz = align_to(ty->size, sizeof(long));
@@ -689,26 +689,26 @@ static void push_struct(struct Type *ty)
 		return;
 	}
 
-	// transmission by stack pointer
-	println("\tadd t1, t1, %d", -sz);
+	// transmission by stack pointer, the space is already reserved
+	*struct_depth += n;
+	println("\tli t1, %ld", (depth - *struct_depth) * sizeof(long));
+	println("\tadd t1, t1, sp");
 
 	for (i = 0; i < n; i++) {
 		// push struct content into stack
 		println("\tld t0, %ld(a0)", i * sizeof(long));
 		println("\tsd t0, %ld(t1)", i * sizeof(long));
 	}
-	depth += n;
-
 	push("t1");
 }
 
-static void push_args2(struct Node *args, bool first_pass)
+static void push_args2(struct Node *args, bool first_pass, int *struct_depth)
 {
 	if (!args)
 		return;
 
 	// in the right-to-left order
-	push_args2(args->next, first_pass);
+	push_args2(args->next, first_pass, struct_depth);
 
 	if ((first_pass && !args->pass_by_stack) ||
 	   (!first_pass && args->pass_by_stack))
@@ -719,7 +719,7 @@ static void push_args2(struct Node *args, bool first_pass)
 	switch (args->ty->kind) {
 	case TY_STRUCT:
 	case TY_UNION:
-		push_struct(args->ty);
+		push_struct(args->ty, struct_depth);
 		break;
 
 	case TY_FLOAT:
@@ -817,7 +817,7 @@ static void check_struct_contain_float(struct Token *tok,
 //
 // +---------------------------------------+
 // |       struct or union in stack        |
-// |---------------------------------------|<--- t1 <---+
+// |---------------------------------------|<-----------+
 // |                  ...                  |            |
 // |      other args passed by stack       |            |
 // |                  ...                  |            |
@@ -903,13 +903,15 @@ static size_t push_args(struct Node *node)
 	}
 
 	// expand space for struct or union in stack
-	println("\tmv t1, sp");
+	// `struct_depth` is the depth of the last used part of it
+	int struct_depth = depth;
 	println("\tadd sp, sp, -%ld", struct_stack * sizeof(long));
+	depth += struct_stack;
 
 	// push stack arguments
-	push_args2(node->args, true);
+	push_args2(node->args, true, &struct_depth);
 	// push register arguments
-	push_args2(node->args, false);
+	push_args2(node->args, false, &struct_depth);
 
 	// If the return type is a large struct/union, the caller passes
 	// a pointer to a buffer as if it were the first argument.
-- 
2.43.0


From b41f8c8b089fabda45922fe2d431187bb7488f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:51 +0000
Subject: [PATCH 11/28] fix: pass long double operands in the right registers

With other long doubles pending on the stack, operands were popped to
higher argument registers and the run-time routines used stale values.
---
 codegen.c | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/codegen.c b/codegen.c
index b49e54e..b224cbf 100644
--- a/codegen.c
+++ b/codegen.c
@@ -112,8 +112,8 @@ static int ld_sp;
 		ld_sp, __FILE__, __LINE__);	\
 } while (0)
 
-#define pop_ld() do {				\
-	__pop_ld();				\
+#define pop_ld(reg) do {			\
+	__pop_ld(reg);				\
 	ldsp_debug("pop_ld ld_sp %d at %s:%d\n",	\
 		ld_sp, __FILE__, __LINE__);	\
 } while (0)
@@ -128,13 +128,14 @@ static void __push_ld(void)
 		error("ld_sp can't be larger than 12");
 }
 
-static void __pop_ld(void)
+// pop the top of the long double stack to a<reg> and a<reg + 1>
+static void __pop_ld(int reg)
 {
 	if (ld_sp < 2)
 		error("ld_sp can't be less than 2");
 
-	println("\tfmv.x.d a%d, fs%d", ld_sp - 1, ld_sp - 1);
-	println("\tfmv.x.d a%d, fs%d", ld_sp - 2, ld_sp - 2);
+	println("\tfmv.x.d a%d, fs%d", reg + 1, ld_sp - 1);
+	println("\tfmv.x.d a%d, fs%d", reg, ld_sp - 2);
 	ld_sp -= 2;
 }
 
@@ -632,7 +633,7 @@ static void cast(struct Type *from, struct Type *to)
 		debug("cast t1 %d t2 %d", t1, t2);
 
 		if (t1 == F128)
-			pop_ld();
+			pop_ld(0);
 		println("%s", cast_matrix[t1][t2]);
 		if (t2 == F128)
 			push_ld();
@@ -655,7 +656,7 @@ static void cmp_zero(struct Type *ty)
 		break;
 
 	case TY_LDOUBLE:
-		pop_ld();
+		pop_ld(0);
 		println("\tli a2, 0");
 		println("\tli a3, 0");
 		println("\tcall __netf2@plt");
@@ -1588,8 +1589,8 @@ static void gen_expr(struct Node *node)
 		// Cautions:
 		// Save long double results in fsx registers,
 		// in case ax registers are corrupted.
-		pop_ld();
-		pop_ld();
+		pop_ld(2);
+		pop_ld(0);
 
 		switch (node->kind) {
 		case ND_ADD:
@@ -1906,7 +1907,7 @@ static void gen_stmt(struct Node *node)
 					copy_struct_mem();
 
 			} else if (ty->kind == TY_LDOUBLE) {
-				pop_ld();
+				pop_ld(0);
 			}
 		}
 		println("\tj return.%s", current_fn->name);
-- 
2.43.0


From 9314bd45f6af9c6934c4c3a217f593d47012579b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:06 +0000
Subject: [PATCH 12/28] fix: leaving a statement expression by a jump does not
 leak stack

Arguments already pushed for an enclosing call stayed on the stack after
break, continue or goto out of a statement expression.
---
 codegen.c | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/codegen.c b/codegen.c
index b224cbf..20e1e28 100644
--- a/codegen.c
+++ b/codegen.c
@@ -1771,6 +1771,23 @@ static void copy_struct_mem(void)
 	debug("copy_struct_mem end");
 }
 
+// A jump may come from inside an expression (a statement expression),
+// where more values are on the stack than at its destination.
+static void drop_temporaries(void)
+{
+	// ra and fp are pushed above the frame
+	int nr_temps = depth - 2;
+
+	println("\tli t0, %d", current_fn->alloca_bottom->offset);
+	println("\tadd t0, t0, fp");
+	println("\tld t0, (t0)");
+	if (nr_temps) {
+		println("\tli t1, -%ld", nr_temps * sizeof(long));
+		println("\tadd t0, t0, t1");
+	}
+	println("\tmv sp, t0");
+}
+
 static void gen_stmt(struct Node *node)
 {
 	int c;
@@ -1814,11 +1831,13 @@ static void gen_stmt(struct Node *node)
 		}
 		gen_stmt(node->then);
 		println("%s:", node->cont_label);
+		drop_temporaries();
 		if (node->inc)
 			gen_expr(node->inc);
 		println("\tj begin.%d", c);
 
 		println("%s:", node->brk_label);
+		drop_temporaries();
 		debug("end ND_FOR");
 		return;
 
@@ -1828,12 +1847,14 @@ static void gen_stmt(struct Node *node)
 		println("begin.%d:", c);
 		gen_stmt(node->then);
 		println("%s:", node->cont_label);
+		drop_temporaries();
 
 		gen_expr(node->cond);
 		cmp_zero(node->cond->ty);
 		println("\tbeqz a0, begin.%d", c);
 
 		println("%s:", node->brk_label);
+		drop_temporaries();
 		return;
 
 	case ND_SWITCH:
@@ -1869,6 +1890,7 @@ static void gen_stmt(struct Node *node)
 		println("\tj %s", node->brk_label);
 		gen_stmt(node->then);
 		println("%s:", node->brk_label);
+		drop_temporaries();
 		return;
 
 	case ND_CASE:
@@ -1892,6 +1914,7 @@ static void gen_stmt(struct Node *node)
 
 	case ND_LABEL:
 		println("%s:", node->unique_label);
+		drop_temporaries();
 		gen_stmt(node->lhs);
 		return;
 
-- 
2.43.0


From 7c25c8f907c1e8a6efd936c0e10585e4bbf3063c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:28 +0000
Subject: [PATCH 13/28] fix: wait for the started step, and report a failing
 fork

wait() took the status of the last child reaped, which may be one the
driver inherited, and a failing fork() went unnoticed.
---
 main.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/main.c b/main.c
index 9d40ae3..3b61d5c 100644
--- a/main.c
+++ b/main.c
@@ -423,7 +423,11 @@ static void run_subprocess(const char **argv)
 		fprintf(stderr, "\n");
 	}
 
-	if (fork() == 0) {
+	pid_t pid = fork();
+	if (pid == -1)
+		error("fork failed: %s", strerror(errno));
+
+	if (pid == 0) {
 		// child process: run a new command
 		execvp(argv[0], (char *const *)argv);
 		fprintf(stderr, "exec failed: %s: %s\n",
@@ -431,9 +435,11 @@ static void run_subprocess(const char **argv)
 		_exit(1);
 	}
 
-	// wait for the child processes to finish
+	// wait for the child process to finish
 	int status;
-	while (wait(&status) > 0);
+	while (waitpid(pid, &status, 0) == -1)
+		if (errno != EINTR)
+			error("waitpid failed: %s", strerror(errno));
 	if (status)
 		exit(1);
 }
-- 
2.43.0


From ec6c72a1ea636fbbf53ba07bc476320be80fc2f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:44 +0000
Subject: [PATCH 14/28] fix: report errors when writing an output file

---
 main.c | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/main.c b/main.c
index 3b61d5c..a4d0764 100644
--- a/main.c
+++ b/main.c
@@ -413,6 +413,17 @@ static FILE *open_file(const char *path)
 	return out;
 }
 
+// Make sure that everything written is in the file.
+static void close_file(FILE *out, const char *path)
+{
+	int err = ferror(out);
+
+	err |= (out == stdout) ? fflush(out) : fclose(out);
+	if (err)
+		error("cannot write output file: %s: %s",
+			path ? path : "-", strerror(errno));
+}
+
 static void run_subprocess(const char **argv)
 {
 	// if -### is given, dump the subprocess's command line
@@ -486,6 +497,7 @@ static void print_tokens(struct Token *tok)
 		first_line = false;
 	}
 	fprintf(out, "\n");
+	close_file(out, opt_o);
 }
 
 static struct Token *must_tokenize_file(const char *path)
@@ -565,6 +577,8 @@ static void print_dependencies(void)
 	if (opt_MP)
 		for (int i = 1; files[i]; i++)
 			fprintf(out, "%s:\n\n", quote_makefile(files[i]->name));
+
+	close_file(out, path);
 }
 
 static void cc1(void)
@@ -626,7 +640,7 @@ static void cc1(void)
 	// Write the assembly text to a file.
 	FILE *out = open_file(output_file);
 	fwrite(buf, buflen, 1, out);
-	fclose(out);
+	close_file(out, output_file);
 }
 
 static void cleanup(void)
-- 
2.43.0


From 5394af088d7f2b496c67b56888b5c6570e7e49d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:01 +0000
Subject: [PATCH 15/28] fix: report errors when reading a source file

A read error, or reading a directory, was taken for the end of the file.
---
 tokenize.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/tokenize.c b/tokenize.c
index 8f8ea23..1363b1e 100644
--- a/tokenize.c
+++ b/tokenize.c
@@ -753,9 +753,18 @@ static char *read_file(const char *path)
 		fwrite(buf2, 1, n, out);
 	}
 
+	// a file that can't be read to its end is not a shorter file
+	int err = ferror(fp) ? errno : 0;
+
 	if (fp != stdin)
 		fclose(fp);
 
+	if (err) {
+		fclose(out);
+		errno = err;
+		return NULL;
+	}
+
 	// make sure that the last line is properly terminated with '\n'
 	fflush(out);
 	if (!buflen || buf[buflen - 1] != '\n')
-- 
2.43.0


From 98ac6283c9a4eafe7c201f0d1103fab8d5a77e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:18 +0000
Subject: [PATCH 16/28] fix: do not use another header if looking for one fails

Any stat() error was taken for a missing file and the next candidate in
the include path was used silently.
---
 preprocessor/preprocess.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/preprocessor/preprocess.c b/preprocessor/preprocess.c
index ebad4a3..6377dc3 100644
--- a/preprocessor/preprocess.c
+++ b/preprocessor/preprocess.c
@@ -879,7 +879,15 @@ static const char *read_include_filename(struct Token **rest, struct Token *tok,
 bool file_exists(const char *path)
 {
 	struct stat st;
-	return !stat(path, &st);
+
+	if (!stat(path, &st))
+		return true;
+
+	// Only if the file is known not to be there,
+	// another one may be used instead of it.
+	if (errno != ENOENT && errno != ENOTDIR)
+		error("%s: %s", path, strerror(errno));
+	return false;
 }
 
 // Detect the following "include guard" pattern.
-- 
2.43.0


From 1de7a7828703a19e22091b4a6c084dd12782ac1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:45 +0000
Subject: [PATCH 17/28] fix: function-scope thread-local variables are
 thread-local

---
 parser/declarator.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parser/declarator.c b/parser/declarator.c
index 7c325b4..083cedb 100644
--- a/parser/declarator.c
+++ b/parser/declarator.c
@@ -913,6 +913,7 @@ struct Node *declaration(struct Token **rest, struct Token *tok,
 			// static local variable
 			struct Obj *var = new_anon_gvar(ty);
 			push_scope(get_ident(ty->name))->var = var;
+			var->is_tls = attr->is_tls;
 
 			if (equal(tok, "="))
 				gvar_initializer(&tok, tok->next, var);
-- 
2.43.0


From 0f87182fdbf9fb0732388841b4c0faa550e0f58f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:57 +0000
Subject: [PATCH 18/28] fix: members after an unnamed bit-field can be found

Looking up a member declared after an unnamed bit-field dereferenced a
null pointer.
---
 parser/initializer.c | 2 +-
 parser/parser.c      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/initializer.c b/parser/initializer.c
index ddf1c6e..3c73da7 100644
--- a/parser/initializer.c
+++ b/parser/initializer.c
@@ -162,7 +162,7 @@ static struct Member *struct_designator(struct Token **rest,
 		}
 
 		// Regular struct member
-		if (mem->name->len == tok->len &&
+		if (mem->name && mem->name->len == tok->len &&
 		   !strncmp(mem->name->loc, tok->loc, tok->len)) {
 			*rest = tok->next;
 			return mem;
diff --git a/parser/parser.c b/parser/parser.c
index 337b536..9523465 100644
--- a/parser/parser.c
+++ b/parser/parser.c
@@ -326,7 +326,7 @@ struct Member *get_struct_member(struct Type *ty, struct Token *tok)
 		}
 
 		// Regular struct member
-		if (mem->name->len == tok->len &&
+		if (mem->name && mem->name->len == tok->len &&
 		   !strncmp(mem->name->loc, tok->loc, tok->len))
 			return mem;
 	}
-- 
2.43.0


From 2bcf9f78dff7b15c03fcbb2085def717d3b4179a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:50:27 +0000
Subject: [PATCH 19/28] fix: members without initializer of a global are zero

---
 parser/initializer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/initializer.c b/parser/initializer.c
index 3c73da7..ffff19a 100644
--- a/parser/initializer.c
+++ b/parser/initializer.c
@@ -729,7 +729,7 @@ void gvar_initializer(struct Token **rest, struct Token *tok,
 {
 	struct Initializer *init = initializer(rest, tok, var->ty, &var->ty);
 	struct Relocation head = {};
-	char *buf = malloc(var->ty->size);
+	char *buf = calloc(1, var->ty->size);
 
 	write_gvar_data(&head, init, var->ty, buf, 0);
 	var->init_data = buf;
-- 
2.43.0


From 43a5e3be303b3453a85c2ced6a114486cbd7e254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:16 +0000
Subject: [PATCH 20/28] fix: report memory running out in the string streams

format(), read_file() and the assembly buffer write through open_memstream.
When the buffer can't grow, the data written is dropped and nothing but the
unchecked return values tells: strings, sources and assembly came out
shorter and the compiler exited 0.
---
 codegen.c  |  5 +++--
 main.c     |  6 +++++-
 string.c   | 10 ++++++++--
 tokenize.c | 19 ++++++++++++++-----
 4 files changed, 30 insertions(+), 10 deletions(-)

diff --git a/codegen.c b/codegen.c
index 20e1e28..6611b7d 100644
--- a/codegen.c
+++ b/codegen.c
@@ -21,9 +21,10 @@ static void println(const char *fmt, ...)
 {
 	va_list ap;
 	va_start(ap, fmt);
-	vfprintf(output_file, fmt, ap);
+	int n = vfprintf(output_file, fmt, ap);
 	va_end(ap);
-	fprintf(output_file, "\n");
+	if (n < 0 || fprintf(output_file, "\n") < 0)
+		error("out of memory");
 }
 
 static int count(void)
diff --git a/main.c b/main.c
index a4d0764..bb6edb6 100644
--- a/main.c
+++ b/main.c
@@ -633,9 +633,13 @@ static void cc1(void)
 	size_t buflen;
 	FILE *output_buf = open_memstream(&buf, &buflen);
 
+	if (!output_buf)
+		error("out of memory");
+
 	// Traverse the AST to emit assembly.
 	codegen(prog, output_buf);
-	fclose(output_buf);
+	if (fclose(output_buf) || !buf)
+		error("out of memory");
 
 	// Write the assembly text to a file.
 	FILE *out = open_file(output_file);
diff --git a/string.c b/string.c
index 4b8537c..a701065 100644
--- a/string.c
+++ b/string.c
@@ -9,13 +9,19 @@ const char *format(const char *fmt, ...)
 	size_t buflen;
 	FILE *out = open_memstream(&buf, &buflen);
 
+	if (!out)
+		error("out of memory");
+
 	va_list ap;
 	va_start(ap, fmt);
 
-	vfprintf(out, fmt, ap);
+	int n = vfprintf(out, fmt, ap);
 
 	va_end(ap);
-	fclose(out);
+
+	// a failed allocation must not leave a shorter string
+	if (fclose(out) || n < 0 || !buf)
+		error("out of memory");
 
 	return buf;
 }
diff --git a/tokenize.c b/tokenize.c
index 1363b1e..4df4e46 100644
--- a/tokenize.c
+++ b/tokenize.c
@@ -745,12 +745,18 @@ static char *read_file(const char *path)
 	size_t buflen;
 	FILE *out = open_memstream(&buf, &buflen);
 
+	if (!out)
+		error("out of memory");
+
+	bool ok = true;
+
 	while (1) {
 		char buf2[4096];
 		int n = fread(buf2, 1, sizeof(buf2), fp);
 		if (!n)
 			break;
-		fwrite(buf2, 1, n, out);
+		if (fwrite(buf2, 1, n, out) != (size_t)n)
+			ok = false;
 	}
 
 	// a file that can't be read to its end is not a shorter file
@@ -766,12 +772,15 @@ static char *read_file(const char *path)
 	}
 
 	// make sure that the last line is properly terminated with '\n'
-	fflush(out);
+	if (fflush(out) || !buf)
+		error("out of memory");
 	if (!buflen || buf[buflen - 1] != '\n')
-		fputc('\n', out);
+		ok = fputc('\n', out) != EOF && ok;
 	// EOF
-	fputc('\0', out);
-	fclose(out);
+	ok = fputc('\0', out) != EOF && ok;
+
+	if (fclose(out) || !ok || !buf)
+		error("out of memory");
 
 	return buf;
 }
-- 
2.43.0


From 98926fa409133b8f219d682808d7a5cd71bf2c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:16 +0000
Subject: [PATCH 21/28] fix: report memory running out when copying a string

strdup() and strndup() results were used unchecked. Most crash, but a NULL
macro or label name, or basename(NULL) and dirname(NULL), silently gave
another program, output name or include path.
---
 main.c                    | 12 ++++++------
 parser/parser.c           |  4 ++--
 preprocessor/preprocess.c | 14 +++++++-------
 string.c                  | 19 +++++++++++++++++++
 toycc.h                   |  2 ++
 5 files changed, 36 insertions(+), 15 deletions(-)

diff --git a/main.c b/main.c
index bb6edb6..714a65e 100644
--- a/main.c
+++ b/main.c
@@ -97,7 +97,7 @@ static void define(const char *str)
 	const char *eq = strchr(str, '=');
 
 	if (eq)
-		define_macro(strndup(str, eq - str), eq + 1);
+		define_macro(xstrndup(str, eq - str), eq + 1);
 	else
 		define_macro(str, "1");
 }
@@ -525,7 +525,7 @@ static struct Token *append_tokens(struct Token *tok1, struct Token *tok2)
 // Replace file extension
 static const char *replace_extn(const char *tmpl, const char *extn)
 {
-	const char *filename = basename(strdup(tmpl));
+	const char *filename = basename(xstrdup(tmpl));
 	char *dot = strrchr(filename, '.');
 
 	if (dot)
@@ -657,7 +657,7 @@ static void cleanup(void)
 static const char *create_tmpfile(void)
 {
 	// create temp file under local dir
-	char *path = strdup("./toycc-tmpfile-XXXXXX");
+	char *path = xstrdup("./toycc-tmpfile-XXXXXX");
 	int fd = mkstemp(path);
 
 	if (fd == -1)
@@ -699,7 +699,7 @@ static char *find_file(const char *pattern)
 	glob(pattern, 0, NULL, &buf);
 	if (buf.gl_pathc)
 		// select the last one
-		path = strdup(buf.gl_pathv[buf.gl_pathc - 1]);
+		path = xstrdup(buf.gl_pathv[buf.gl_pathc - 1]);
 
 	globfree(&buf);
 	return path;
@@ -807,7 +807,7 @@ static void add_default_include_paths(const char *argv0)
 	// We expect that toycc-specific include files
 	// are installed to ./include relative to argv[0].
 	strarray_push(&include_paths,
-		      format("%s/include", dirname(strdup(argv0))));
+		      format("%s/include", dirname(xstrdup(argv0))));
 
 	// Add standard include paths.
 	strarray_push(&include_paths, "/usr/local/include");
@@ -870,7 +870,7 @@ int main(int argc, const char **argv)
 		}
 
 		if (!strncmp(input, "-Wl,", 4)) {
-			char *s = strdup(input + 4);
+			char *s = xstrdup(input + 4);
 			const char *arg = strtok(s, ",");
 
 			while (arg) {
diff --git a/parser/parser.c b/parser/parser.c
index 9523465..53f369f 100644
--- a/parser/parser.c
+++ b/parser/parser.c
@@ -1121,7 +1121,7 @@ const char *get_ident(struct Token *tok)
 {
 	if (tok->kind != TK_IDENT)
 		error_tok(tok, "expected an identifier");
-	return strndup(tok->loc, tok->len);
+	return xstrndup(tok->loc, tok->len);
 }
 
 // current "goto" jump target
@@ -1393,7 +1393,7 @@ static struct Node *stmt(struct Token **rest, struct Token *tok)
 	if (tok->kind == TK_IDENT && equal(tok->next, ":")) {
 		struct Node *node = new_node(ND_LABEL, tok);
 
-		node->label = strndup(tok->loc, tok->len);
+		node->label = xstrndup(tok->loc, tok->len);
 		node->unique_label = new_unique_name();
 		// skip ":"
 		node->lhs = stmt(rest, tok->next->next);
diff --git a/preprocessor/preprocess.c b/preprocessor/preprocess.c
index 6377dc3..8b31157 100644
--- a/preprocessor/preprocess.c
+++ b/preprocessor/preprocess.c
@@ -788,13 +788,13 @@ static struct MacroParam *read_macro_params(struct Token **rest,
 			error_tok(tok, "expected an identifier");
 
 		if (equal(tok->next, "...")) {
-			*va_args_name = strndup(tok->loc, tok->len);
+			*va_args_name = xstrndup(tok->loc, tok->len);
 			*rest = skip(tok->next->next, ")");
 			return head.next;
 		}
 
 		struct MacroParam *m = calloc(1, sizeof(struct MacroParam));
-		m->name = strndup(tok->loc, tok->len);
+		m->name = xstrndup(tok->loc, tok->len);
 
 		cur->next = m;
 		cur = cur->next;
@@ -812,7 +812,7 @@ static void read_macro_definition(struct Token **rest, struct Token *tok)
 	if (tok->kind != TK_IDENT)
 		error_tok(tok, "macro name must be an identifier");
 
-	const char *name = strndup(tok->loc, tok->len);
+	const char *name = xstrndup(tok->loc, tok->len);
 	tok = tok->next;
 
 	if (!tok->has_space && equal(tok, "(")) {
@@ -844,7 +844,7 @@ static const char *read_include_filename(struct Token **rest, struct Token *tok,
 		*is_dquote = true;
 
 		*rest = skip_line(tok->next);
-		return strndup(tok->loc + 1, tok->len - 2);
+		return xstrndup(tok->loc + 1, tok->len - 2);
 	}
 
 	// Pattern 2: #include <foo.h>
@@ -906,7 +906,7 @@ static const char *detect_include_guard(struct Token *tok)
 	if (tok->kind != TK_IDENT)
 		return NULL;
 
-	const char *macro = strndup(tok->loc, tok->len);
+	const char *macro = xstrndup(tok->loc, tok->len);
 	tok = tok->next;
 
 	if (!is_hash(tok) ||
@@ -1050,7 +1050,7 @@ static struct Token *preprocess2(struct Token *tok)
 
 			if (filename[0] != '/' && is_dquote) {
 				// search under current directory
-				const char *path = format("%s/%s", dirname(strdup(start->file->name)), filename);
+				const char *path = format("%s/%s", dirname(xstrdup(start->file->name)), filename);
 				if (file_exists(path)) {
 					tok = include_file(tok, path, start->next->next);
 					continue;
@@ -1081,7 +1081,7 @@ static struct Token *preprocess2(struct Token *tok)
 			if (tok->kind != TK_IDENT)
 				error_tok(tok, "macro name must be an identifier");
 
-			undef_macro(strndup(tok->loc, tok->len));
+			undef_macro(xstrndup(tok->loc, tok->len));
 			tok = skip_line(tok->next);
 
 			continue;
diff --git a/string.c b/string.c
index a701065..a155994 100644
--- a/string.c
+++ b/string.c
@@ -26,6 +26,25 @@ const char *format(const char *fmt, ...)
 	return buf;
 }
 
+// strdup() and strndup() that never return NULL
+char *xstrdup(const char *s)
+{
+	char *p = strdup(s);
+
+	if (!p)
+		error("out of memory");
+	return p;
+}
+
+char *xstrndup(const char *s, size_t n)
+{
+	char *p = strndup(s, n);
+
+	if (!p)
+		error("out of memory");
+	return p;
+}
+
 void strarray_push(struct StringArray *arr, const char *s)
 {
 	if (!arr->data) {
diff --git a/toycc.h b/toycc.h
index 8bf53b8..48f58d1 100644
--- a/toycc.h
+++ b/toycc.h
@@ -94,6 +94,8 @@ struct StringArray {
 };
 
 const char *format(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
+char *xstrdup(const char *s);
+char *xstrndup(const char *s, size_t n);
 void strarray_push(struct StringArray *arr, const char *s);
 
 // type.c
-- 
2.43.0


From 474fbb45d6e7acb26c7b0f183267140472aba2d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:03 +0000
Subject: [PATCH 22/28] fix: report memory running out for a global initializer

A failed allocation left init_data NULL, and the variable was silently
emitted as zero-initialized.
---
 parser/initializer.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser/initializer.c b/parser/initializer.c
index ffff19a..e136bda 100644
--- a/parser/initializer.c
+++ b/parser/initializer.c
@@ -731,6 +731,10 @@ void gvar_initializer(struct Token **rest, struct Token *tok,
 	struct Relocation head = {};
 	char *buf = calloc(1, var->ty->size);
 
+	// without a buffer the variable would silently be zero-initialized
+	if (!buf && var->ty->size)
+		error("out of memory");
+
 	write_gvar_data(&head, init, var->ty, buf, 0);
 	var->init_data = buf;
 	var->rel = head.next;
-- 
2.43.0


From a7e4e9887308f01f63e8eed386cb892cc65f80cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:24:07 +0000
Subject: [PATCH 23/28] fix: quote file names in the dependency list

A header with a blank, '$' or '#' in its name was listed as something else
than that file.
---
 main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/main.c b/main.c
index 714a65e..e4aaa19 100644
--- a/main.c
+++ b/main.c
@@ -570,7 +570,7 @@ static void print_dependencies(void)
 	for (int i = 0; files[i]; i++) {
 		if (opt_MMD && in_std_include_path(files[i]->name))
 			continue;
-		fprintf(out, " \\\n\t%s", files[i]->name);
+		fprintf(out, " \\\n\t%s", quote_makefile(files[i]->name));
 	}
 	fprintf(out, "\n");
 
-- 
2.43.0


From b8df9c34af69cbe67376d41021fb2ea2c5b8550e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:24:23 +0000
Subject: [PATCH 24/28] fix: -MP with -include made the main file a phony
 target

With -include the first file read is not the main file, which got an empty
rule, while the included file got none.
---
 main.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/main.c b/main.c
index e4aaa19..baec153 100644
--- a/main.c
+++ b/main.c
@@ -575,8 +575,10 @@ static void print_dependencies(void)
 	fprintf(out, "\n");
 
 	if (opt_MP)
-		for (int i = 1; files[i]; i++)
-			fprintf(out, "%s:\n\n", quote_makefile(files[i]->name));
+		for (int i = 0; files[i]; i++)
+			// the first file is not the main file if -include is given
+			if (strcmp(files[i]->name, base_file))
+				fprintf(out, "%s:\n\n", quote_makefile(files[i]->name));
 
 	close_file(out, path);
 }
-- 
2.43.0


From 4020c49da2f800ba386700c0e30f0be76b9114b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:20 +0000
Subject: [PATCH 25/28] fix: do not link when -c, -S, -E or -M is given

Objects and libraries on such a command line started the linker, which
wrote an a.out (or the -o file) nobody asked for.
---
 main.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/main.c b/main.c
index baec153..6f0ed89 100644
--- a/main.c
+++ b/main.c
@@ -941,7 +941,8 @@ int main(int argc, const char **argv)
 		strarray_push(&ld_args, tmp2);
 	}
 
-	if (ld_args.len)
+	// -c, -S, -E and -M stop before linking
+	if (ld_args.len && !opt_c && !opt_S && !opt_E && !opt_M)
 		run_linker(&ld_args, opt_o ? opt_o : "a.out");
 
 	return 0;
-- 
2.43.0


From e5f786b311961255123ca3af2e64a978ba9410c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:38 +0000
Subject: [PATCH 26/28] fix: link assembly inputs

Without -c an assembly input was assembled to an object file in the
current directory (or over the executable named by -o) and left out of
the link.
---
 main.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/main.c b/main.c
index 6f0ed89..6a2cb69 100644
--- a/main.c
+++ b/main.c
@@ -902,9 +902,20 @@ int main(int argc, const char **argv)
 
 		// handle .s
 		if (type == FILE_ASM) {
-			if (!opt_S)
+			if (opt_S || opt_E || opt_M)
+				continue;
+
+			if (opt_c) {
 				// .s -> .o
 				assemble(input, output);
+				continue;
+			}
+
+			// assemble and link
+			const char *tmp = create_tmpfile();
+
+			assemble(input, tmp);
+			strarray_push(&ld_args, tmp);
 			continue;
 		}
 
-- 
2.43.0


From 7022c4bf003bd04c90950919a3e941313057fb00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:56 +0000
Subject: [PATCH 27/28] fix: run with SIGCHLD at its default so that children
 can be waited for

---
 main.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/main.c b/main.c
index 6a2cb69..caea3c6 100644
--- a/main.c
+++ b/main.c
@@ -1,6 +1,7 @@
 #include <toycc.h>
 #include <sys/types.h>
 #include <sys/wait.h>
+#include <signal.h>
 #include <unistd.h>
 #include <libgen.h>
 #include <glob.h>
@@ -850,6 +851,9 @@ int main(int argc, const char **argv)
 	const char *input, *output;
 	struct StringArray ld_args = {};
 
+	// A parent may have SIGCHLD ignored; its children could not be waited for
+	signal(SIGCHLD, SIG_DFL);
+
 	atexit(cleanup);
 	init_macros();
 	add_default_include_paths(argv[0]);
-- 
2.43.0


From f48e791a4d6270d8d6ad3238c1e9a35c493b024a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:35:04 +0000
Subject: [PATCH 28/28] fix: a failed search for the libraries is not an absent
 library

glob() also returns when it runs out of memory or cannot read a
directory; the next candidate was then linked instead.
---
 main.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/main.c b/main.c
index caea3c6..169cdf7 100644
--- a/main.c
+++ b/main.c
@@ -699,7 +699,10 @@ static char *find_file(const char *pattern)
 	char *path = NULL;
 	glob_t buf = {};
 
-	glob(pattern, 0, NULL, &buf);
+	int err = glob(pattern, 0, NULL, &buf);
+	if (err && err != GLOB_NOMATCH)
+		error("cannot search for %s", pattern);
+
 	if (buf.gl_pathc)
 		// select the last one
 		path = xstrdup(buf.gl_pathv[buf.gl_pathc - 1]);
-- 
2.43.0

