From 747060b64eeb6b3eb17e51f98c29acec16b4adfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:12 +0000
Subject: [PATCH 001/127] fix: && and || yield 0 or 1, not the value of the
 second operand

---
 c.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/c.c b/c.c
index 203f0e5..723db9d 100644
--- a/c.c
+++ b/c.c
@@ -3041,6 +3041,16 @@ node_t *compile_booltest(node_t *prn, node_t *pan)
   return pan;
 }
 
+/* compile x to serve as an int-valued (0 or 1) operand of a logical operator */
+static node_t *compile_logval(node_t *prn, node_t *pan)
+{
+  node_t *patn = acode_type(pan); size_t n = icblen(&pan->data);
+  instr_t in = n > 0 ? icbref(&pan->data, n-1)->in : IN_NOP; numval_t v;
+  if (patn->ts == TS_INT && in >= IN_I32_EQZ && in <= IN_F64_GE) return pan; /* already 0 or 1 */
+  if (patn->ts < TS_INT || patn->ts > TS_ULONG) return compile_booltest(prn, pan); /* x != 0 */
+  return compile_binary(prn, pan, TT_NE, compile_numlit(prn, TS_INT, (v.i = 0, &v)));
+}
+
 /* compile x to serve as an integer selector */
 node_t *compile_intsel(node_t *prn, node_t *pan)
 {
@@ -3803,10 +3813,10 @@ static node_t *expr_compile(node_t *pn, buf_t *prib, const node_t *ret)
       node_t *pan2 = expr_compile(ndcref(pn, 1), prib, NULL);
       switch (pn->op) {
         case TT_AND_AND: {
-          pcn = compile_cond(pn, pan1, pan2, compile_numlit(pn, TS_INT, (v.i = 0, &v)));
+          pcn = compile_cond(pn, pan1, compile_logval(pn, pan2), compile_numlit(pn, TS_INT, (v.i = 0, &v)));
         } break;
         case TT_OR_OR: {
-          pcn = compile_cond(pn, pan1, compile_numlit(pn, TS_INT, (v.i = 1, &v)), pan2);
+          pcn = compile_cond(pn, pan1, compile_numlit(pn, TS_INT, (v.i = 1, &v)), compile_logval(pn, pan2));
         } break;
         default: { /* normal binary */
           pcn = compile_binary(pn, pan1, pn->op, pan2);
-- 
2.43.0


From b3a935d4a5a4a87d8b902e56a000a52a9131074b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:33 +0000
Subject: [PATCH 002/127] fix: ?:, && and || read their branches after the
 effects of the condition

---
 c.c | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/c.c b/c.c
index 723db9d..0dcd39f 100644
--- a/c.c
+++ b/c.c
@@ -2751,6 +2751,24 @@ static bool acode_simple_noeff(node_t *pan)
   return false;
 }
 
+/* check if code has no instructions able to change variables or memory */
+static bool acode_noeff(node_t *pan)
+{
+  size_t i;
+  for (i = 0; i < icblen(&pan->data); ++i) {
+    instr_t in = icbref(&pan->data, i)->in;
+    if (in == IN_PLACEHOLDER || in == IN_REF_DATA || in == IN_LOCAL_GET || in == IN_GLOBAL_GET) continue;
+    if (in >= IN_I32_LOAD && in <= IN_I64_LOAD32_U) continue;
+    if (in >= IN_I32_CONST && in <= IN_I64_EXTEND32_S) continue; /* consts, tests, arithmetics, conversions */
+    return false;
+  }
+  for (i = 0; i < ndlen(pan); ++i) {
+    node_t *pni = ndref(pan, i);
+    if (pni->nt == NT_ACODE && !acode_noeff(pni)) return false;
+  }
+  return true;
+}
+
 /* check if this node is a const; returns 0 or ts_t/nv */
 static ts_t acode_const(node_t *pan, numval_t **ppnv)
 {
@@ -3086,6 +3104,8 @@ static node_t *compile_cond(node_t *prn, node_t *pan1, node_t *pan2, node_t *pan
   else if (same_type(patn2, patn3)) pctn = patn2;
   else neprintf(prn, "incompatible types of logical operator branches");
   use_select = acode_simple_noeff(pan2) && acode_simple_noeff(pan3);
+  /* select takes its operands before the condition, so nothing they read should be changed by it */
+  if (use_select && !(acode_const(pan2, NULL) && acode_const(pan3, NULL))) use_select = acode_noeff(pan1);
   if (!same_type(pctn, patn2)) pan2 = compile_cast(prn, pctn, pan2);
   if (!same_type(pctn, patn3)) pan3 = compile_cast(prn, pctn, pan3);
   pan1 = compile_booltest(prn, pan1); /* add !=0 if not i32 */
-- 
2.43.0


From f7bb7b89d8c775982037a84e4b085083def37315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:00 +0000
Subject: [PATCH 003/127] fix: shifts are performed in the promoted type of the
 left operand

---
 c.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/c.c b/c.c
index 0dcd39f..9215ec6 100644
--- a/c.c
+++ b/c.c
@@ -208,6 +208,15 @@ static ts_t ts_arith_common(ts_t ts1, ts_t ts2)
   return TS_INT;
 }
 
+/* type in which op is performed on ts1 and ts2 */
+static ts_t ts_binary_common(tt_t op, ts_t ts1, ts_t ts2)
+{
+  /* shifts happen in the promoted type of the left operand */
+  if ((op == TT_SHL || op == TT_SHR) && ts1 < TS_FLOAT && ts2 < TS_FLOAT) 
+    return ts_integral_promote(ts1);
+  return ts_arith_common(ts1, ts2);
+}
+
 /* ts2 can be promoted up to ts1 with implicit cast */
 static bool ts_arith_assign_compatible(ts_t ts1, ts_t ts2)
 {
@@ -380,7 +389,7 @@ static ts_t numval_unop(tt_t op, ts_t tx, const numval_t *pvx, numval_t *pvz)
 /* binary operation between two numbers */
 static ts_t numval_binop(tt_t op, ts_t tx, const numval_t *pvx, ts_t ty, const numval_t *pvy, numval_t *pvz)
 {
-  ts_t tz = ts_arith_common(tx, ty);
+  ts_t tz = ts_binary_common(op, tx, ty);
   numval_t vx = *pvx, vy = *pvy; 
   numval_convert(tz, tx, &vx); numval_convert(tz, ty, &vy);
   switch (tz) {
@@ -2954,7 +2963,7 @@ static node_t *compile_binary(node_t *prn, node_t *pan1, tt_t op, node_t *pan2)
     if (ts2 == TS_ENUM) ts2 = TS_INT;
   }
   if (ts_numerical(ts1) && ts_numerical(ts2)) {
-    ts_t rts = ts_arith_common(ts1, ts2); 
+    ts_t rts = ts_binary_common(op, ts1, ts2); 
     node_t rtn = mknd(), *prtn, *pcn = npnewcode(prn); ndsettype(&rtn, rts);
     if (rts != ts1) pan1 = compile_cast(prn, &rtn, pan1); /* fixme: constant fold oportunity */
     if (rts != ts2) pan2 = compile_cast(prn, &rtn, pan2); /* fixme: constant fold oportunity */
-- 
2.43.0


From 751f5f441481e38149f3b7ade966dde4e8f33891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:25 +0000
Subject: [PATCH 004/127] fix: constant ?: tests the whole condition and has
 the common type of its branches

---
 c.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/c.c b/c.c
index 9215ec6..38632b1 100644
--- a/c.c
+++ b/c.c
@@ -946,11 +946,18 @@ bool static_eval(node_t *pn, buf_t *prib, seval_t *pr)
       return ok;
     } break;
     case NT_COND: {
-      seval_t r; bool ok = false; int cond;
+      seval_t r, ro; bool ok = false;
       assert(ndlen(pn) == 3);
-      if (arithmetic_eval_to_int(ndref(pn, 0), prib, &cond)) {
-        if (cond) ok = static_eval(ndref(pn, 1), prib, &r);
-        else ok = static_eval(ndref(pn, 2), prib, &r);
+      if (static_eval(ndref(pn, 0), prib, &r) && ts_numerical(r.ts)) {
+        size_t ci; 
+        numval_convert(TS_BOOL, r.ts, &r.val); /* test the whole value */
+        ci = r.val.u ? 1 : 2;
+        ok = static_eval(ndref(pn, ci), prib, &r);
+        if (ok && ts_numerical(r.ts) && static_eval(ndref(pn, 3-ci), prib, &ro) && ts_numerical(ro.ts)) {
+          /* type of the result depends on both branches */
+          ts_t tc = ts_arith_common(r.ts, ro.ts);
+          numval_convert(tc, r.ts, &r.val); r.ts = tc;
+        }
         if (ok) *pr = r; /* can be num or ptr! */
       } 
       return ok;
-- 
2.43.0


From 31beaf276f07dad3cd963db1e20056b1b002609e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:32 +0000
Subject: [PATCH 005/127] fix: conversion of float to bool

---
 c.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/c.c b/c.c
index 38632b1..86941a6 100644
--- a/c.c
+++ b/c.c
@@ -2375,6 +2375,11 @@ static void asm_numerical_cast(ts_t tsto, ts_t tsfrom, icbuf_t *pdata)
           icbnewbk(pdata)->in = IN_F64_NE; /* i.e. x != 0.0 */
           return;
         } break;
+        case TS_FLOAT: { 
+          inscode_t *pic = icbnewbk(pdata); pic->in = IN_F32_CONST; pic->arg.f = 0.0f;
+          icbnewbk(pdata)->in = IN_F32_NE; /* i.e. x != 0.0f */
+          return;
+        } break;
         case TS_CHAR:  case TS_SHORT:  case TS_INT:  case TS_LONG:/* wasm32 */ 
         case TS_UCHAR: case TS_USHORT: case TS_UINT: case TS_ULONG:/* wasm32 */ {
           /* these are all ints, we need to compare to zero and negate */
-- 
2.43.0


From 96fdeb95445e42b6d1e44e9e966bce406f190aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:42 +0000
Subject: [PATCH 006/127] fix: address of a narrow parameter refers to an
 object of its declared type

---
 c.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/c.c b/c.c
index 86941a6..b411787 100644
--- a/c.c
+++ b/c.c
@@ -2155,6 +2155,7 @@ static void fundef_wasmify(node_t *pdn)
             psn = ndinsbk(pni, NT_IDENTIFIER); psn->name = hname;
             pni = ndinsfr(pbn, NT_VARDECL); pni->sc = SC_AUTO;
             pni->name = name; ndcpy(ndnewbk(pni), ptni);
+            if (cast != TS_VOID) ndref(pni, 0)->ts = cast; /* memory var keeps its narrow type */
             pdni->name = pvi->name = pvi->reg = hname;
             pdni->sc = SC_NONE;
           } else {
-- 
2.43.0


From 018eeb8219590815157e393be08cb7c4ac5d61ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:29 +0000
Subject: [PATCH 007/127] fix: stores to bool members, elements and pointer
 targets convert to 0 or 1

---
 c.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/c.c b/c.c
index b411787..4810066 100644
--- a/c.c
+++ b/c.c
@@ -3284,7 +3284,9 @@ static node_t *compile_asncombo(node_t *prn, node_t *pan, node_t *pctn, tt_t op,
   } else if (acode_rval_load(pan)) {
     /* pan code ends in one of IN_I32_LOAD..IN_I64_LOAD32_U instructions */
     sym_t pname = rpalloc(VT_I32); /* function-unique register name (wasm32) */
-    node_t *ptn, *pdn;
+    node_t *ptn, *pdn, *ppn = ndlen(pan) == 2 ? ndref(pan, 1) : NULL; 
+    bool tobool = ppn && ppn->nt == NT_ACODE && (ptn = acode_type(ppn))->ts == TS_PTR 
+      && ndlen(ptn) == 1 && ndref(ptn, 0)->ts == TS_BOOL;
     asm_popbk(&pan->data, &lic); /* now pointer is on stack, save it as p$ */
     /* if 'post' ptr val stays on stack, dropped otherwise */
     acode_pushin_id(pan, post ? IN_LOCAL_TEE : IN_LOCAL_SET, pname);
@@ -3303,6 +3305,11 @@ static node_t *compile_asncombo(node_t *prn, node_t *pan, node_t *pctn, tt_t op,
       neprintf(prn, "can't modify lval: impossible narrowing cast");
     if (pctn && !same_type(pctn, acode_type(pvn)))
       pvn = compile_cast(prn, pctn, pvn); 
+    if (tobool && acode_type(pvn)->ts != TS_BOOL) { /* store 0 or 1 */
+      node_t btn = mknd(); ndsettype(&btn, TS_BOOL);
+      pvn = compile_cast(prn, &btn, pvn);
+      ndfini(&btn);
+    }
     if (!same_type(acode_type(pan), acode_type(pvn))) 
       pvn = compile_cast(prn, acode_type(pan), pvn); 
     acode_swapin(pan, pvn);
-- 
2.43.0


From b0ffc0f927e8836c0301da4eeb235b022ba61bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:52 +0000
Subject: [PATCH 008/127] fix: switch with case labels more than INT_MAX apart

---
 c.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c.c b/c.c
index 4810066..94cd732 100644
--- a/c.c
+++ b/c.c
@@ -3527,7 +3527,7 @@ static node_t *compile_branch(node_t *prn, node_t *pan, sym_t lname)
 /* try to compile switch to a jump table (br_table) or return NULL if too sparse */
 static node_t *compile_switch_table(node_t *prn, const node_t *pan, const node_t *pcv, size_t cc)
 {
-  size_t i, ti; sym_t dlname; int off, curidx, idx;
+  size_t i, ti; sym_t dlname; int off; long long curidx, idx;
   const node_t *pni, *psn, *pgn; node_t *pcn; size_t dfillc = 0;
   assert(cc >= 1); /* default goto, followed by 0 or more case gotos */
   if (cc < 3) return NULL; /* we need at least 2 cases */
@@ -3548,7 +3548,7 @@ static node_t *compile_switch_table(node_t *prn, const node_t *pan, const node_t
     const node_t *pni = pcv+i; assert(pni->nt == NT_CASE && ndlen(pni) == 2);
     psn = ndcref(pni, 0); assert(psn->nt == NT_LITERAL && psn->ts == TS_INT);
     pgn = ndcref(pni, 1); assert(pgn->nt == NT_GOTO && pgn->name != 0);
-    idx = (int)psn->val.i - off; assert(idx >= 0);
+    idx = (long long)(int)psn->val.i - off; assert(idx >= 0);
     while (curidx < idx) { /* fill gap with defaults */
       acode_pushin_id(pcn, IN_BR, dlname); /* NB: not an actual instruction! */
       ++curidx; ++dfillc;
-- 
2.43.0


From 4c3c93cebea381aef27b8f864ba9f231062bae44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:48 +0000
Subject: [PATCH 009/127] fix: data may refer to data placed later, to itself
 or in a cycle

---
 w.c | 40 +++++++++++++++++++++++++++-------------
 1 file changed, 27 insertions(+), 13 deletions(-)

diff --git a/w.c b/w.c
index 1234fc5..318c8a8 100644
--- a/w.c
+++ b/w.c
@@ -3964,6 +3964,13 @@ int dsme_cmp(const void *p1, const void *p2)
   return 0;
 }
 
+/* delayed patch of data segment contents with an address */
+typedef struct dspatch_tag {
+  modid_t mi;    /* target data */
+  long long add; /* value to add to target's address */
+  size_t pos;    /* position in combined data segment */
+} dspatch_t;
+
 /* remove dependence on non-standard WAT features and instructions */
 size_t watify_wat_module(wat_module_t* pm)
 {
@@ -3971,6 +3978,7 @@ size_t watify_wat_module(wat_module_t* pm)
   cbuf_t dseg = mkcb(); size_t i;
   buf_t dpmap = mkbuf(sizeof(dpme_t));
   buf_t table = mkbuf(sizeof(dpme_t));
+  buf_t patches = mkbuf(sizeof(dspatch_t));
   dsmebuf_t dsmap; dsmebinit(&dsmap);
   
   /* reverse exports so leafs are processed before non-leafs */
@@ -4011,31 +4019,25 @@ size_t watify_wat_module(wat_module_t* pm)
         align = pd->align, n = addr % align;
         if (n > 0) addr += align - n;
         if (n > 0) bufresize(&dseg, buflen(&dseg) + (align-n));
-        if (icblen(&pd->code) > 0) { /* patch pd->data */
-          size_t i; cbuf_t cb = mkcb(); bool gotarg = false;
+        if (icblen(&pd->code) > 0) { /* record patches; targets may have no addresses yet */
+          size_t i; dspatch_t patch; bool gotarg = false;
           for (i = 0; i < icblen(&pd->code); ++i) {
-            modid_t mi; dpme_t *pdpme; size_t off; 
-            inscode_t *pic = icbref(&pd->code, i);
+            size_t off; inscode_t *pic = icbref(&pd->code, i);
             if (!gotarg && pic->in == IN_REF_DATA) {
-              unsigned address;
-              mi.mod = pic->arg2.mod; mi.id = pic->id;
-              pdpme = bufsearch(&dpmap, &mi, &modid_cmp); /* linear, still adding to it */
-              if (!pdpme) eprintf("internal error: undefined ref in data: $%s:%s", 
-                mi.mod ? symname(mi.mod) : "?", mi.id ? symname(mi.id) : "?");
-              address = (unsigned)((long long)pdpme->address + pic->arg.i);
-              bufclear(&cb); binuint(address, &cb); /* wasm32 */
+              patch.mi.mod = pic->arg2.mod; patch.mi.id = pic->id;
+              patch.add = pic->arg.i;
               gotarg = true;
             } else if (gotarg && pic->in == IN_DATA_PUT_REF) {
               off = (size_t)pic->arg.u; assert(pic->id == 0);
               if (off % 4 != 0 || off + 4 > cblen(&pd->data)) /* wasm32 */
                 eprintf("internal error: cannot patch data: bad offset %lu", (unsigned long)off);
-              memcpy(cbdata(&pd->data) + off, cbdata(&cb), 4); /* wasm32 */
+              patch.pos = buflen(&dseg) + off;
+              memcpy(bufnewbk(&patches), &patch, sizeof(dspatch_t));
               gotarg = false;
             } else {
               eprintf("internal error in data patch");
             }
           }
-          cbfini(&cb);
         }
         cbcat(&dseg, &pd->data);
         curaddr = addr + buflen(&pd->data);
@@ -4053,6 +4055,17 @@ size_t watify_wat_module(wat_module_t* pm)
   /* prepare dpmap for binary search */
   bufqsort(&dpmap, &modid_cmp);
   
+  /* all data addresses are known now, apply recorded patches */
+  for (i = 0; i < buflen(&patches); ++i) {
+    dspatch_t *pp = bufref(&patches, i); cbuf_t cb = mkcb();
+    dpme_t *pdpme = bufbsearch(&dpmap, &pp->mi, &modid_cmp);
+    if (!pdpme) eprintf("internal error: undefined ref in data: $%s:%s", 
+      pp->mi.mod ? symname(pp->mi.mod) : "?", pp->mi.id ? symname(pp->mi.id) : "?");
+    binuint((unsigned)((long long)pdpme->address + pp->add), &cb); /* wasm32 */
+    memcpy(cbdata(&dseg) + pp->pos, cbdata(&cb), 4); /* wasm32 */
+    cbfini(&cb);
+  }
+  
   /* patch IN_REF_{DATA,FUNC}s, memory export, zero globals */
   for (i = 0; i < watieblen(&pm->exports); ++i) {
     watie_t *pe = watiebref(&pm->exports, i);
@@ -4127,6 +4140,7 @@ size_t watify_wat_module(wat_module_t* pm)
   dsmebfini(&dsmap);
   buffini(&dpmap);
   buffini(&table);
+  buffini(&patches);
   
   /* return absolute address of dseg's end */
   return curaddr;
-- 
2.43.0


From 567760514eb1d1b1a7ceaf1d6d91839f397937cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:43 +0000
Subject: [PATCH 010/127] fix: countof(...) in a macro that does not bind ...
 (va_count) aborted the compiler

---
 p.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/p.c b/p.c
index a586a92..b394d1d 100644
--- a/p.c
+++ b/p.c
@@ -2414,7 +2414,7 @@ void patch_macro_template(buf_t *pids, ndbuf_t *ppars, node_t *pn)
     }
   } else if (node_is_etc(pn) && no_etcpars(ppars)) {
     if (etcbound) neprintf(pn, "... or __VA_ARGS__ outside of function call argument list");
-  } else if (node_is_countofetc(pn) && no_etcpars(ppars)) {
+  } else if (etcbound && node_is_countofetc(pn) && no_etcpars(ppars)) {
     size_t pcnt = ndblen(ppars), ecnt = pcnt-(n-1); 
     node_t nd = mknd(); assert(pcnt >= n-1);
     ndset(&nd, NT_LITERAL, pn->pwsid, pn->startpos);
-- 
2.43.0


From b0bbfddaac63cc95083282ff576fd2b5526fd49d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:51 +0000
Subject: [PATCH 011/127] fix: generic dispatch on countof(...) compared the
 total argument count

---
 p.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/p.c b/p.c
index b394d1d..3ae18b8 100644
--- a/p.c
+++ b/p.c
@@ -2426,7 +2426,7 @@ void patch_macro_template(buf_t *pids, ndbuf_t *ppars, node_t *pn)
       assert(pcnt >= n-1);
       for (i = 1; i+1 < ndlen(pn); i += 2) {
         node_t *pcn = ndref(pn, i), *pen = ndref(pn, i+1);
-        if (pcn->nt == NT_NULL || (pcn->nt == NT_LITERAL && pcn->ts == TS_INT && pcn->val.i == (int)pcnt)) {
+        if (pcn->nt == NT_NULL || (pcn->nt == NT_LITERAL && pcn->ts == TS_INT && pcn->val.i == (int)ecnt)) {
           patch_macro_template(pids, ppars, pen);
           presn = pen; break;
         }
-- 
2.43.0


From 2c24afd371944979a1fe22691487be7a7d601bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:42 +0000
Subject: [PATCH 012/127] fix: va_arg ignored the scope and storage of its list
 variable

---
 c.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/c.c b/c.c
index 94cd732..6c47c18 100644
--- a/c.c
+++ b/c.c
@@ -1858,6 +1858,7 @@ static void expr_wasmify(node_t *pn, buf_t *pvib, buf_t *plib)
           wrap_type_pointer(ptn);
           ndswap(pin, ptn); pn->nt = NT_CAST;
           wrap_unary_operator(pn, pn->startpos, TT_STAR);
+          expr_wasmify(pn, pvib, plib); /* id is a variable as any other */
         } break;
         case INTR_SIZEOF: case INTR_ALIGNOF: case INTR_OFFSETOF: {
           node_t *pan; assert(ndlen(pn) >= 1);
-- 
2.43.0


From 3b21f31f01dcaa430447e50f463f480924ae4794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:17 +0000
Subject: [PATCH 013/127] fix: ?: with a constant condition and a non-constant
 branch was folded to the other branch's type

---
 c.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/c.c b/c.c
index 6c47c18..5c4318d 100644
--- a/c.c
+++ b/c.c
@@ -953,10 +953,13 @@ bool static_eval(node_t *pn, buf_t *prib, seval_t *pr)
         numval_convert(TS_BOOL, r.ts, &r.val); /* test the whole value */
         ci = r.val.u ? 1 : 2;
         ok = static_eval(ndref(pn, ci), prib, &r);
-        if (ok && ts_numerical(r.ts) && static_eval(ndref(pn, 3-ci), prib, &ro) && ts_numerical(ro.ts)) {
+        if (ok && ts_numerical(r.ts)) {
           /* type of the result depends on both branches */
-          ts_t tc = ts_arith_common(r.ts, ro.ts);
-          numval_convert(tc, r.ts, &r.val); r.ts = tc;
+          ok = static_eval(ndref(pn, 3-ci), prib, &ro) && ts_numerical(ro.ts);
+          if (ok) {
+            ts_t tc = ts_arith_common(r.ts, ro.ts);
+            numval_convert(tc, r.ts, &r.val); r.ts = tc;
+          }
         }
         if (ok) *pr = r; /* can be num or ptr! */
       } 
-- 
2.43.0


From ecef164e4095d3fdf30bfe145165343cda167ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:43 +0000
Subject: [PATCH 014/127] fix: strrchr finds the terminating null character

---
 lib/src/string.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/src/string.c b/lib/src/string.c
index a427d7f..3788f88 100644
--- a/lib/src/string.c
+++ b/lib/src/string.c
@@ -261,8 +261,9 @@ char *strpbrk(const char *s1, const char *s2)
 char *strrchr(const char *s, int c)
 {
   const char *found = NULL;
-  while (*s) {
+  while (1) {
     if (*s == (char)c) found = s;
+    if (!*s) break;
     s++;
   }
   return (char *)found;
-- 
2.43.0


From 213b73206623d8910a1ba32d8b388bd6758b35d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:50 +0000
Subject: [PATCH 015/127] fix: an empty needle is found at the start by strstr
 and memmem

---
 lib/src/string.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/string.c b/lib/src/string.c
index 3788f88..3c473c4 100644
--- a/lib/src/string.c
+++ b/lib/src/string.c
@@ -53,8 +53,8 @@ void *memmem(const void *haystack, size_t n, const void *needle, size_t m)
   const unsigned char *y = (const unsigned char *)haystack;
   const unsigned char *x = (const unsigned char *)needle;
   size_t j, k, l;
-  if (m > n || !m || !n)
-    return NULL;
+  if (!m) return (void *)y;
+  if (m > n) return NULL;
   if (1 != m) {
     if (x[0] == x[1]) { 
       k = 2; l = 1;
-- 
2.43.0


From ef5f77f079c7740480851a8310213c2090a93a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:55 +0000
Subject: [PATCH 016/127] fix: strndup terminated the copy out of bounds when n
 exceeds the length

---
 lib/src/string.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/src/string.c b/lib/src/string.c
index 3c473c4..eec66f9 100644
--- a/lib/src/string.c
+++ b/lib/src/string.c
@@ -228,11 +228,11 @@ char *strncpy(char *dst, const char *src, size_t n)
 
 char *strndup(const char *s, size_t n)
 {
-  size_t sl = strlen(s), l = (n > sl ? sl : n) + 1;
-  char *d = malloc(l);
+  size_t l = strnlen(s, n);
+  char *d = malloc(l + 1);
   if (!d) return NULL;
   _bcopy(d, s, l);
-  d[n] = '\0';
+  d[l] = '\0';
   return d;
 }
 
-- 
2.43.0


From 5c67bbae211350d1d243f7646bb1847848a610f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:02 +0000
Subject: [PATCH 017/127] fix: strncasecmp compares lower-case letters like
 strcasecmp

---
 lib/src/string.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/string.c b/lib/src/string.c
index eec66f9..145eea9 100644
--- a/lib/src/string.c
+++ b/lib/src/string.c
@@ -182,7 +182,7 @@ int strncasecmp(const char *s1, const char *s2, size_t n)
   const unsigned char *c2 = (const unsigned char *)s2;
   unsigned char ch; int d = 0;
   while (n--) {
-    d = toupper(ch = *c1++) - toupper(*c2++);
+    d = tolower(ch = *c1++) - tolower(*c2++);
     if (d || !ch) break;
   }
   return d;
-- 
2.43.0


From caca2236e500b81b1daca448ccb12ec971cfcada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:07 +0000
Subject: [PATCH 018/127] fix: isspace accepts vertical tab and form feed

---
 lib/src/ctype.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/ctype.c b/lib/src/ctype.c
index 4b7cab3..9ac8d5e 100644
--- a/lib/src/ctype.c
+++ b/lib/src/ctype.c
@@ -42,7 +42,7 @@ int ispunct(int c)
 
 int isspace(int c)
 {
-  return c == ' ' || c == '\n' || c == '\t' || c == '\r';
+  return c == ' ' || c == '\n' || c == '\t' || c == '\r' || c == '\v' || c == '\f';
 }
 
 int isupper(int c)
-- 
2.43.0


From c2cdb279688043ff97e72eed06bf82ecade37756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:14 +0000
Subject: [PATCH 019/127] fix: iscntrl is true for control characters only

---
 lib/src/ctype.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/ctype.c b/lib/src/ctype.c
index 9ac8d5e..54b1aee 100644
--- a/lib/src/ctype.c
+++ b/lib/src/ctype.c
@@ -12,7 +12,7 @@ int isalpha(int c)
 
 int iscntrl(int c)
 {
-  return !isprint(c);
+  return (c >= 0 && c < ' ') || c == 0x7f;
 }
 
 int isdigit(int c)
-- 
2.43.0


From 2a682229c2c4d0a925dfd4faed78d8e3a66eff87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:04 +0000
Subject: [PATCH 020/127] fix: getenv returned the first variable that does not
 match

---
 lib/src/stdlib.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/stdlib.c b/lib/src/stdlib.c
index 3493ac8..7dcdfc2 100644
--- a/lib/src/stdlib.c
+++ b/lib/src/stdlib.c
@@ -485,7 +485,7 @@ char *getenv(const char *name)
     initialize_environ();
     char **env;
     for (env = _environ; *env; ++env) {
-      if (strncmp(name, *env, len) && (*env)[len] == '=')
+      if (!strncmp(name, *env, len) && (*env)[len] == '=')
         return *env + len + 1;
     }
   }
-- 
2.43.0


From bed7ad1821cb057ade662c3f5fdc391bdce7064a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:10 +0000
Subject: [PATCH 021/127] fix: realloc keeps the block when it cannot be grown

---
 lib/src/stdlib.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/src/stdlib.c b/lib/src/stdlib.c
index 7dcdfc2..c38aa8b 100644
--- a/lib/src/stdlib.c
+++ b/lib/src/stdlib.c
@@ -659,8 +659,10 @@ void *realloc(void *p, size_t n)
       } else {
         void *np = realloc(NULL, n); /* malloc */
         size_t orgn = pb->used.plsz;
-        if (np != NULL) memcpy(np, p, n < orgn ? n : orgn);
-        pushblock(bi, pb);
+        if (np != NULL) {
+          memcpy(np, p, n < orgn ? n : orgn);
+          pushblock(bi, pb);
+        }
         return np;
       }
     } else { /* free */
-- 
2.43.0


From dda7dd95670283bd544ebdfa12c40443716eddba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:16 +0000
Subject: [PATCH 022/127] fix: realloc to a size near SIZE_MAX appeared to fit

---
 lib/src/stdlib.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/stdlib.c b/lib/src/stdlib.c
index c38aa8b..cc50de2 100644
--- a/lib/src/stdlib.c
+++ b/lib/src/stdlib.c
@@ -653,7 +653,7 @@ void *realloc(void *p, size_t n)
     assert(bi < NBUCKETS);
     assert(bi > SBRKBUCKET || !((uintptr_t)pb & (uintptr_t)(BI2BLKSZ(bi)-1UL)));
     if (n > 0) { /* realloc */
-      if (n + sizeof(header_t) <= BI2BLKSZ(bi)) {
+      if (n <= BI2BLKSZ(bi) - sizeof(header_t)) {
         pb->used.plsz = n;
         return p;
       } else {
-- 
2.43.0


From 8ba816ee7e697e7567886c571562e723dda2ec05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:21 +0000
Subject: [PATCH 023/127] fix: calloc of zero-size elements failed an assertion

---
 lib/src/stdlib.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lib/src/stdlib.c b/lib/src/stdlib.c
index cc50de2..0470f36 100644
--- a/lib/src/stdlib.c
+++ b/lib/src/stdlib.c
@@ -691,8 +691,7 @@ void *malloc(size_t n)
 void *calloc(size_t n, size_t sz)
 {
   void *p = NULL; 
-  assert(sz);
-  if (n <= MAXPAYLOAD/sz) {
+  if (!sz || n <= MAXPAYLOAD/sz) {
     n *= sz;
     p = realloc(NULL, n);
     if (p != NULL) memset(p, 0, n);
-- 
2.43.0


From 00e32b989972501ad16366acd5dd1b473968b0fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:27 +0000
Subject: [PATCH 024/127] fix: malloc of more than 1 GiB failed an assertion
 instead of returning NULL

---
 lib/src/stdlib.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/src/stdlib.c b/lib/src/stdlib.c
index 0470f36..8616e5a 100644
--- a/lib/src/stdlib.c
+++ b/lib/src/stdlib.c
@@ -566,6 +566,7 @@ static header_t* buckets[NBUCKETS];
 static header_t *sbrkblock(size_t bi)
 {
   assert(bi >= SBRKBUCKET);
+  if (BI2BLKSZ(bi) > (size_t)INTPTR_MAX) return NULL; /* out of sbrk range */
   void *p = sbrk((intptr_t)BI2BLKSZ(bi));
   if (p == (void *)-1) return NULL;
   assert(!((uintptr_t)(p) & (uintptr_t)(WASMPAGESIZE-1)));
-- 
2.43.0


From eff64bac1e2c6ed32dce3099d0ebe1184f17946c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:33 +0000
Subject: [PATCH 025/127] fix: rand returned negative values and its initial
 seed was not srand(1)

---
 lib/src/stdlib.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/stdlib.c b/lib/src/stdlib.c
index 8616e5a..ef43294 100644
--- a/lib/src/stdlib.c
+++ b/lib/src/stdlib.c
@@ -395,7 +395,7 @@ uintmax_t strtoumax(const char *nptr, char **endptr, int base)
   return (uintmax_t)strntoumax(nptr, endptr, base, ~(size_t)0);
 }
 
-static unsigned short rand48_seed[3]; 
+static unsigned short rand48_seed[3] = { 0x330e, 1, 0 }; /* as by srand(1) */
 static long jrand48(unsigned short *xsubi) /* unsigned short xsubi[3] */
 {
   uint64_t x;
@@ -412,7 +412,7 @@ static long jrand48(unsigned short *xsubi) /* unsigned short xsubi[3] */
 
 int rand(void)
 {
-  return (int)jrand48(rand48_seed) >> 1;
+  return (int)((unsigned long)jrand48(rand48_seed) >> 1);
 }
 
 void srand(unsigned seedval)
-- 
2.43.0


From 6e9b2da0d94d658880bb305c0d568523c494a4f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:38 +0000
Subject: [PATCH 026/127] fix: string to integer functions clamp, set errno and
 report the end as C prescribes

---
 lib/src/stdlib.c | 70 ++++++++++++++++++++++++------------------------
 1 file changed, 35 insertions(+), 35 deletions(-)

diff --git a/lib/src/stdlib.c b/lib/src/stdlib.c
index ef43294..5f7ce84 100644
--- a/lib/src/stdlib.c
+++ b/lib/src/stdlib.c
@@ -325,74 +325,74 @@ static int digitval(int c)
   return -1;
 }
 
-static uintmax_t strntoumax(const char *nptr, char **endptr, int base, size_t n)
+/* pmax and nmax limit the magnitude of positive and negative results */
+static uintmax_t strntoumax(const char *nptr, char **endptr, int base, size_t n, uintmax_t pmax, uintmax_t nmax)
 {
-  int minus = 0; uintmax_t v = 0; int d;
+  const char *end = nptr; /* stays there if there are no digits */
+  bool minus = false, range = false; uintmax_t v = 0, max; int d;
   while (n && isspace((unsigned char)*nptr)) {  nptr++;  n--; }
-  if (n) {
-    char c = *nptr;
-    if (c == '-' || c == '+') {
-      minus = (c == '-');
-      nptr++;
-      n--;
-    }
-  }
-  if (base == 0) {
-    if (n >= 2 && nptr[0] == '0' &&
-        (nptr[1] == 'x' || nptr[1] == 'X')) {
-      n -= 2; nptr += 2; base = 16;
-    } else if (n >= 1 && nptr[0] == '0') {
-      n--; nptr++; base = 8;
-    } else {
-      base = 10;
-    }
-  } else if (base == 16) {
-    if (n >= 2 && nptr[0] == '0' &&
-        (nptr[1] == 'x' || nptr[1] == 'X')) {
-      n -= 2; nptr += 2;
-    }
-  }
+  if (n && (*nptr == '-' || *nptr == '+')) {
+    minus = (*nptr == '-');
+    nptr++;
+    n--;
+  }
+  if ((base == 0 || base == 16) && n >= 3 && nptr[0] == '0' &&
+      (nptr[1] == 'x' || nptr[1] == 'X') && isxdigit(nptr[2])) {
+    n -= 2; nptr += 2; base = 16;
+  } else if (base == 0) {
+    base = (n && *nptr == '0') ? 8 : 10;
+  }
+  max = minus ? nmax : pmax;
   while (n && (d = digitval(*nptr)) >= 0 && d < base) {
-    v = v * base + d;
-    n--; nptr++;
+    if (range || v > (max - d) / base) range = true;
+    else v = v * base + d;
+    n--; end = ++nptr;
+  }
+  if (endptr) *endptr = (char *)end;
+  if (range) {
+    errno = ERANGE;
+    v = max;
+    if (nmax == pmax) minus = false; /* unsigned */
   }
-  if (endptr) *endptr = (char *)nptr;
   return minus ? -v : v;
 }
 
+#define strntomax(s, e, b, n, max) \
+  (strntoumax(s, e, b, n, (uintmax_t)(max), (uintmax_t)(max) + 1))
+
 intmax_t strntoimax(const char *nptr, char **endptr, int base, size_t n)
 {
-  return (intmax_t)strntoumax(nptr, endptr, base, n);
+  return (intmax_t)strntomax(nptr, endptr, base, n, INTMAX_MAX);
 }
 
 intmax_t strtoimax(const char *nptr, char **endptr, int base)
 {
-  return (intmax_t)strntoumax(nptr, endptr, base, ~(size_t)0);
+  return (intmax_t)strntomax(nptr, endptr, base, ~(size_t)0, INTMAX_MAX);
 }
 
 long strtol(const char *nptr, char **endptr, int base)
 {
-  return (long)strntoumax(nptr, endptr, base, ~(size_t)0);
+  return (long)strntomax(nptr, endptr, base, ~(size_t)0, INT32_MAX);
 }
 
 long long strtoll(const char *nptr, char **endptr, int base)
 {
-  return (long long)strntoumax(nptr, endptr, base, ~(size_t)0);
+  return (long long)strntomax(nptr, endptr, base, ~(size_t)0, INT64_MAX);
 }
 
 unsigned long strtoul(const char *nptr, char **endptr, int base)
 {
-  return (unsigned long)strntoumax(nptr, endptr, base, ~(size_t)0);
+  return (unsigned long)strntoumax(nptr, endptr, base, ~(size_t)0, UINT32_MAX, UINT32_MAX);
 }
 
 unsigned long long strtoull(const char *nptr, char **endptr, int base)
 {
-  return (unsigned long long) strntoumax(nptr, endptr, base, ~(size_t)0);
+  return (unsigned long long)strntoumax(nptr, endptr, base, ~(size_t)0, UINT64_MAX, UINT64_MAX);
 }
 
 uintmax_t strtoumax(const char *nptr, char **endptr, int base)
 {
-  return (uintmax_t)strntoumax(nptr, endptr, base, ~(size_t)0);
+  return (uintmax_t)strntoumax(nptr, endptr, base, ~(size_t)0, UINTMAX_MAX, UINTMAX_MAX);
 }
 
 static unsigned short rand48_seed[3] = { 0x330e, 1, 0 }; /* as by srand(1) */
-- 
2.43.0


From f0394d125bf72293881bc8723052226521f332d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:12 +0000
Subject: [PATCH 027/127] fix: mbtowc and mblen accept null pointers and report
 the null character as 0

---
 lib/src/stdlib.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/lib/src/stdlib.c b/lib/src/stdlib.c
index 5f7ce84..df40535 100644
--- a/lib/src/stdlib.c
+++ b/lib/src/stdlib.c
@@ -768,16 +768,17 @@ int mbtowc(wchar_t *p, const char *s, size_t n)
   const unsigned char *ip = (const unsigned char *)s;
   int c0, c, nc; long l;
   struct utf8_table *t;
-  { c0 = *ip; l = c0; nc = 0;
-    if (!s) return 0;
+  if (!s) return 0;
+  { nc = 0;
     if (!n) goto ilseq;
+    c0 = *ip; l = c0;
     for (t = utf8_table; t->cmask; t++) {
       nc++;
       if ((c0 & t->cmask) == t->cval) {
         l &= t->lmask;
         if (l < t->lval) goto ilseq;
-        *p = (wchar_t)l;
-        return nc;
+        if (p) *p = (wchar_t)l;
+        return l ? nc : 0;
       }
       if (n <= nc) goto ilseq;
       ip++;
-- 
2.43.0


From 4d033d3df74dc82d6d78562c66fbba1d4c521191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:18 +0000
Subject: [PATCH 028/127] fix: wctomb rejects negative codes and sets errno

---
 lib/src/stdlib.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/src/stdlib.c b/lib/src/stdlib.c
index df40535..5b74b7e 100644
--- a/lib/src/stdlib.c
+++ b/lib/src/stdlib.c
@@ -797,7 +797,7 @@ static int wctomb_chk(unsigned char *s, wchar_t wc, size_t maxlen)
   long l = wc; int c, nc = 0;
   struct utf8_table *t;
   if (s == NULL) return 0;
-  for (t = utf8_table; t->cmask && maxlen; t++, maxlen--) {
+  if (l >= 0) for (t = utf8_table; t->cmask && maxlen; t++, maxlen--) {
     nc++;
     if (l <= t->lmask) {
       c = t->shift;
@@ -810,6 +810,7 @@ static int wctomb_chk(unsigned char *s, wchar_t wc, size_t maxlen)
       return nc;
     }
   }
+  errno = EILSEQ;
   return -1;
 }
 
-- 
2.43.0


From 2f1f3b59576582eff97439ceac54b15cda3d50c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:25 +0000
Subject: [PATCH 029/127] fix: mbstowcs counts and terminates wide characters
 and reports invalid sequences

---
 lib/src/stdlib.c | 24 +++++++++---------------
 1 file changed, 9 insertions(+), 15 deletions(-)

diff --git a/lib/src/stdlib.c b/lib/src/stdlib.c
index 5b74b7e..06d1048 100644
--- a/lib/src/stdlib.c
+++ b/lib/src/stdlib.c
@@ -822,21 +822,15 @@ int wctomb(char *s, wchar_t wc)
 
 size_t mbstowcs(wchar_t *pwcs, const char *s, size_t n) 
 {
-  wchar_t *op = pwcs;
-  const unsigned char *ip = (const unsigned char *)s;
-  while (*ip && n > 0) {
-    if (*ip & 0x80) {
-      int size = mbtowc(op, (const char *)ip, n);
-      if (size == -1) { /* ignore character and move on */
-        ip++; n--;
-      } else {
-        op++; ip += size; n -= size;
-      }
-    } else {
-      *op++ = *ip++; n--;
-    }
-  }
-  return op - pwcs;
+  size_t i; wchar_t wc;
+  for (i = 0; !pwcs || i < n; i++) {
+    int size = mbtowc(&wc, s, MB_CUR_MAX);
+    if (size == -1) return (size_t)-1;
+    if (pwcs) pwcs[i] = wc;
+    if (size == 0) break;
+    s += size;
+  }
+  return i;
 }
 
 size_t wcstombs(char *s, const wchar_t *pwcs, size_t maxlen) 
-- 
2.43.0


From b9a4a94e0a2f59c60da454333c1564e3681fd16f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:44 +0000
Subject: [PATCH 030/127] fix: wcstombs stays within its limit, terminates and
 reports invalid characters

---
 lib/src/stdlib.c | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/lib/src/stdlib.c b/lib/src/stdlib.c
index 06d1048..42f1c9e 100644
--- a/lib/src/stdlib.c
+++ b/lib/src/stdlib.c
@@ -835,20 +835,16 @@ size_t mbstowcs(wchar_t *pwcs, const char *s, size_t n)
 
 size_t wcstombs(char *s, const wchar_t *pwcs, size_t maxlen) 
 {
-  const wchar_t *ip = pwcs; 
-  unsigned char *op = (unsigned char *)s;
-  while (*ip && maxlen > 0) {
-    if (*ip > 0x7f) {
-      int size = wctomb_chk(op, *ip, maxlen);
-      if (size == -1) { /* ignore character and move on */
-        maxlen--;
-      } else {
-        op += size; maxlen -= size;
-      }
-    } else {
-      *op++ = (unsigned char)*ip;
+  size_t i; unsigned char buf[MB_CUR_MAX];
+  for (i = 0; !s || i < maxlen; pwcs++) {
+    int size = wctomb_chk(&buf[0], *pwcs, MB_CUR_MAX);
+    if (size == -1) return (size_t)-1;
+    if (s) {
+      if ((size_t)size > maxlen - i) break; /* no partial characters */
+      memcpy(s + i, &buf[0], (size_t)size);
     }
-    ip++;
+    if (*pwcs == 0) break;
+    i += size;
   }
-  return op - (unsigned char *)s;
+  return i;
 }
-- 
2.43.0


From ee48eaee68b89045370d25855370857b96d10808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:51 +0000
Subject: [PATCH 031/127] fix: strtod stops before an incomplete exponent or
 hexadecimal prefix

---
 lib/src/stdlib.c | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/lib/src/stdlib.c b/lib/src/stdlib.c
index 42f1c9e..1c547d0 100644
--- a/lib/src/stdlib.c
+++ b/lib/src/stdlib.c
@@ -177,10 +177,7 @@ static double strtod_dec(const char *s, const char *pc, bool neg, char **endp)
       ++expsz;
     }
   }
-  if (expsz == 0) {
-    if (endp != NULL) *endp = (char*)s;
-    return 0.0;
-  }
+  if (expsz == 0) pc = pexp; /* not an exponent */
   if (negexp) exp = fracexp - exp;
   else exp = fracexp + exp;
   if (exp < 0) { negexp = true; exp = -exp; } 
@@ -224,9 +221,9 @@ static double strtod_hex(const char *s, const char *pc, bool neg, char **endp)
   else --mantsz;
   if (mantsz > MAX_BASE16_DIGS) mantsz = MAX_BASE16_DIGS;
   fracexp = (dotpos - mantsz)*4;
-  if (mantsz == 0) {
-    if (endp != NULL) *endp = (char*)s;
-    return 0.0;
+  if (mantsz == 0) { /* just the 0 of 0x */
+    if (endp != NULL) *endp = (char*)pc - 1;
+    return neg ? -0.0 : 0.0;
   } else {
     long long frac = 0LL;
     while (mantsz-- > 0) {
@@ -248,10 +245,7 @@ static double strtod_hex(const char *s, const char *pc, bool neg, char **endp)
       ++expsz;
     }
   }
-  if (expsz == 0) {
-    if (endp != NULL) *endp = (char*)s;
-    return 0.0;
-  }
+  if (expsz == 0) pc = pexp; /* not an exponent */
   if (negexp) exp = fracexp - exp;
   else exp = fracexp + exp;
   if (exp < 0) { negexp = true; exp = -exp; }
-- 
2.43.0


From b06d101e16d0ad0766b13c4d4b77e737215078bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:19 +0000
Subject: [PATCH 032/127] fix: strtok and strtok_r overwrote leading delimiters

---
 lib/src/string.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lib/src/string.c b/lib/src/string.c
index 145eea9..a0d692a 100644
--- a/lib/src/string.c
+++ b/lib/src/string.c
@@ -300,9 +300,11 @@ static char *strsep(char **stringp, const char *delim)
 
 char *strtok_r(char *s, const char *delim, char **holder)
 {
-  if (s) *holder = s;
-  do s = strsep(holder, delim); while (s && !*s);
-  return s;
+  if (!s && !(s = *holder)) return NULL;
+  s += strspn(s, delim);
+  if (!*s) return *holder = NULL;
+  *holder = s;
+  return strsep(holder, delim);
 }
 
 static char *strtok_holder;
@@ -310,7 +312,7 @@ static char *strtok_holder;
 char *strtok(char *s, const char *delim)
 {
   char *holder = s ? s : strtok_holder; 
-  do s = strsep(&holder, delim); while (s && !*s);
+  s = strtok_r(s, delim, &holder);
   strtok_holder = holder;
   return s;
 }
-- 
2.43.0


From 9b10c7988112932ed46bbc7fa22e0dc72c315317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:10 +0000
Subject: [PATCH 033/127] fix: mbtowc accepted sequences longer than MB_CUR_MAX

---
 lib/src/stdlib.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/lib/src/stdlib.c b/lib/src/stdlib.c
index 1c547d0..c51bafd 100644
--- a/lib/src/stdlib.c
+++ b/lib/src/stdlib.c
@@ -752,8 +752,6 @@ static struct utf8_table utf8_table[] = {
   {0xE0, 0xC0, 1 * 6, 0x7FF, 0x80, /* 2 byte sequence */},
   {0xF0, 0xE0, 2 * 6, 0xFFFF, 0x800, /* 3 byte sequence */},
   {0xF8, 0xF0, 3 * 6, 0x1FFFFF, 0x10000, /* 4 byte sequence */},
-  {0xFC, 0xF8, 4 * 6, 0x3FFFFFF, 0x200000, /* 5 byte sequence */},
-  {0xFE, 0xFC, 5 * 6, 0x7FFFFFFF, 0x4000000, /* 6 byte sequence */},
   {0, 0, 0, 0, 0 /* end of table */}
 };
 
-- 
2.43.0


From 614420f51791c26f7d53c672cd205c15f86f75b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:38 +0000
Subject: [PATCH 034/127] fix: printf honours precision, zero padding and # of
 integer conversions

---
 lib/src/stdio.c | 47 +++++++++++++++++++++++------------------------
 1 file changed, 23 insertions(+), 24 deletions(-)

diff --git a/lib/src/stdio.c b/lib/src/stdio.c
index 53093f5..0fc8dc6 100644
--- a/lib/src/stdio.c
+++ b/lib/src/stdio.c
@@ -1058,9 +1058,9 @@ int vsnscanf(const char *buf, size_t count, const char *format, va_list va)
 
 /* derived from: https://github.com/mpaland/printf (c) Marco Paland (info@paland.com) */
 
-/* 'ntoa' conversion buffer size, this must be big enough to hold one converted
- * integer number including padded zeros (dynamically created on stack) */
-#define PRINTF_NTOA_BUFFER_SIZE    32U
+/* 'ntoa' conversion buffer size, this must be big enough to hold all digits of
+ * one converted integer number (dynamically created on stack) */
+#define PRINTF_NTOA_BUFFER_SIZE    64U
 
 /* 'ftoa' conversion buffer size, this must be big enough to hold one converted
  * float number including padded zeros (dynamically created on stack) */
@@ -1131,26 +1131,25 @@ static size_t _out_rev(out_fct_t out, void *data, size_t idx, size_t maxlen, con
 /* internal itoa format */
 static size_t _ntoa_format(out_fct_t out, void *data, size_t idx, size_t maxlen, char *buf, size_t len, bool negative, unsigned int base, unsigned int prec, unsigned int width, unsigned int flags)
 {
-  if (!(flags & FLAGS_LEFT)) {
-    if (width && (flags & FLAGS_ZEROPAD) && (negative || (flags & (FLAGS_PLUS | FLAGS_SPACE)))) --width;
-    while ((len < prec) && (len < PRINTF_NTOA_BUFFER_SIZE)) buf[len++] = '0';
-    while ((flags & FLAGS_ZEROPAD) && (len < width) && (len < PRINTF_NTOA_BUFFER_SIZE)) buf[len++] = '0';
-  }
+  char prefix[2]; size_t plen = 0, total;
+  if (negative) prefix[plen++] = '-';
+  else if (flags & FLAGS_PLUS) prefix[plen++] = '+';
+  else if (flags & FLAGS_SPACE) prefix[plen++] = ' ';
   if (flags & FLAGS_HASH) {
-    if (!(flags & FLAGS_PRECISION) && len && ((len == prec) || (len == width))) {
-      --len; if (len && (base == 16U)) --len;
-    }
-    if ((base == 16U) && !(flags & FLAGS_UPPERCASE) && (len < PRINTF_NTOA_BUFFER_SIZE)) buf[len++] = 'x';
-    else if ((base == 16U) && (flags & FLAGS_UPPERCASE) && (len < PRINTF_NTOA_BUFFER_SIZE)) buf[len++] = 'X';
-    else if ((base == 2U) && (len < PRINTF_NTOA_BUFFER_SIZE)) buf[len++] = 'b';
-    if (len < PRINTF_NTOA_BUFFER_SIZE) buf[len++] = '0';
-  }
-  if (len < PRINTF_NTOA_BUFFER_SIZE) {
-    if (negative) buf[len++] = '-';
-    else if (flags & FLAGS_PLUS) buf[len++] = '+'; 
-    else if (flags & FLAGS_SPACE) buf[len++] = ' ';
-  }
-  return _out_rev(out, data, idx, maxlen, buf, len, width, flags);
+    if (base == 16U) prefix[plen++] = '0', prefix[plen++] = flags & FLAGS_UPPERCASE ? 'X' : 'x';
+    else if (base == 2U) prefix[plen++] = '0', prefix[plen++] = 'b';
+    else if (base == 8U && prec <= len && (!len || buf[len - 1] != '0')) prec = (unsigned int)len + 1U;
+  }
+  /* number of digits to output, including leading zeros */
+  total = len < prec ? prec : len;
+  if ((flags & FLAGS_ZEROPAD) && !(flags & FLAGS_LEFT) && total + plen < width) total = width - plen;
+  size_t n = total + plen, i;
+  if (!(flags & FLAGS_LEFT)) for (; n < width; ++n) (*out)(' ', data, idx++, maxlen);
+  for (i = 0; i < plen; ++i) (*out)(prefix[i], data, idx++, maxlen);
+  for (; total > len; --total) (*out)('0', data, idx++, maxlen);
+  while (len) (*out)(buf[--len], data, idx++, maxlen);
+  for (; n < width; ++n) (*out)(' ', data, idx++, maxlen);
+  return idx;
 }
 
 /* internal itoa for 'long' type */
@@ -1158,7 +1157,7 @@ static size_t _ntoa_long(out_fct_t out, void *data, size_t idx, size_t maxlen, u
 {
   char buf[PRINTF_NTOA_BUFFER_SIZE];
   size_t len = 0U;
-  if (!value) flags &= ~FLAGS_HASH;
+  if (!value && base != 8U) flags &= ~FLAGS_HASH;
   if (!(flags & FLAGS_PRECISION) || value) {
     do {
       const char digit = (char)(value % base);
@@ -1174,7 +1173,7 @@ static size_t _ntoa_long_long(out_fct_t out, void *data, size_t idx, size_t maxl
 {
   char buf[PRINTF_NTOA_BUFFER_SIZE];
   size_t len = 0U;
-  if (!value) flags &= ~FLAGS_HASH;
+  if (!value && base != 8U) flags &= ~FLAGS_HASH;
   if (!(flags & FLAGS_PRECISION) || value) {
     do {
       const char digit = (char)(value % base);
-- 
2.43.0


From 02e6802cca84e0b50ed9b1400e3d671c48cc3fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:06 +0000
Subject: [PATCH 035/127] fix: printf reads no more of a %s argument than its
 precision allows

---
 lib/src/stdio.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/lib/src/stdio.c b/lib/src/stdio.c
index 0fc8dc6..9844b66 100644
--- a/lib/src/stdio.c
+++ b/lib/src/stdio.c
@@ -1558,12 +1558,11 @@ static int _vsnprintf(out_fct_t out, void *data, const size_t maxlen, const char
       } break;
       case 's': {
         const char* p = va_arg(va, char*);
-        unsigned int l = _strnlen_s(p, precision ? precision : (size_t)-1);
-        if (flags & FLAGS_PRECISION) l = (l < precision ? l : precision);
+        unsigned int l = _strnlen_s(p, (flags & FLAGS_PRECISION) ? precision : (size_t)-1);
         if (!(flags & FLAGS_LEFT)) {
           while (l++ < width) (*out)(' ', data, idx++, maxlen);
         }
-        while (*p != 0 && (!(flags & FLAGS_PRECISION) || precision--)) {
+        while ((!(flags & FLAGS_PRECISION) || precision--) && *p != 0) {
           (*out)(*(p++), data, idx++, maxlen);
         }
         if (flags & FLAGS_LEFT) {
-- 
2.43.0


From 70ea06cdc8d2828372d8426a7d484e0472c70515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:12 +0000
Subject: [PATCH 036/127] fix: a negative * precision of printf is taken as if
 it were omitted

---
 lib/src/stdio.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/src/stdio.c b/lib/src/stdio.c
index 9844b66..fcfea7b 100644
--- a/lib/src/stdio.c
+++ b/lib/src/stdio.c
@@ -1463,7 +1463,8 @@ static int _vsnprintf(out_fct_t out, void *data, const size_t maxlen, const char
         precision = _atoi(&format);
       } else if (*format == '*') {
         const int prec = (int)va_arg(va, int);
-        precision = prec > 0 ? (unsigned int)prec : 0U;
+        if (prec >= 0) precision = (unsigned int)prec;
+        else flags &= ~FLAGS_PRECISION; /* as if omitted */
         ++format;
       }
     }
-- 
2.43.0


From ca57b456fe6edca2789d32d4f019857efd8269f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:18 +0000
Subject: [PATCH 037/127] fix: printf to a stream writes null characters

---
 lib/src/stdio.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/stdio.c b/lib/src/stdio.c
index fcfea7b..4b94661 100644
--- a/lib/src/stdio.c
+++ b/lib/src/stdio.c
@@ -1111,7 +1111,7 @@ static void _out_null(char c, void *data, size_t idx, size_t maxlen)
 static void _out_file(char c, void *data, size_t idx, size_t maxlen)
 {
   FILE *fp = (FILE *)data;
-  if (c) putc(c, fp);
+  putc(c, fp);
 } 
 
 /* output the specified string in reverse, taking care of any zero-padding */
@@ -1593,7 +1593,7 @@ static int _vsnprintf(out_fct_t out, void *data, const size_t maxlen, const char
     }
   }
 
-  (*out)((char)0, data, idx < maxlen ? idx : maxlen - 1U, maxlen); /* \0 */
+  if (out == &_out_buffer) (*out)((char)0, data, idx < maxlen ? idx : maxlen - 1U, maxlen); /* \0 */
   return (int)idx; /* # of written chars sans \0 */
 }
 
-- 
2.43.0


From dff36508dba42f15bf95a73c6b5666c5ef9fa074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:25 +0000
Subject: [PATCH 038/127] fix: printf supports %n

---
 lib/src/stdio.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/lib/src/stdio.c b/lib/src/stdio.c
index 4b94661..c6d5fa9 100644
--- a/lib/src/stdio.c
+++ b/lib/src/stdio.c
@@ -1571,6 +1571,15 @@ static int _vsnprintf(out_fct_t out, void *data, const size_t maxlen, const char
         }
         ++format;
       } break;
+      case 'n': {
+        void *p = va_arg(va, void*);
+        if (flags & FLAGS_LONG_LONG) *(long long*)p = (long long)idx;
+        else if (flags & FLAGS_LONG) *(long*)p = (long)idx;
+        else if (flags & FLAGS_CHAR) *(signed char*)p = (signed char)idx;
+        else if (flags & FLAGS_SHORT) *(short*)p = (short)idx;
+        else *(int*)p = (int)idx;
+        ++format;
+      } break;
       case 'p': {
         width = sizeof(void*) * 2U;
         flags |= FLAGS_ZEROPAD | FLAGS_UPPERCASE;
-- 
2.43.0


From b66b0d6de71bc23314e992e4c8f59646507804ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:30 +0000
Subject: [PATCH 039/127] fix: printf pads %p to its field width

---
 lib/src/stdio.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/src/stdio.c b/lib/src/stdio.c
index c6d5fa9..f0b8fa9 100644
--- a/lib/src/stdio.c
+++ b/lib/src/stdio.c
@@ -1581,8 +1581,9 @@ static int _vsnprintf(out_fct_t out, void *data, const size_t maxlen, const char
         ++format;
       } break;
       case 'p': {
-        width = sizeof(void*) * 2U;
-        flags |= FLAGS_ZEROPAD | FLAGS_UPPERCASE;
+        precision = sizeof(void*) * 2U;
+        flags &= ~(FLAGS_ZEROPAD | FLAGS_PLUS | FLAGS_SPACE | FLAGS_HASH);
+        flags |= FLAGS_PRECISION | FLAGS_UPPERCASE;
         const bool is_ll = sizeof(uintptr_t) == sizeof(long long);
         if (is_ll) {
           idx = _ntoa_long_long(out, data, idx, maxlen, (uintptr_t)va_arg(va, void*), false, 16U, precision, width, flags);
-- 
2.43.0


From 912049d6cf4e01475931b100174d5705263446f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:36 +0000
Subject: [PATCH 040/127] fix: printf to a stream reports output errors

---
 lib/src/stdio.c | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/lib/src/stdio.c b/lib/src/stdio.c
index f0b8fa9..b0047e4 100644
--- a/lib/src/stdio.c
+++ b/lib/src/stdio.c
@@ -1607,11 +1607,22 @@ static int _vsnprintf(out_fct_t out, void *data, const size_t maxlen, const char
   return (int)idx; /* # of written chars sans \0 */
 }
 
+/* internal vfprintf; returns -1 if an output error occurred */
+static int _vfprintf(FILE *fp, const char *format, va_list va)
+{
+  const int olderr = fp->flags & _IOERR;
+  fp->flags &= ~_IOERR;
+  int ret = _vsnprintf(&_out_file, fp, SIZE_MAX, format, va);
+  if (fp->flags & _IOERR) ret = -1;
+  fp->flags |= olderr;
+  return ret;
+}
+
 int fprintf(FILE *fp, const char *format, ...)
 {
   va_list va;
   va_start(va, format);
-  const int ret = _vsnprintf(&_out_file, fp, SIZE_MAX, format, va);
+  const int ret = _vfprintf(fp, format, va);
   va_end(va);
   return ret;
 }
@@ -1620,7 +1631,7 @@ int printf(const char* format, ...)
 {
   va_list va;
   va_start(va, format);
-  const int ret = _vsnprintf(&_out_file, stdout, SIZE_MAX, format, va);
+  const int ret = _vfprintf(stdout, format, va);
   va_end(va);
   return ret;
 }
@@ -1645,12 +1656,12 @@ int snprintf(char* buf, size_t count, const char* format, ...)
 
 int vprintf(const char* format, va_list va)
 {
-  return _vsnprintf(&_out_file, stdout, SIZE_MAX, format, va);
+  return _vfprintf(stdout, format, va);
 }
 
 int vfprintf(FILE *fp, const char *format, va_list va)
 {
-  return _vsnprintf(&_out_file, fp, SIZE_MAX, format, va);
+  return _vfprintf(fp, format, va);
 }
 
 int vsprintf(char* buf, const char* format, va_list va)
-- 
2.43.0


From ae4040394cbb3794dffaa7b5eb77884ddd48fdf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:15 +0000
Subject: [PATCH 041/127] fix: printf does not read the character after the
 precision of %s

---
 lib/src/stdio.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/stdio.c b/lib/src/stdio.c
index b0047e4..0f3b826 100644
--- a/lib/src/stdio.c
+++ b/lib/src/stdio.c
@@ -541,7 +541,7 @@ static bool _is_hex_digit(char ch)
 static unsigned int _strnlen_s(const char* str, size_t maxsize)
 {
   const char* s;
-  for (s = str; *s && maxsize--; ++s);
+  for (s = str; maxsize-- && *s; ++s);
   return (unsigned int)(s - str);
 }
 
-- 
2.43.0


From 8669fc7058318dbeae9b7f357d7f559d45625c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:41 +0000
Subject: [PATCH 042/127] fix: scanf of a string treats characters above 0x7f
 as unsigned

---
 lib/src/stdio.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/stdio.c b/lib/src/stdio.c
index 0f3b826..f614760 100644
--- a/lib/src/stdio.c
+++ b/lib/src/stdio.c
@@ -578,7 +578,7 @@ typedef int(*in_fct_t)(void *data, size_t idx, size_t maxlen, bool get);
 /* internal buffer input */
 static int _in_buffer(void *data, size_t idx, size_t maxlen, bool get)
 {
-  if (idx < maxlen) return ((char*)data)[idx];
+  if (idx < maxlen) return ((unsigned char*)data)[idx];
   return EOF;
 }
 
-- 
2.43.0


From 48361d61fb5d7d667ac2123ce5b71a325419eb62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:47 +0000
Subject: [PATCH 043/127] fix: scanf reports a matching failure of %c and %[ as
 such

---
 lib/src/stdio.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/stdio.c b/lib/src/stdio.c
index f614760..8d7b5f1 100644
--- a/lib/src/stdio.c
+++ b/lib/src/stdio.c
@@ -962,7 +962,7 @@ int _vsnscanf(in_fct_t in, void *data, size_t maxlen, const char *format, va_lis
           }
         }
         if (!i || (t == 'c' && i != width)) 
-          return matchc ? matchc : EOF;
+          return matchc; /* matching failure */
         if (t != 'c') {
           if (s) s[i] = 0;
         }
-- 
2.43.0


From 9fd2262289e7072501a31ee7e6e7c1ce5738202e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:53 +0000
Subject: [PATCH 044/127] fix: scanf reads integers with many digits or leading
 zeros whole

---
 lib/src/stdio.c | 54 ++++++++++++++-----------------------------------
 1 file changed, 15 insertions(+), 39 deletions(-)

diff --git a/lib/src/stdio.c b/lib/src/stdio.c
index 8d7b5f1..c3a957e 100644
--- a/lib/src/stdio.c
+++ b/lib/src/stdio.c
@@ -616,7 +616,7 @@ static void store_float(void *dst, int size, double f)
 static unsigned long long _aton(in_fct_t in, void *data, const size_t maxlen, int base, int width, size_t *pidx)
 {
   char buf[SCANF_ATON_BUFFER_SIZE];
-  size_t len = 0, dc = 0; int c; bool gotsign = false;
+  size_t len = 0, slen = 0, dc = 0; int c;
   unsigned long long res; char *end;
   size_t maxidx = (width == 0) ? SIZE_MAX : *pidx + width;
   
@@ -624,8 +624,8 @@ static unsigned long long _aton(in_fct_t in, void *data, const size_t maxlen, in
     if (*pidx >= maxidx) goto stop;
     c = (*in)(data, *pidx, maxlen, false);
     if (c == '-' || c == '+') {
-      gotsign = (c == '-');
       buf[len++] = (*in)(data, (*pidx)++, maxlen, true);
+      slen = len;
     }
     if (base == 0) { /* determine radix by prefix */
       if (*pidx >= maxidx) goto stop;
@@ -656,40 +656,15 @@ static unsigned long long _aton(in_fct_t in, void *data, const size_t maxlen, in
         }
       }
     }
-    switch (base) {
-    case 8:
-      while (len < SCANF_ATON_BUFFER_SIZE - 1) {
-        if (*pidx >= maxidx) goto stop;
-        c = (*in)(data, *pidx, maxlen, false);
-        if (c != EOF && _is_oct_digit(c)) {
-          buf[len++] = (*in)(data, (*pidx)++, maxlen, true);
-          ++dc;
-        }
-        else break;
-      }
-      break;
-    case 10:
-      while (len < SCANF_ATON_BUFFER_SIZE - 1) {
-        if (*pidx >= maxidx) goto stop;
-        c = (*in)(data, *pidx, maxlen, false);
-        if (c != EOF && _is_dec_digit(c)) {
-          buf[len++] = (*in)(data, (*pidx)++, maxlen, true);
-          ++dc;
-        }
-        else break;
-      }
-      break;
-    case 16:
-      while (len < SCANF_ATON_BUFFER_SIZE - 1) {
-        if (*pidx >= maxidx) goto stop;
-        c = (*in)(data, *pidx, maxlen, false);
-        if (c != EOF && _is_hex_digit(c)) {
-          buf[len++] = (*in)(data, (*pidx)++, maxlen, true);
-          ++dc;
-        }
-        else break;
-      }
-      break;
+    while (true) {
+      if (*pidx >= maxidx) goto stop;
+      c = (*in)(data, *pidx, maxlen, false);
+      if (c == EOF) break;
+      if (!(base == 8 ? _is_oct_digit(c) : base == 10 ? _is_dec_digit(c) : _is_hex_digit(c))) break;
+      (*in)(data, (*pidx)++, maxlen, true);
+      ++dc;
+      /* leading zeros are dropped; a full buffer does not fit into any integer */
+      if ((c != '0' || len > slen) && len < SCANF_ATON_BUFFER_SIZE - 1) buf[len++] = c;
     }
   stop:;
   }
@@ -697,9 +672,10 @@ static unsigned long long _aton(in_fct_t in, void *data, const size_t maxlen, in
     errno = EILSEQ;
     return 0;
   }
-  buf[len] = 0; errno = 0;
-  if (gotsign) res = (unsigned long long)strtoll(buf, &end, base);
-  else res = strtoull(buf, &end, base);
+  if (len == slen) buf[len++] = '0';
+  buf[len] = 0;
+  res = strtoull(buf, &end, base);
+  errno = 0; /* values out of range are clamped */
   if (*end != 0) errno = EILSEQ;
   return res;
 }
-- 
2.43.0


From f5a5328048a8cef3685b469f8e79a7f17e24bc24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:58 +0000
Subject: [PATCH 045/127] fix: scanf leaves errno alone on success

---
 lib/src/stdio.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/lib/src/stdio.c b/lib/src/stdio.c
index c3a957e..7b8c9b6 100644
--- a/lib/src/stdio.c
+++ b/lib/src/stdio.c
@@ -784,8 +784,9 @@ static double _atod(in_fct_t in, void *data, const size_t maxlen, int width, siz
     errno = EILSEQ;
     return 0;
   }
-  buf[len] = 0; errno = 0;
+  buf[len] = 0;
   res = strtod(buf, &end);
+  errno = 0; /* values out of range are clamped */
   if (*end != 0) errno = EILSEQ;
   return res;
 }
@@ -796,7 +797,7 @@ int _vsnscanf(in_fct_t in, void *data, size_t maxlen, const char *format, va_lis
   int width, size, base;
   const unsigned char *p;
   int c, t; char *s; void *dest = NULL;
-  int invert, matchc = 0;
+  int invert, matchc = 0, olderr;
   unsigned long long x; double y;
   unsigned char scanset[257];
   size_t i, idx = 0;
@@ -952,8 +953,10 @@ int _vsnscanf(in_fct_t in, void *data, size_t maxlen, const char *format, va_lis
           case 'd': case 'u': base = 10; break;
         }
         i = idx; 
+        olderr = errno; errno = 0;
         x = _aton(in, data, maxlen, base, width, &idx);
         if (idx == i || errno) return matchc; // matchc ? matchc : EOF;
+        errno = olderr;
         if (t == 'p' && dest != NULL) *(void **)dest = (void *)(uintptr_t)x;
         else store_int(dest, size, x);
         break;
@@ -962,9 +965,11 @@ int _vsnscanf(in_fct_t in, void *data, size_t maxlen, const char *format, va_lis
       case 'f': case 'F':
       case 'g': case 'G':
         i = idx; 
+        olderr = errno; errno = 0;
         y = _atod(in, data, maxlen, width, &idx);
         if (idx == i || errno) return matchc; // matchc ? matchc : EOF;
-        else store_float(dest, size, y);
+        errno = olderr;
+        store_float(dest, size, y);
         break;
     }
     if (dest) ++matchc;
-- 
2.43.0


From 8729d6597b5b08af5f3899dce8bd5fc13733edb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:03 +0000
Subject: [PATCH 046/127] fix: scanf honours the field width of infinity and
 nan

---
 lib/src/stdio.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/src/stdio.c b/lib/src/stdio.c
index 7b8c9b6..8d8b831 100644
--- a/lib/src/stdio.c
+++ b/lib/src/stdio.c
@@ -681,10 +681,10 @@ static unsigned long long _aton(in_fct_t in, void *data, const size_t maxlen, in
 }
 
 /* internal scanner for special values */
-static int _atos(in_fct_t in, void *data, const size_t maxlen, const char *s, size_t *pidx)
+static int _atos(in_fct_t in, void *data, const size_t maxlen, const char *s, size_t *pidx, size_t maxidx)
 {
   int n = 0; bool full = true;
-  while (*s) {
+  while (*s && *pidx < maxidx) {
     int c = (*in)(data, *pidx, maxlen, false);
     if (c == EOF) break;
     if (*s == '*') {
@@ -719,11 +719,11 @@ static double _atod(in_fct_t in, void *data, const size_t maxlen, int width, siz
     if (*pidx >= maxidx) goto stop;
     c = (*in)(data, *pidx, maxlen, false);
     if (c == 'i' || c == 'I') {
-      int n = _atos(in, data, maxlen, "INFINITY", pidx);
+      int n = _atos(in, data, maxlen, "INFINITY", pidx, maxidx);
       if (n == 3 || n == 8) return neg ? -HUGE_VAL : HUGE_VAL;
       errno = EILSEQ; return 0;
     } else if (c == 'n' || c == 'N') {
-      int n = _atos(in, data, maxlen, "NAN(*)", pidx);
+      int n = _atos(in, data, maxlen, "NAN(*)", pidx, maxidx);
       if (n >= 3) return -HUGE_VAL + HUGE_VAL; /* fixme */
       errno = EILSEQ; return 0;
     }
-- 
2.43.0


From 9a410c66b4b50be02323b5839b8c5996362d77f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:24 +0000
Subject: [PATCH 047/127] fix: scanf reads floating-point numbers of more than
 31 characters whole

---
 lib/src/stdio.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/lib/src/stdio.c b/lib/src/stdio.c
index 8d8b831..024c420 100644
--- a/lib/src/stdio.c
+++ b/lib/src/stdio.c
@@ -563,7 +563,7 @@ static unsigned int _atoi(const char** str)
 
  /* 'atod' conversion buffer size, this must be big enough to hold one converted
   * floating-point number including prefixes (dynamically created on stack) */
-#define SCANF_ATOD_BUFFER_SIZE    32U
+#define SCANF_ATOD_BUFFER_SIZE    1024U
 
 /* internal size definitions */
 #define SIZE_HH  (-2)
@@ -703,7 +703,7 @@ static int _atos(in_fct_t in, void *data, const size_t maxlen, const char *s, si
 /* internal atod for decimal floating point */
 static double _atod(in_fct_t in, void *data, const size_t maxlen, int width, size_t *pidx)
 {
-  char buf[SCANF_ATON_BUFFER_SIZE];
+  char buf[SCANF_ATOD_BUFFER_SIZE];
   size_t len = 0, dc = 0; int c; bool hex = false;
   double res; char *end; bool neg = false;
   size_t maxidx = (width == 0) ? SIZE_MAX : *pidx + width;
@@ -727,7 +727,7 @@ static double _atod(in_fct_t in, void *data, const size_t maxlen, int width, siz
       if (n >= 3) return -HUGE_VAL + HUGE_VAL; /* fixme */
       errno = EILSEQ; return 0;
     }
-    while (len < SCANF_ATON_BUFFER_SIZE - 1) {
+    while (len < SCANF_ATOD_BUFFER_SIZE - 1) {
       if (*pidx >= maxidx) goto stop;
       c = (*in)(data, *pidx, maxlen, false);
       if (c == EOF) break;
@@ -741,12 +741,12 @@ static double _atod(in_fct_t in, void *data, const size_t maxlen, int width, siz
         ++dc;
       } else break;
     }
-    if (len < SCANF_ATON_BUFFER_SIZE - 1) {
+    if (len < SCANF_ATOD_BUFFER_SIZE - 1) {
       if (*pidx >= maxidx) goto stop;
       c = (*in)(data, *pidx, maxlen, false);
       if (c == '.') {
         buf[len++] = (*in)(data, (*pidx)++, maxlen, true);
-        while (len < SCANF_ATON_BUFFER_SIZE - 1) {
+        while (len < SCANF_ATOD_BUFFER_SIZE - 1) {
           if (*pidx >= maxidx) goto stop;
           c = (*in)(data, *pidx, maxlen, false);
           if (c != EOF && hex ? _is_hex_digit(c) : _is_dec_digit(c)) {
@@ -756,19 +756,19 @@ static double _atod(in_fct_t in, void *data, const size_t maxlen, int width, siz
         }
       }
     }
-    if (len < SCANF_ATON_BUFFER_SIZE - 1) {
+    if (len < SCANF_ATOD_BUFFER_SIZE - 1) {
       if (*pidx >= maxidx) goto stop;
       c = (*in)(data, *pidx, maxlen, false);
       if (hex ? (c == 'p' || c == 'P')  : (c == 'e' || c == 'E')) {
         buf[len++] = (*in)(data, (*pidx)++, maxlen, true);
-        if (len < SCANF_ATON_BUFFER_SIZE - 1) {
+        if (len < SCANF_ATOD_BUFFER_SIZE - 1) {
           if (*pidx >= maxidx) goto stop;
           c = (*in)(data, *pidx, maxlen, false);
           if (c == '-' || c == '+') {
             (*in)(data, (*pidx)++, maxlen, true);
             buf[len++] = c;
           }
-          while (len < SCANF_ATON_BUFFER_SIZE - 1) {
+          while (len < SCANF_ATOD_BUFFER_SIZE - 1) {
             if (*pidx >= maxidx) goto stop;
             c = (*in)(data, *pidx, maxlen, false);
             if (c != EOF && _is_dec_digit(c))
-- 
2.43.0


From dab7b413d17fddac1067ef024a62cd11315bab88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:00 +0000
Subject: [PATCH 048/127] fix: scanf does not consume an exponent letter
 without digits before it

---
 lib/src/stdio.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/stdio.c b/lib/src/stdio.c
index 024c420..d5294bd 100644
--- a/lib/src/stdio.c
+++ b/lib/src/stdio.c
@@ -759,7 +759,7 @@ static double _atod(in_fct_t in, void *data, const size_t maxlen, int width, siz
     if (len < SCANF_ATOD_BUFFER_SIZE - 1) {
       if (*pidx >= maxidx) goto stop;
       c = (*in)(data, *pidx, maxlen, false);
-      if (hex ? (c == 'p' || c == 'P')  : (c == 'e' || c == 'E')) {
+      if (dc && (hex ? (c == 'p' || c == 'P')  : (c == 'e' || c == 'E'))) {
         buf[len++] = (*in)(data, (*pidx)++, maxlen, true);
         if (len < SCANF_ATOD_BUFFER_SIZE - 1) {
           if (*pidx >= maxidx) goto stop;
-- 
2.43.0


From dcbf1199522ef21664705b2b546663eca9a8d968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:35 +0000
Subject: [PATCH 049/127] fix: strtod reads the longest valid form of infinity
 and nan

---
 lib/src/stdlib.c | 32 +++++++++++++-------------------
 1 file changed, 13 insertions(+), 19 deletions(-)

diff --git a/lib/src/stdlib.c b/lib/src/stdlib.c
index c51bafd..244403e 100644
--- a/lib/src/stdlib.c
+++ b/lib/src/stdlib.c
@@ -261,23 +261,12 @@ static double strtod_hex(const char *s, const char *pc, bool neg, char **endp)
   return neg ? -fraction : fraction;
 }
 
-/* internal scanner for special values */
+/* internal scanner for special values: number of characters of s matched */
 static int strtod_s(const char *pc, const char *s)
 {
-  int n = 0; bool full = true;
-  while (*s) {
-    int c = *pc;
-    if (c == 0) break;
-    if (*s == '*') {
-      full = false;
-      if (c == ')') { ++s; full = true; }
-      else ++pc;
-    } else if (tolower(*s) == tolower(c)) {
-      ++s; ++pc;
-    } else break;
-    ++n;
-  }
-  return full ? n : -1;
+  int n = 0;
+  while (s[n] && tolower(s[n]) == tolower(pc[n])) ++n;
+  return n;
 }
 
 double strtod(const char *s, char **endp)
@@ -291,16 +280,21 @@ double strtod(const char *s, char **endp)
     return strtod_hex(s, pc + 2, neg, endp);
   } else if (pc[0] == 'I' || pc[0] == 'i') {
     int n = strtod_s(pc, "INFINITY");
-    if (n == 3 || n == 8) {
-      if (endp) *endp = (char *)pc + n;
+    if (n >= 3) {
+      if (endp) *endp = (char *)pc + (n == 8 ? 8 : 3);
       return neg ? -HUGE_VAL : HUGE_VAL;
     } else {
       if (endp) *endp = (char *)s;
       return 0.0;
     }
   } else if (pc[0] == 'N' || pc[0] == 'n') {
-    int n = strtod_s(pc, "NAN(*)");
-    if (n >= 3) {
+    int n = strtod_s(pc, "NAN");
+    if (n == 3) {
+      if (pc[3] == '(') { /* optional nan(chars) */
+        int m = 4;
+        while (isalnum(pc[m]) || pc[m] == '_') ++m;
+        if (pc[m] == ')') n = m + 1;
+      }
       if (endp) *endp = (char *)pc + n;
       return -HUGE_VAL + HUGE_VAL; /* fixme */
     } else {
-- 
2.43.0


From 3019c0859ab219aefe15dcce6879797ba1f3b621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:40 +0000
Subject: [PATCH 050/127] fix: strtod does not count leading zeros as
 significant digits

---
 lib/src/stdlib.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/src/stdlib.c b/lib/src/stdlib.c
index 244403e..cc89024 100644
--- a/lib/src/stdlib.c
+++ b/lib/src/stdlib.c
@@ -154,6 +154,8 @@ static double strtod_dec(const char *s, const char *pc, bool neg, char **endp)
   pexp = pc; pc -= mantsz;
   if (dotpos < 0) dotpos = mantsz; 
   else --mantsz;
+  /* leading zeros are not significant */
+  for (; mantsz > 1 && (*pc == '0' || (*pc == '.' && pc[1] == '0')); --mantsz, --dotpos) pc += (*pc == '.') ? 2 : 1;
   if (mantsz > MAX_BASE10_DIGS) mantsz = MAX_BASE10_DIGS;
   fracexp = dotpos - mantsz;
   if (mantsz == 0) {
@@ -219,6 +221,8 @@ static double strtod_hex(const char *s, const char *pc, bool neg, char **endp)
   pexp = pc; pc -= mantsz;
   if (dotpos < 0) dotpos = mantsz;
   else --mantsz;
+  /* leading zeros are not significant */
+  for (; mantsz > 1 && (*pc == '0' || (*pc == '.' && pc[1] == '0')); --mantsz, --dotpos) pc += (*pc == '.') ? 2 : 1;
   if (mantsz > MAX_BASE16_DIGS) mantsz = MAX_BASE16_DIGS;
   fracexp = (dotpos - mantsz)*4;
   if (mantsz == 0) { /* just the 0 of 0x */
-- 
2.43.0


From 8495f7d4039c34be903ffba068a879e1e849d9f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:59 +0000
Subject: [PATCH 051/127] fix: strtod with large negative exponents or a zero
 mantissa is not infinite

---
 lib/src/stdlib.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/lib/src/stdlib.c b/lib/src/stdlib.c
index cc89024..a41ebd7 100644
--- a/lib/src/stdlib.c
+++ b/lib/src/stdlib.c
@@ -184,9 +184,11 @@ static double strtod_dec(const char *s, const char *pc, bool neg, char **endp)
   else exp = fracexp + exp;
   if (exp < 0) { negexp = true; exp = -exp; } 
   else negexp = false;
+  if (fraction == 0.0) exp = 0;
   if (exp > MAX_BASE10_EXPONENT) {
     if (endp != NULL) *endp = (char *)pc;
     errno = ERANGE;
+    if (negexp) return neg ? -0.0 : 0.0;
     return neg ? -HUGE_VAL : HUGE_VAL;
   }
   exponent = 1.0;
@@ -200,7 +202,7 @@ static double strtod_dec(const char *s, const char *pc, bool neg, char **endp)
   return neg ? -fraction : fraction;
 }
 
-#define MAX_BASE2_EXPONENT 1024 /* largest possible base 2 exponent */
+#define MAX_BASE2_EXPONENT 5000 /* beyond the range of base 2 exponents */
 #define MAX_BASE16_DIGS 15 /* more than this won't affect the result */
 
 static double strtod_hex(const char *s, const char *pc, bool neg, char **endp)
@@ -254,12 +256,12 @@ static double strtod_hex(const char *s, const char *pc, bool neg, char **endp)
   else exp = fracexp + exp;
   if (exp < 0) { negexp = true; exp = -exp; }
   else negexp = false;
-  if (exp > MAX_BASE2_EXPONENT) {
-    if (endp != NULL) *endp = (char *)pc;
-    errno = ERANGE;
-    return neg ? -HUGE_VAL : HUGE_VAL;
+  if (fraction == 0.0) exp = 0;
+  if (exp > MAX_BASE2_EXPONENT) exp = MAX_BASE2_EXPONENT;
+  if (exp) {
+    fraction = ldexp(fraction, negexp ? -exp : exp);
+    if (fraction == 0.0 || fraction == HUGE_VAL) errno = ERANGE;
   }
-  fraction = ldexp(fraction, negexp ? -exp : exp);
 
   if (endp != NULL) *endp = (char *)pc;
   return neg ? -fraction : fraction;
-- 
2.43.0


From 20720424dc274802df7be3e0fb0a3be32a0b52a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:05 +0000
Subject: [PATCH 052/127] fix: strtod saturates long exponents

---
 lib/src/stdlib.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/src/stdlib.c b/lib/src/stdlib.c
index a41ebd7..3ca85c2 100644
--- a/lib/src/stdlib.c
+++ b/lib/src/stdlib.c
@@ -175,7 +175,8 @@ static double strtod_dec(const char *s, const char *pc, bool neg, char **endp)
     if (*++pc == '-') { ++pc; negexp = true; }
     else if (*pc == '+') ++pc;
     while (isdigit(*pc)) {
-      exp = exp * 10 + (*pc++ - '0');
+      if (exp < 100000) exp = exp * 10 + (*pc - '0');
+      ++pc;
       ++expsz;
     }
   }
@@ -247,7 +248,8 @@ static double strtod_hex(const char *s, const char *pc, bool neg, char **endp)
     if (*++pc == '-') { ++pc; negexp = true; }
     else if (*pc == '+') ++pc;
     while (isdigit(*pc)) {
-      exp = exp * 10 + (*pc++ - '0');
+      if (exp < 100000) exp = exp * 10 + (*pc - '0');
+      ++pc;
       ++expsz;
     }
   }
-- 
2.43.0


From 22d9f254b7b5bc423c45eb11dc4406443c0130af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:11 +0000
Subject: [PATCH 053/127] fix: scanf accepts only complete nan(chars) sequences

---
 lib/src/stdio.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/src/stdio.c b/lib/src/stdio.c
index d5294bd..4b4e233 100644
--- a/lib/src/stdio.c
+++ b/lib/src/stdio.c
@@ -688,10 +688,11 @@ static int _atos(in_fct_t in, void *data, const size_t maxlen, const char *s, si
     int c = (*in)(data, *pidx, maxlen, false);
     if (c == EOF) break;
     if (*s == '*') {
-      full = false;
-      if (c == ')') { ++s; full = true; }
-      else (*in)(data, (*pidx)++, maxlen, true);
+      if (c == ')') { ++s; continue; }
+      if (!isalnum(c) && c != '_') break;
+      (*in)(data, (*pidx)++, maxlen, true);
     } else if (tolower(*s) == tolower(c)) {
+      if (*s == '(') full = false; else if (*s == ')') full = true;
       ++s;
       (*in)(data, (*pidx)++, maxlen, true);
     } else break;
-- 
2.43.0


From a54e750fa044b9bf5351c6466495a92d30a64ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:04 +0000
Subject: [PATCH 054/127] fix: correct spelling of September in strftime

---
 lib/src/time.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/time.c b/lib/src/time.c
index 29ebb80..d7e0462 100644
--- a/lib/src/time.c
+++ b/lib/src/time.c
@@ -52,7 +52,7 @@ static const char *mon_name[12] = {
 
 static const char *mon_full_name[] = { 
   "January", "February", "March", "April", "May", "June", 
-  "July", "August", "Sepember", "October", "November", "December" 
+  "July", "August", "September", "October", "November", "December" 
 };
 
 /* hidden state for non-reentrant functions */
-- 
2.43.0


From af2be36e33cea8232fabe198b096d700ab02fd1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:09 +0000
Subject: [PATCH 055/127] fix: strftime %p prints AM before noon and PM from
 noon on

---
 lib/src/time.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/time.c b/lib/src/time.c
index d7e0462..27f0c07 100644
--- a/lib/src/time.c
+++ b/lib/src/time.c
@@ -418,7 +418,7 @@ size_t strftime(char *s, size_t smax, const char *fmt, const struct tm *tp)
           addval[2] = '\0';
           break;
         case 'p':
-          if (tp->tm_hour > 0 && tp->tm_hour < 13) addstr = "AM";
+          if (tp->tm_hour < 12) addstr = "AM";
           else addstr = "PM";
           break;
         case 'S':
-- 
2.43.0


From 181f3bf1268bf4362ca1d543ac75426510620199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:16 +0000
Subject: [PATCH 056/127] fix: strftime %x is the date and %X the time

---
 lib/src/time.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/src/time.c b/lib/src/time.c
index 27f0c07..4ed4fae 100644
--- a/lib/src/time.c
+++ b/lib/src/time.c
@@ -381,7 +381,7 @@ size_t strftime(char *s, size_t smax, const char *fmt, const struct tm *tp)
           }
           break;
         case 'c':
-          strftime(addval, 80, "%a %b %d %x %Y", tp);
+          strftime(addval, 80, "%a %b %d %X %Y", tp);
           break;
         case 'd':
           addval[0] = '0' + (tp->tm_mday / 10);
@@ -438,10 +438,10 @@ size_t strftime(char *s, size_t smax, const char *fmt, const struct tm *tp)
           addval[1] = '0' + (tp->tm_wday % 10);
           addval[2] = '\0';
           break;
-        case 'X':
+        case 'x':
           strftime(addval, 80, "%d.%m.%Y", tp);
           break;
-        case 'x':
+        case 'X':
           strftime(addval, 80, "%H:%M:%S", tp);
           break;
         case 'y':
-- 
2.43.0


From ec7e01b178ad9f8a5d92dc13e23952fd3c347a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:23 +0000
Subject: [PATCH 057/127] fix: strftime %y and %Y work outside of 1900..9999

---
 lib/src/time.c | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/lib/src/time.c b/lib/src/time.c
index 4ed4fae..5c3717d 100644
--- a/lib/src/time.c
+++ b/lib/src/time.c
@@ -445,16 +445,13 @@ size_t strftime(char *s, size_t smax, const char *fmt, const struct tm *tp)
           strftime(addval, 80, "%H:%M:%S", tp);
           break;
         case 'y':
-          addval[0] = '0' + ((tp->tm_year % 100) / 10);
-          addval[1] = '0' + ((tp->tm_year % 100) % 10);
+          week = (tp->tm_year % 100 + 100) % 100;
+          addval[0] = '0' + (week / 10);
+          addval[1] = '0' + (week % 10);
           addval[2] = '\0';
           break;
         case 'Y':
-          addval[0] = '0' + ((tp->tm_year + 1900) / 1000);
-          addval[1] = '0' + (((tp->tm_year + 1900) % 1000) / 100);
-          addval[2] = '0' + (((tp->tm_year + 1900) % 100) / 10);
-          addval[3] = '0' + ((tp->tm_year + 1900) % 10);
-          addval[4] = '\0';
+          snprintf(addval, 80, "%.4lld", tp->tm_year + 1900LL);
           break;
         case 'Z':
           addstr = tzname[tp->tm_isdst > 0];
-- 
2.43.0


From f394e84627024a9459625171378d474e2f983cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:30 +0000
Subject: [PATCH 058/127] fix: strftime counts ordinary characters and stays
 inside the buffer

---
 lib/src/time.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/lib/src/time.c b/lib/src/time.c
index 5c3717d..82c6090 100644
--- a/lib/src/time.c
+++ b/lib/src/time.c
@@ -468,18 +468,19 @@ size_t strftime(char *s, size_t smax, const char *fmt, const struct tm *tp)
       if (addstr == NULL) addstr = addval;
       if (*addstr != '\0') {
         size_t len = (addlen < 0) ? strlen(addstr) : addlen;
-        if (count + len > smax) len = smax - count;
-        strncpy(ptr, addstr, len);
+        if (len >= smax - count) return 0;
+        memcpy(ptr, addstr, len);
         ptr += len;
         count += len;
       }
       ++fmt;
     } else {
-      if (count <= smax) *ptr++ = *fmt;
-      ++fmt;
+      if (count >= smax) return 0;
+      *ptr++ = *fmt;
+      if (*fmt++ == '\0') break;
+      ++count;
     }
-  } while (fmt[-1] != '\0');
+  } while (true);
 
-  if (count > smax) count = 0;
   return count;
 }
-- 
2.43.0


From f42e8674622a98f19de3b66a8ea7b10c67445f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:37 +0000
Subject: [PATCH 059/127] fix: mktime normalises its argument and covers all
 years

---
 lib/src/time.c | 47 +++++++++++++++++++++++++++--------------------
 1 file changed, 27 insertions(+), 20 deletions(-)

diff --git a/lib/src/time.c b/lib/src/time.c
index 82c6090..2ed000e 100644
--- a/lib/src/time.c
+++ b/lib/src/time.c
@@ -14,9 +14,7 @@
 #define DAYS_PER_100Y (365*100 + 24)
 #define DAYS_PER_4Y   (365*4   + 1)
 #define DAYS_PER_WEEK 7
-/* year range is from 1901 to 2038, so no century can occur which is not a leap year
- * #define is_leap(y)  ((y) % 4 == 0 && ((y) % 100 != 0 || (y) % 400 == 0)) */
-#define is_leap(y)  ((y) % 4 == 0)
+#define is_leap(y)  ((y) % 4 == 0 && ((y) % 100 != 0 || (y) % 400 == 0))
 
 static int days_in_month[] = {
   31, 30, 31, 30, 31, 31, 30, 31, 30, 31, 31, 29
@@ -259,26 +257,35 @@ void tzset(void)
 
 time_t mktime(struct tm *tm)
 {
-  long tyears, tdays, leaps, utc_hrs;
-  int leap_year;
+  long long year, cycle, days, t;
+  int mon;
 
   tzset();
-  leap_year = is_leap(tm->tm_year + 1900);
-  tyears = tm->tm_year - 70;
-  leaps = (tyears + 2) / 4;
-  if (tyears < 0) {
-    leaps = (tyears - 2) / 4;
-    if (leap_year && tm->tm_mon > 1) ++leaps;
-  } else {
-    leaps = (tyears + 2) / 4; /* no of next two lines until year 2100. */
-    if (leap_year && (tm->tm_mon == 0 || tm->tm_mon == 1)) --leaps;
+  /* normalize month, split years into 400-year cycles starting in 2000 */
+  year = tm->tm_year - 100LL + tm->tm_mon / 12;
+  mon = tm->tm_mon % 12;
+  if (mon < 0) {
+    mon += 12;
+    --year;
   }
-  tdays = (tm->tm_mon > 0) ? mon_days[tm->tm_mon - 1] : 0;
-  tdays += tm->tm_mday - 1; /* days of month passed. */
-  tdays += (tyears * 365) + leaps;
-  utc_hrs = tm->tm_hour;
-
-  return (tdays * 86400L) + (utc_hrs * 3600L) + ((long)tm->tm_min * 60L) + (long)tm->tm_sec + timezone;
+  cycle = year / 400;
+  year = year % 400;
+  if (year < 0) {
+    year += 400;
+    --cycle;
+  }
+  days = cycle * DAYS_PER_400Y + year * 365;
+  if (year > 0) days += (year - 1) / 4 - (year - 1) / 100 + 1; /* leap days in previous years */
+  if (mon > 0) days += mon_days[mon - 1];
+  if (mon > 1 && is_leap(year)) ++days;
+  days += tm->tm_mday - 1LL;
+  t = 946684800LL + days * 86400 + tm->tm_hour * 3600LL + tm->tm_min * 60LL + tm->tm_sec;
+  if (secs_to_tm(t, tm) < 0) {
+    errno = EOVERFLOW;
+    return -1;
+  }
+  tm->tm_isdst = 0;
+  return t + timezone;
 }
 
 char *asctime_r(const struct tm *ptm, char *buf)
-- 
2.43.0


From 0a593b04c2848ad128d69548cdee3f49a28322bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:34 +0000
Subject: [PATCH 060/127] fix: strftime %w is a single digit

---
 lib/src/time.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/lib/src/time.c b/lib/src/time.c
index 2ed000e..a3bac8f 100644
--- a/lib/src/time.c
+++ b/lib/src/time.c
@@ -441,9 +441,8 @@ size_t strftime(char *s, size_t smax, const char *fmt, const struct tm *tp)
           addval[2] = '\0';
           break;
         case 'w':
-          addval[0] = '0' + (tp->tm_wday / 10);
-          addval[1] = '0' + (tp->tm_wday % 10);
-          addval[2] = '\0';
+          addval[0] = '0' + tp->tm_wday;
+          addval[1] = '\0';
           break;
         case 'x':
           strftime(addval, 80, "%d.%m.%Y", tp);
-- 
2.43.0


From 5bd16d950600ab57b6c154f9b5e643454e1ee802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:26 +0000
Subject: [PATCH 061/127] fix: streams are closed after the last termination
 handler

---
 lib/include/sys.crt.h | 1 +
 lib/src/crt.args.c    | 2 ++
 lib/src/crt.argv.c    | 2 ++
 lib/src/crt.void.c    | 2 ++
 lib/src/stdio.c       | 3 ++-
 5 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/lib/include/sys.crt.h b/lib/include/sys.crt.h
index d8b123b..1401be4 100644
--- a/lib/include/sys.crt.h
+++ b/lib/include/sys.crt.h
@@ -7,5 +7,6 @@
 typedef void (*onterm_func_t)(void);
 extern onterm_func_t onterm_funcs[ONTERM_MAX];
 extern size_t onterm_count;
+extern onterm_func_t onterm_last; /* called after all onterm_funcs */
 extern void terminate(int status);
 
diff --git a/lib/src/crt.args.c b/lib/src/crt.args.c
index 1214cda..9727365 100644
--- a/lib/src/crt.args.c
+++ b/lib/src/crt.args.c
@@ -45,6 +45,7 @@ void initialize(void)
 
 onterm_func_t onterm_funcs[ONTERM_MAX];
 size_t onterm_count = 0;
+onterm_func_t onterm_last = NULL;
 
 void terminate(int status)
 {
@@ -52,5 +53,6 @@ void terminate(int status)
     onterm_func_t fn = onterm_funcs[--onterm_count];
     (*fn)();
   }
+  if (onterm_last != NULL) (*onterm_last)();
   proc_exit((exitcode_t)status);
 }
diff --git a/lib/src/crt.argv.c b/lib/src/crt.argv.c
index cf6c37a..b01cafb 100644
--- a/lib/src/crt.argv.c
+++ b/lib/src/crt.argv.c
@@ -40,6 +40,7 @@ void initialize(void)
 
 onterm_func_t onterm_funcs[ONTERM_MAX];
 size_t onterm_count = 0;
+onterm_func_t onterm_last = NULL;
 
 void terminate(int status)
 {
@@ -47,5 +48,6 @@ void terminate(int status)
     onterm_func_t fn = onterm_funcs[--onterm_count];
     (*fn)();
   }
+  if (onterm_last != NULL) (*onterm_last)();
   proc_exit((exitcode_t)status);
 }
diff --git a/lib/src/crt.void.c b/lib/src/crt.void.c
index cc28913..5029199 100644
--- a/lib/src/crt.void.c
+++ b/lib/src/crt.void.c
@@ -11,6 +11,7 @@ void initialize(void)
 
 onterm_func_t onterm_funcs[ONTERM_MAX];
 size_t onterm_count = 0;
+onterm_func_t onterm_last = NULL;
 
 void terminate(int status)
 {
@@ -18,5 +19,6 @@ void terminate(int status)
     onterm_func_t fn = onterm_funcs[--onterm_count];
     (*fn)();
   }
+  if (onterm_last != NULL) (*onterm_last)();
   proc_exit((exitcode_t)status);
 }
diff --git a/lib/src/stdio.c b/lib/src/stdio.c
index 4b4e233..4d82d3e 100644
--- a/lib/src/stdio.c
+++ b/lib/src/stdio.c
@@ -10,6 +10,7 @@
 #include <float.h>
 #include <stdio.h>
 #include <sys/intrs.h>
+#include <sys/crt.h>
 
 /* stream i/o after K&R TCPL */
 
@@ -46,7 +47,7 @@ static void initialize(void)
     /* make stdin and stdout line-buffered if associated with a tty */
     if (isatty(STDIN_FILENO)) stdin->flags |= _IOLBF; 
     if (isatty(STDOUT_FILENO)) stdout->flags |= _IOLBF; 
-    atexit(&closeall);
+    onterm_last = &closeall;
     initialized = true;
   }
 }
-- 
2.43.0


From 6df2fa1b02c0f0bf7839df84498b0d3557e0ac9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:58 +0000
Subject: [PATCH 062/127] fix: split-off heap blocks can merge again

---
 lib/src/stdlib.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/src/stdlib.c b/lib/src/stdlib.c
index 3ca85c2..4d57513 100644
--- a/lib/src/stdlib.c
+++ b/lib/src/stdlib.c
@@ -585,6 +585,7 @@ static header_t *pullblock(size_t bi)
       if ((pbi = buckets[bi]) != NULL) pbi->free.prev = pb2;
       pb2->free.next = pbi; pb2->free.prev = NULL;
       buckets[bi] = pb2;
+      (pb2+1)->used.bi = (uint8_t)bi; /* bi mark */
     }
     return pb;
   }
-- 
2.43.0


From abdab18a36b2d252b096be6f792395de5611bde6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:14 +0000
Subject: [PATCH 063/127] fix: short host writes of buffered output are
 continued

---
 lib/src/stdio.c | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/lib/src/stdio.c b/lib/src/stdio.c
index 4d82d3e..245d0a2 100644
--- a/lib/src/stdio.c
+++ b/lib/src/stdio.c
@@ -191,16 +191,27 @@ size_t fread(void *buf, size_t size, size_t count, FILE *fp)
   return 0; /* unreacheable */
 }
 
+/* writes all n bytes unless the host reports an error; returns the number written */
+static size_t writeall(FILE *fp, const char *p, size_t n)
+{
+  size_t left = n; ssize_t k;
+  while (left > 0) {
+    if ((k = write(fp->fd, p, left)) <= 0) {
+      fp->flags |= _IOERR;
+      break;
+    }
+    p += k; left -= (size_t)k;
+  }
+  return n - left;
+}
+
 static int writebuf(FILE *fp)
 {
   unsigned char *base = fp->base;
   ssize_t n = fp->ptr - base;
   fp->ptr = base;
   fp->cnt = (fp->flags & (_IONBF|_IOLBF)) ? 0 : fp->end - base;
-  if (n > 0 && n != write(fp->fd, (char*)base, (size_t)n)) {
-    fp->flags |= _IOERR;
-    return EOF;
-  }
+  if (n > 0 && writeall(fp, (char*)base, (size_t)n) != (size_t)n) return EOF;
   return 0;
 }
 
@@ -256,9 +267,7 @@ size_t fwrite(const void *buf, size_t size, size_t count, FILE *fp)
    * is > BUFSIZ chars to write, we can do a direct write */
   if (fp->base >= fp->ptr) { /* this covers the unbuffered case, too */
     if ((fp->flags & _IONBF) != 0 || nleft >= BUFSIZ) {
-      n = write(fp->fd, ptr, nleft);
-      if (n != nleft) { fp->flags |= _IOERR; n = (n >= 0) ? n : 0; }
-      return n/size;
+      return writeall(fp, ptr, nleft)/size;
     }
   }
   /* put characters in the buffer */
-- 
2.43.0


From e6e93985f3cad5ff22346e86ce5cb8f28d65591c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:20 +0000
Subject: [PATCH 064/127] fix: fputs reports errors of unbuffered and read-only
 streams

---
 lib/src/stdio.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/stdio.c b/lib/src/stdio.c
index 245d0a2..b2b1276 100644
--- a/lib/src/stdio.c
+++ b/lib/src/stdio.c
@@ -294,7 +294,7 @@ int fputs(const char *s, FILE *fp)
 {
   ssize_t ndone = 0, n;
   unsigned char *cptr; char *p;
-  if (wrtchk(fp) != 0) return 0;
+  if (wrtchk(fp) != 0) return EOF;
   if ((fp->flags & _IONBF) == 0) {
     for (;; s += n) {
       while ((n = fp->end - (cptr = fp->ptr)) <= 0) { /* full buf */
@@ -312,7 +312,7 @@ int fputs(const char *s, FILE *fp)
   } else {
     /* write out to an unbuffered file */
     size_t cnt = strlen(s);
-    write(fp->fd, s, cnt);
+    if (writeall(fp, s, cnt) != cnt) return EOF;
     return (int)cnt;
   }
   return 0; /* unreacheable */
-- 
2.43.0


From 1405d5ecfbcfbbb34574d737fd6e31dbefc7e254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:26 +0000
Subject: [PATCH 065/127] fix: putc reports its own errors and returns an
 unsigned char

---
 lib/src/stdio.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/lib/src/stdio.c b/lib/src/stdio.c
index b2b1276..bc1ccd6 100644
--- a/lib/src/stdio.c
+++ b/lib/src/stdio.c
@@ -241,20 +241,20 @@ int _flushbuf(int c, FILE *fp)
     /* check for linebuffered with write perm, but no EOF */
     if ((fp->flags & (_IOLBF|_IOWRT|_IOEOF)) == (_IOLBF|_IOWRT)) {
       if (fp->ptr >= fp->end) break; /* flush buf and be done */
-      if ((*fp->ptr++ = c) != '\n') return c;
-      return writebuf(fp) == EOF ? EOF : c;
+      c1 = c; *fp->ptr++ = c1;
+      if (c1 != '\n') return c1;
+      return writebuf(fp) == EOF ? EOF : c1;
     }
     /* write out an unbuffered file, if have write perm, but no EOF */
     if ((fp->flags & (_IONBF|_IOWRT|_IOEOF)) == (_IONBF|_IOWRT)) {
       c1 = c; fp->cnt = 0;
-      if (write(fp->fd, (char *)&c1, 1) == 1) return c;
+      if (write(fp->fd, (char *)&c1, 1) == 1) return c1;
       fp->flags |= _IOERR;
       return EOF;
     }
   } while (fp->flags & (_IONBF|_IOLBF));
-  writebuf(fp); /* full buffer: flush it */
-  putc((char)c, fp); /* then put "c" in newly emptied buf */
-  return ferror(fp) ? EOF : c;
+  if (writebuf(fp) == EOF) return EOF; /* full buffer: flush it */
+  return putc((unsigned char)c, fp); /* then put "c" in newly emptied buf */
 }
 
 size_t fwrite(const void *buf, size_t size, size_t count, FILE *fp)
-- 
2.43.0


From ea5b88d85a86844e0746fb163b5b9ad27b2a263d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:15 +0000
Subject: [PATCH 066/127] fix: ungetc works before the first read and clears
 the end-of-file indicator

---
 lib/src/stdio.c | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/lib/src/stdio.c b/lib/src/stdio.c
index bc1ccd6..5b557f5 100644
--- a/lib/src/stdio.c
+++ b/lib/src/stdio.c
@@ -370,13 +370,23 @@ char *fgets(char *s, int size, FILE *fp)
 
 int ungetc(int c, FILE *fp)
 {
-  if (c == EOF) return -1;
-  if ((fp->flags & _IOREAD) == 0 || fp->ptr <= fp->base) {
-    if (fp->ptr == fp->base && fp->cnt == 0) ++fp->ptr;
-    else return -1;
+  unsigned char c1 = (unsigned char)c;
+  if (c == EOF) return EOF;
+  if (!(fp->flags & _IOREAD)) {
+    if (!(fp->flags & _IORW)) return EOF;
+    fp->flags |= _IOREAD;
   }
-  *--fp->ptr = c; ++fp->cnt;
-  return c;
+  if (fp->base == NULL) {
+    if (!initialized) initialize();
+    addbuf(fp);
+  }
+  if (fp->ptr <= fp->base) {
+    if (fp->cnt > 0) return EOF;
+    fp->ptr = fp->base + 1; fp->cnt = 0;
+  }
+  *--fp->ptr = c1; ++fp->cnt;
+  fp->flags &= ~_IOEOF;
+  return c1;
 }
 
 int fseek(FILE *fp, long offset, int origin)
-- 
2.43.0


From 7e86f48b7be3cbfe81ec042695af6366b53455c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:23 +0000
Subject: [PATCH 067/127] fix: an update stream read after fflush does not
 write what was read

---
 lib/src/stdio.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/lib/src/stdio.c b/lib/src/stdio.c
index 5b557f5..b0117e8 100644
--- a/lib/src/stdio.c
+++ b/lib/src/stdio.c
@@ -123,6 +123,8 @@ int fclose(FILE *fp)
   return res;
 }
 
+static int writebuf(FILE *fp);
+
 static void addbuf(FILE *fp)
 {
   if (fp->flags & _IONBF) {
@@ -148,8 +150,12 @@ int _fillbuf(FILE *fp)
   if (!initialized) initialize();
   if (fp->base == NULL) addbuf(fp);
   if (!(fp->flags & _IOREAD)) {
-    if (fp->flags & _IORW) fp->flags |= _IOREAD;
-    else return EOF;
+    if (!(fp->flags & _IORW)) return EOF;
+    if (fp->flags & _IOWRT) { /* output is over: what comes is input */
+      if (fp->ptr > fp->base && writebuf(fp) == EOF) return EOF;
+      fp->flags &= ~_IOWRT;
+    }
+    fp->flags |= _IOREAD;
   }
   /* if this device is a terminal (line-buffered) or unbuffered, then
    * flush buffers of all line-buffered devices currently writing */
-- 
2.43.0


From e03944f2358bd6241464345e87e90bc18983c3dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:30 +0000
Subject: [PATCH 068/127] fix: fflush(NULL) flushes all output streams

---
 lib/src/stdio.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/src/stdio.c b/lib/src/stdio.c
index b0117e8..95a822b 100644
--- a/lib/src/stdio.c
+++ b/lib/src/stdio.c
@@ -332,6 +332,13 @@ int puts(const char *s)
 
 int fflush(FILE *fp)
 {
+  if (fp == NULL) { /* all streams with output */
+    int res = 0;
+    for (fp = &_iob[0]; fp < &_iob[FOPEN_MAX]; ++fp) {
+      if ((fp->flags & (_IOREAD|_IOWRT)) == _IOWRT && fflush(fp) == EOF) res = EOF;
+    }
+    return res;
+  }
   if (!(fp->flags & _IOWRT)) {
     fp->cnt = 0;
     return 0;
-- 
2.43.0


From 22cf6d93e09b0ff755006d29bbaab0b1a63c8c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:38 +0000
Subject: [PATCH 069/127] fix: line-buffered fwrite looks for the newline in
 all that is buffered

---
 lib/src/stdio.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/stdio.c b/lib/src/stdio.c
index 95a822b..76273b5 100644
--- a/lib/src/stdio.c
+++ b/lib/src/stdio.c
@@ -287,7 +287,7 @@ size_t fwrite(const void *buf, size_t size, size_t count, FILE *fp)
     /* done; flush if linebuffered with a newline */
     if ((nleft -= n) == 0) { 
       if (fp->flags & (_IOLBF|_IONBF)) {
-        if ((fp->flags & _IONBF) || (memchr(fp->base, '\n', count*size) != NULL)) 
+        if ((fp->flags & _IONBF) || (memchr(fp->base, '\n', fp->ptr - fp->base) != NULL)) 
           writebuf(fp);
       }
       return (count);
-- 
2.43.0


From 0fe38365e1cf9882231c24d5ae9dcfd0ede1784a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:44 +0000
Subject: [PATCH 070/127] fix: a failed seek leaves the stream position
 unchanged

---
 lib/include/stdio.h |  1 +
 lib/src/stdio.c     | 89 ++++++++++++++++++---------------------------
 2 files changed, 36 insertions(+), 54 deletions(-)

diff --git a/lib/include/stdio.h b/lib/include/stdio.h
index dca7459..beaea49 100644
--- a/lib/include/stdio.h
+++ b/lib/include/stdio.h
@@ -31,6 +31,7 @@ typedef struct _iobuf {
 #define _IOLBF   0100
 #define _IORW    0200
 #define _IOMYBUF 0400
+#define _IOUNGOT 01000
 
 extern FILE _iob[FOPEN_MAX];
 #define stdin  (&_iob[0])
diff --git a/lib/src/stdio.c b/lib/src/stdio.c
index 76273b5..d18d9f6 100644
--- a/lib/src/stdio.c
+++ b/lib/src/stdio.c
@@ -165,6 +165,7 @@ int _fillbuf(FILE *fp)
         fflush(fpi);
     }
   fp->ptr = fp->base;
+  fp->flags &= ~_IOUNGOT;
   readc = (fp->flags & _IONBF) ? 1 : fp->end - fp->base;
   fp->cnt = read(fp->fd, (char *)fp->base, readc);
   if (--fp->cnt >= 0) return (*fp->ptr++);
@@ -397,41 +398,50 @@ int ungetc(int c, FILE *fp)
     if (fp->cnt > 0) return EOF;
     fp->ptr = fp->base + 1; fp->cnt = 0;
   }
-  *--fp->ptr = c1; ++fp->cnt;
+  fp->ptr--; fp->cnt++;
+  if (*fp->ptr != c1) { /* the buffer no longer mirrors the file */
+    *fp->ptr = c1;
+    fp->flags |= _IOUNGOT;
+  }
   fp->flags &= ~_IOEOF;
   return c1;
 }
 
-int fseek(FILE *fp, long offset, int origin)
+static int seekto(FILE *fp, off_t offset, int origin)
 {
-  ssize_t c; long p;
-  fp->flags &= ~_IOEOF;
   if (fp->flags & _IOREAD) {
-    if (origin < 2 && fp->base != NULL && !(fp->flags & _IONBF)) {
-      c = fp->cnt; p = offset;
-      if (origin == 0) p += (long)c - (long)lseek(fp->fd, 0, SEEK_CUR);
-      else offset -= (long)c;
-      if (!(fp->flags & _IORW) && c > 0 && p <= c && p >= fp->base - fp->ptr) {
+    ssize_t c = fp->cnt > 0 ? fp->cnt : 0;
+    if (origin != SEEK_END && c > 0 && !(fp->flags & (_IONBF|_IORW|_IOUNGOT))) {
+      /* stay in the buffer if possible */
+      off_t p = offset, cur = lseek(fp->fd, 0, SEEK_CUR);
+      if (cur < 0) return -1;
+      if (origin == SEEK_SET) p += (off_t)c - cur;
+      if (p <= (off_t)c && p > (off_t)(fp->base - fp->ptr)) {
         fp->ptr += (int)p; fp->cnt -= (int)p;
+        fp->flags &= ~_IOEOF;
         return 0;
       }
     }
-    if (fp->flags & _IORW) {
-      fp->ptr = fp->base;
-      fp->flags &= ~_IOREAD;
-    }
-    p = (long)lseek(fp->fd, offset, origin);
-    fp->cnt = 0;
+    if (origin == SEEK_CUR) offset -= (off_t)c;
+    if (lseek(fp->fd, offset, origin) < 0) return -1;
+    fp->ptr = fp->base; fp->cnt = 0;
+    fp->flags &= ~(_IOEOF|_IOUNGOT);
+    if (fp->flags & _IORW) fp->flags &= ~_IOREAD;
+    return 0;
   } else if (fp->flags & (_IOWRT|_IORW)) {
-    fflush(fp);
-    fp->cnt = 0;
-    if (fp->flags & _IORW) {
-      fp->flags &= ~_IOWRT;
-      fp->ptr = fp->base;
-    }
-    p = (long)lseek(fp->fd, offset, origin);
+    if ((fp->flags & _IOWRT) && fp->ptr > fp->base && writebuf(fp) == EOF) return -1;
+    if (lseek(fp->fd, offset, origin) < 0) return -1;
+    fp->ptr = fp->base; fp->cnt = 0;
+    fp->flags &= ~_IOEOF;
+    if (fp->flags & _IORW) fp->flags &= ~_IOWRT;
+    return 0;
   }
-  return (p == -1) ? -1 : 0;
+  return -1;
+}
+
+int fseek(FILE *fp, long offset, int origin)
+{
+  return seekto(fp, (off_t)offset, origin);
 }
 
 long ftell(FILE *fp)
@@ -452,11 +462,8 @@ long ftell(FILE *fp)
 
 void rewind(FILE *fp)
 {
-  fflush(fp);
-  lseek(fp->fd, 0, SEEK_SET);
-  fp->cnt = 0; fp->ptr = fp->base;
+  seekto(fp, 0, SEEK_SET);
   fp->flags &= ~(_IOERR|_IOEOF);
-  if (fp->flags & _IORW) fp->flags &= ~(_IOREAD|_IOWRT);
 }
 
 int fgetpos(FILE *fp, fpos_t *ptr)
@@ -480,33 +487,7 @@ int fgetpos(FILE *fp, fpos_t *ptr)
 int fsetpos(FILE *fp, const fpos_t *ptr)
 {
   static_assert(sizeof(fpos_t) == sizeof(off_t));
-  ssize_t c; off_t offset = *ptr, p;
-  fp->flags &= ~_IOEOF;
-  if (fp->flags & _IOREAD) {
-    if (fp->base != NULL && !(fp->flags & _IONBF)) {
-      c = fp->cnt; p = offset;
-      p += (off_t)c - lseek(fp->fd, 0, SEEK_CUR);
-      if (!(fp->flags & _IORW) && c > 0 && p <= c && p >= fp->base - fp->ptr) {
-        fp->ptr += (int)p; fp->cnt -= (int)p;
-        return 0;
-      }
-    }
-    if (fp->flags & _IORW) {
-      fp->ptr = fp->base;
-      fp->flags &= ~_IOREAD;
-    }
-    p = lseek(fp->fd, offset, SEEK_SET);
-    fp->cnt = 0;
-  } else if (fp->flags & (_IOWRT|_IORW)) {
-    fflush(fp);
-    fp->cnt = 0;
-    if (fp->flags & _IORW) {
-      fp->flags &= ~_IOWRT;
-      fp->ptr = fp->base;
-    }
-    p = lseek(fp->fd, offset, SEEK_SET);
-  }
-  return (p == -1) ? -1 : 0;
+  return seekto(fp, *ptr, SEEK_SET);
 }
 
 int setvbuf(FILE *fp, char *buf, int mode, size_t size)
-- 
2.43.0


From 06cd41ced2b11f3dc73ba3c288b18a24dd1f72f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:50 +0000
Subject: [PATCH 071/127] fix: the position of a stream opened for appending is
 where its output goes

---
 lib/include/stdio.h | 1 +
 lib/src/stdio.c     | 9 +++++----
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/lib/include/stdio.h b/lib/include/stdio.h
index beaea49..d1bab88 100644
--- a/lib/include/stdio.h
+++ b/lib/include/stdio.h
@@ -32,6 +32,7 @@ typedef struct _iobuf {
 #define _IORW    0200
 #define _IOMYBUF 0400
 #define _IOUNGOT 01000
+#define _IOAPP   02000
 
 extern FILE _iob[FOPEN_MAX];
 #define stdin  (&_iob[0])
diff --git a/lib/src/stdio.c b/lib/src/stdio.c
index d18d9f6..ce76f19 100644
--- a/lib/src/stdio.c
+++ b/lib/src/stdio.c
@@ -73,6 +73,7 @@ FILE *freopen(const char *filename, const char *mode, FILE *fp)
   fp->fd = fd; fp->cnt = 0;
   fp->base = fp->ptr = fp->end = NULL;
   fp->flags = ((oflags & O_RDWR) == O_RDWR) ? _IORW : (oflags & O_RDONLY) ? _IOREAD : _IOWRT;
+  if (oflags & O_APPEND) fp->flags |= _IOAPP;
   if ((oflags & O_APPEND) && (oflags & O_RDWR) != O_RDWR && lseek(fd, 0L, SEEK_END) < 0) {
     fclose(fp); fp = NULL;
   }
@@ -455,7 +456,7 @@ long ftell(FILE *fp)
     if (fp->flags & _IOWRT && fp->base != NULL && (fp->flags & _IONBF) == 0)
       adjust = fp->ptr - fp->base;
   } else return -1;
-  offset = (long)lseek(fp->fd, 0, SEEK_CUR);
+  offset = (long)lseek(fp->fd, 0, (adjust > 0 && (fp->flags & _IOAPP)) ? SEEK_END : SEEK_CUR);
   if (offset >= 0) offset += (long)adjust;
   return offset;
 }
@@ -478,9 +479,9 @@ int fgetpos(FILE *fp, fpos_t *ptr)
     if (fp->flags & _IOWRT && fp->base != NULL && (fp->flags & _IONBF) == 0)
       adjust = fp->ptr - fp->base;
   } else return -1;
-  offset = lseek(fp->fd, 0, SEEK_CUR);
-  if (offset >= 0) offset += adjust;
-  *ptr = offset;
+  offset = lseek(fp->fd, 0, (adjust > 0 && (fp->flags & _IOAPP)) ? SEEK_END : SEEK_CUR);
+  if (offset < 0) return -1;
+  *ptr = offset + adjust;
   return 0;
 }
 
-- 
2.43.0


From 27dafbc657db7c84b5e238309b0038e65386d792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:56 +0000
Subject: [PATCH 072/127] fix: fgets fails on a read error

---
 lib/src/stdio.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/stdio.c b/lib/src/stdio.c
index ce76f19..dbc1733 100644
--- a/lib/src/stdio.c
+++ b/lib/src/stdio.c
@@ -368,7 +368,7 @@ char *fgets(char *s, int size, FILE *fp)
   for (size--; size > 0; size -= (int)n) {
     if (fp->cnt <= 0) { /* empty buffer */
       if (_fillbuf(fp) == EOF) {
-        if (s0 == s) return NULL;
+        if (s0 == s || !(fp->flags & _IOEOF)) return NULL;
         break; /* no more data */
       }
       fp->ptr--; fp->cnt++;
-- 
2.43.0


From 0780daacefee3378248783924fec38e0b462392e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:02 +0000
Subject: [PATCH 073/127] fix: setvbuf settles the terminal defaults first and
 rejects bad modes unchanged

---
 lib/src/stdio.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/src/stdio.c b/lib/src/stdio.c
index dbc1733..a4960d0 100644
--- a/lib/src/stdio.c
+++ b/lib/src/stdio.c
@@ -493,6 +493,8 @@ int fsetpos(FILE *fp, const fpos_t *ptr)
 
 int setvbuf(FILE *fp, char *buf, int mode, size_t size)
 {
+  if (mode != _IOFBF && mode != _IOLBF && mode != _IONBF) return -1;
+  if (!initialized) initialize();
   if (fp->base != NULL && fp->base != &fp->sbuf[0]) {
     if (fp->flags & _IOMYBUF) free(fp->base);
     fp->base = fp->end = NULL;
-- 
2.43.0


From 51f236ea65997ddc01cf8863c721a2d1d9e943a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:09 +0000
Subject: [PATCH 074/127] fix: fclose keeps the error number of the failed
 close

---
 lib/src/stdio.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/lib/src/stdio.c b/lib/src/stdio.c
index a4960d0..429c8c3 100644
--- a/lib/src/stdio.c
+++ b/lib/src/stdio.c
@@ -112,10 +112,7 @@ int fclose(FILE *fp)
   if (fp == NULL) return res;
   if (fp->flags & (_IOREAD|_IOWRT|_IORW)) {
     res = (fp->flags & _IONBF)? 0 : fflush(fp);
-    if (close(fp->fd) < 0) {
-      errno = ENOENT;
-      res = -1; 
-    }
+    if (close(fp->fd) < 0) res = -1;
   }
   if (fp->base && fp->base != &fp->sbuf[0]) {
     if (fp->flags & _IOMYBUF) free(fp->base);
-- 
2.43.0


From 618e0822814caa1e07af791282dd846eaa55e2d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:30 +0000
Subject: [PATCH 075/127] fix: an update stream can be read after fflush

---
 lib/src/stdio.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/src/stdio.c b/lib/src/stdio.c
index 429c8c3..091ee2d 100644
--- a/lib/src/stdio.c
+++ b/lib/src/stdio.c
@@ -346,6 +346,10 @@ int fflush(FILE *fp)
          (fp->base != NULL) && (fp->ptr > fp->base)) {
     writebuf(fp);
   }
+  if (fp->flags & _IORW) { /* input may follow */
+    fp->flags &= ~_IOWRT;
+    fp->ptr = fp->base; fp->cnt = 0;
+  }
   return ferror(fp) ? EOF : 0;
 }
 
-- 
2.43.0


From 1940d8182d9963e94e4066a06941509ace48a1a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:48 +0000
Subject: [PATCH 076/127] fix: line-buffered fwrite reports a failed write

---
 lib/src/stdio.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/src/stdio.c b/lib/src/stdio.c
index 091ee2d..ea162c3 100644
--- a/lib/src/stdio.c
+++ b/lib/src/stdio.c
@@ -286,8 +286,10 @@ size_t fwrite(const void *buf, size_t size, size_t count, FILE *fp)
     /* done; flush if linebuffered with a newline */
     if ((nleft -= n) == 0) { 
       if (fp->flags & (_IOLBF|_IONBF)) {
-        if ((fp->flags & _IONBF) || (memchr(fp->base, '\n', fp->ptr - fp->base) != NULL)) 
-          writebuf(fp);
+        n = fp->ptr - fp->base;
+        if ((fp->flags & _IONBF) || (memchr(fp->base, '\n', n) != NULL)) {
+          if (writebuf(fp) == EOF) return ((size_t)n >= count*size) ? 0 : (count*size - (size_t)n)/size;
+        }
       }
       return (count);
     }
-- 
2.43.0


From 9f4f6fec9bdd860772ea8861ca95a96c674c450e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:33 +0000
Subject: [PATCH 077/127] fix: && and || are constant operators

---
 c.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/c.c b/c.c
index 5c4318d..da6a088 100644
--- a/c.c
+++ b/c.c
@@ -919,7 +919,16 @@ bool static_eval(node_t *pn, buf_t *prib, seval_t *pr)
     case NT_INFIX: {
       seval_t rx, ry; bool ok = false;
       assert(ndlen(pn) == 2); 
-      if (static_eval(ndref(pn, 0), prib, &rx) && static_eval(ndref(pn, 1), prib, &ry)) {
+      if (pn->op == TT_AND_AND || pn->op == TT_OR_OR) {
+        if (static_eval(ndref(pn, 0), prib, &rx) && ts_numerical(rx.ts)) {
+          numval_convert(TS_BOOL, rx.ts, &rx.val);
+          ok = rx.val.u == (pn->op == TT_OR_OR); /* rhs is not evaluated */
+          if (!ok && static_eval(ndref(pn, 1), prib, &rx) && ts_numerical(rx.ts)) {
+            numval_convert(TS_BOOL, rx.ts, &rx.val); ok = true;
+          }
+          if (ok) { pr->ts = TS_INT; pr->val.i = rx.val.u ? 1 : 0; }
+        }
+      } else if (static_eval(ndref(pn, 0), prib, &rx) && static_eval(ndref(pn, 1), prib, &ry)) {
         if (ts_numerical(rx.ts) && ts_numerical(ry.ts)) {
           numval_t vz; ts_t tz = numval_binop(pn->op, rx.ts, &rx.val, ry.ts, &ry.val, &vz);
           if (tz != TS_VOID) { pr->ts = tz; pr->val = vz; ok = true; }
@@ -1562,6 +1571,7 @@ static bool arithmetic_constant_expr(node_t *pn)
         case TT_OR:    case TT_XOR:   case TT_SLASH: case TT_REM:
         case TT_SHL:   case TT_SHR:   case TT_EQ:    case TT_NE:
         case TT_LT:    case TT_GT:    case TT_LE:    case TT_GE:
+        case TT_AND_AND: case TT_OR_OR:
           return arithmetic_constant_expr(ndref(pn, 0)) && arithmetic_constant_expr(ndref(pn, 1));
         default:;
       } 
-- 
2.43.0


From 85b171b92f9db42b2bc6ab15b72be2ab5a017bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:46 +0000
Subject: [PATCH 078/127] fix: constant prefix operators are allowed in static
 displays

---
 c.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c.c b/c.c
index da6a088..409c97c 100644
--- a/c.c
+++ b/c.c
@@ -1613,7 +1613,7 @@ static bool static_display(node_t *pn, buf_t *prib)
           return ptn && ts_bulk(ptn->ts); /* ok if bulk */
         }
       }
-      return false;
+      return arithmetic_constant_expr(pn);
     } break;
     case NT_CAST: {
       ts_t tc;
-- 
2.43.0


From 8526877217af6daa1838f16618d3904970f28850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:57 +0000
Subject: [PATCH 079/127] fix: static_assert tests the whole value of its
 condition

---
 c.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/c.c b/c.c
index 409c97c..1512f34 100644
--- a/c.c
+++ b/c.c
@@ -1035,14 +1035,15 @@ bool arithmetic_eval(node_t *pn, buf_t *prib, node_t *prn)
 static void check_static_assert(node_t *pn, buf_t *prib)
 {
   if (pn->intr == INTR_SASSERT) {
-    node_t *pen, *psn; int res;
+    node_t *pen, *psn; seval_t r;
     assert(ndlen(pn) == 1 || ndlen(pn) == 2);
     pen = ndref(pn, 0), psn = ndlen(pn) == 2 ? ndref(pn, 1) : NULL;
     if (psn && (psn->nt != NT_LITERAL || psn->ts != TS_STRING))
       neprintf(pn, "unexpected 2nd arg of static_assert (string literal expected)");
-    if (!arithmetic_eval_to_int(pen, prib, &res))
+    if (!static_eval(pen, prib, &r) || !ts_numerical(r.ts))
       n2eprintf(pen, pn, "unexpected lhs of static_assert comparison (static test expected)");
-    if (res == 0) {
+    numval_convert(TS_BOOL, r.ts, &r.val);
+    if (!r.val.u) {
       if (!psn) neprintf(pn, "static_assert failed");
       else neprintf(pn, "static_assert failed (%s)", cbdata(&psn->data));
     }
-- 
2.43.0


From 9d99b3b0f0dd8bfb3bd8e368a0bf094c9da23f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:08 +0000
Subject: [PATCH 080/127] fix: array sizes and enumerators that do not fit int
 are rejected instead of truncated

---
 c.c | 19 +++++++++++++++++--
 c.h |  1 +
 p.c |  8 ++++----
 3 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/c.c b/c.c
index 1512f34..1d3e090 100644
--- a/c.c
+++ b/c.c
@@ -701,7 +701,7 @@ void measure_type(const node_t *ptn, node_t *prn, size_t *psize, size_t *palign,
         const node_t *petn = ndcref(ptn, 0), *pcn = ndcref(ptn, 1); 
         int count = 0;
         /* fixme: eval may need to see local vars, so prib is needed */
-        if (!arithmetic_eval_to_int((node_t*)pcn, NULL, &count) || count <= 0)
+        if (!arithmetic_eval_to_exact_int((node_t*)pcn, NULL, &count) || count <= 0)
           n2eprintf(pcn, prn, "can't allocate/measure data for arrays of nonconstant/nonpositive size");
         measure_type(petn, prn, psize, palign, lvl+1);
         *psize *= count;
@@ -1006,6 +1006,21 @@ bool arithmetic_eval_to_int(node_t *pn, buf_t *prib, int *pri)
   return ok;
 }
 
+/* same, but the value has to be representable as int */
+bool arithmetic_eval_to_exact_int(node_t *pn, buf_t *prib, int *pri)
+{
+  seval_t r; bool ok = false;
+  if (static_eval(pn, prib, &r) && ts_numerical(r.ts)) {
+    numval_t v = r.val;
+    numval_convert(TS_INT, r.ts, &v);
+    if (ts_unsigned(r.ts)) ok = v.i >= 0 && r.val.u == (unsigned long long)v.i;
+    else if (r.ts == TS_FLOAT || r.ts == TS_DOUBLE) ok = true;
+    else ok = r.val.i == v.i;
+    if (ok) *pri = (int)v.i;
+  }
+  return ok;
+}
+
 /* calculate effective ts for v128's boolean */
 static ts_t v128_int_ts_for_bool(int cnt)
 {
@@ -1090,7 +1105,7 @@ static node_t *vardef_check_type(node_t *ptn)
         neprintf(ptn, "not supported: flexible array as global variable type");
       } else if (pcn->nt != NT_LITERAL || pcn->ts != TS_INT) {
         int count = 0;
-        if (!arithmetic_eval_to_int(pcn, NULL, &count) || count <= 0)
+        if (!arithmetic_eval_to_exact_int(pcn, NULL, &count) || count <= 0)
           n2eprintf(pcn, ptn, "array size should be positive constant");
         ndset(pcn, NT_LITERAL, pcn->pwsid, pcn->startpos);
         pcn->ts = TS_INT; pcn->val.i = count;
diff --git a/c.h b/c.h
index ffa190c..7cc0ee8 100644
--- a/c.h
+++ b/c.h
@@ -35,4 +35,5 @@ extern bool static_eval(node_t *pn, buf_t *prib, seval_t *pr);
 /* evaluate pen arithmetic expression statically, putting result into prn */
 extern bool arithmetic_eval(node_t *pen, buf_t *prib, node_t *prn);
 /* evaluate integer expression pen statically, putting result into pi */
+extern bool arithmetic_eval_to_exact_int(node_t *pn, buf_t *prib, int *pri);
 extern bool arithmetic_eval_to_int(node_t *pen, buf_t *prib, int *pri);
diff --git a/p.c b/p.c
index 3ae18b8..711a08c 100644
--- a/p.c
+++ b/p.c
@@ -3348,7 +3348,7 @@ static void parse_enum_body(pws_t *pw, node_t *pn)
   pn->ts = TS_ENUM;
   if (peekt(pw) == TT_IDENTIFIER) pn->name = getid(pw);
   if (peekt(pw) == TT_LBRC) {
-    int curval = 0;
+    int curval = 0; bool full = false;
     dropt(pw);
     while (peekt(pw) != TT_RBRC) {
       node_t *pni = ndnewbk(pn), *pnv; int *pi;
@@ -3360,14 +3360,14 @@ static void parse_enum_body(pws_t *pw, node_t *pn)
       if (peekt(pw) == TT_ASN) {
         dropt(pw);
         parse_conditional_expr(pw, pnv);
-        if (!arithmetic_eval_to_int(pnv, NULL, &curval))
+        if (!arithmetic_eval_to_exact_int(pnv, NULL, &curval))
           neprintf(pnv, "invalid enum initializer (int constant expected)");
-      }
+      } else if (full) neprintf(pni, "enum constant value does not fit int");
       ndset(pnv, NT_LITERAL, pw->id, pni->startpos);
       pnv->ts = TS_INT; pnv->val.i = curval;
       intern_symbol(symname(pni->name), TT_ENUM_NAME, curval);  
       if (peekt(pw) == TT_COMMA) dropt(pw);
-      curval += 1; 
+      if (!(full = curval == INT_MAX)) curval += 1; 
     }
     expect(pw, TT_RBRC, "}");
   }  
-- 
2.43.0


From 080c4ca6d2cf977175cbbfa35380511e99b37489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:40 +0000
Subject: [PATCH 081/127] fix: character constants given by number have char
 values; octal escapes beyond a byte are diagnosed

---
 l.c | 1 +
 p.c | 6 +++---
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/l.c b/l.c
index 3c81122..0741c30 100644
--- a/l.c
+++ b/l.c
@@ -253,6 +253,7 @@ unsigned long strtocc32(const char *s, char** ep, bool *rp)
           } else --s;
           buf[i] = 0; 
           c = (int)strtol(buf, NULL, 8);
+          if (c > 0xff) goto err;
         } break;
         case 0:
           goto err;
diff --git a/p.c b/p.c
index 711a08c..56558a8 100644
--- a/p.c
+++ b/p.c
@@ -2563,10 +2563,10 @@ static void parse_primary_expr(pws_t *pw, node_t *pn)
       dropt(pw);
     } break;
     case TT_CHAR: {
-      char *ns = pw->tokstr; unsigned long ul;
+      char *ns = pw->tokstr; unsigned long ul; bool raw = false;
       ndset(pn, NT_LITERAL, pw->id, startpos); 
-      if (errno = 0, ul = strtou8cc32(ns, NULL, NULL), !errno && ul <= 0x10FFFFUL) {
-        pn->val.i = ul; /* no sext: too small */
+      if (errno = 0, ul = strtou8cc32(ns, NULL, &raw), !errno && ul <= 0x10FFFFUL) {
+        pn->val.i = (raw && ul > 0x7F) ? (long)ul - 0x100 : (long)ul; /* char is signed */
       } else reprintf(pw, startpos, "char literal overflow");
       pn->ts = TS_INT;
       dropt(pw);
-- 
2.43.0


From 8b390a214799aeedd14ff7b4613c6c336e37191e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:51 +0000
Subject: [PATCH 082/127] fix: shifts by more than the width and overflowing
 quotients are not folded

---
 c.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/c.c b/c.c
index 1d3e090..e2da9ff 100644
--- a/c.c
+++ b/c.c
@@ -436,8 +436,8 @@ static ts_t numval_binop(tt_t op, ts_t tx, const numval_t *pvx, ts_t ty, const n
         case TT_XOR:   pvz->u = integral_mask(tz, x ^ y); break;
         case TT_SLASH: if (y) pvz->u = integral_mask(tz, x / y); else tz = TS_VOID; break;
         case TT_REM:   if (y) pvz->u = integral_mask(tz, x % y); else tz = TS_VOID; break;
-        case TT_SHL:   if (y >= 0 && y < 64) pvz->u = integral_mask(tz, x << y); break;
-        case TT_SHR:   if (y >= 0 && y < 64) pvz->u = integral_mask(tz, x >> y); break;
+        case TT_SHL:   if (y >= 0 && y < 64) pvz->u = integral_mask(tz, x << y); else tz = TS_VOID; break;
+        case TT_SHR:   if (y >= 0 && y < 64) pvz->u = integral_mask(tz, x >> y); else tz = TS_VOID; break;
         case TT_EQ:    pvz->i = x == y; tz = TS_INT; break;
         case TT_NE:    pvz->i = x != y; tz = TS_INT; break;
         case TT_LT:    pvz->i = x < y;  tz = TS_INT; break;
@@ -456,10 +456,10 @@ static ts_t numval_binop(tt_t op, ts_t tx, const numval_t *pvx, ts_t ty, const n
         case TT_AND:   pvz->i = integral_sext(tz, x & y); break;
         case TT_OR:    pvz->i = integral_sext(tz, x | y); break;
         case TT_XOR:   pvz->i = integral_sext(tz, x ^ y); break;
-        case TT_SLASH: if (y) pvz->i = integral_sext(tz, x / y); else tz = TS_VOID; break;
-        case TT_REM:   if (y) pvz->i = integral_sext(tz, x % y); else tz = TS_VOID; break;
-        case TT_SHL:   if (y >= 0 && y < 64) pvz->i = integral_sext(tz, x << y); break;
-        case TT_SHR:   if (y >= 0 && y < 64) pvz->i = integral_sext(tz, x >> y); break;
+        case TT_SLASH: if (y && (y != -1 || x != LLONG_MIN)) pvz->i = integral_sext(tz, x / y); else tz = TS_VOID; break;
+        case TT_REM:   if (y && (y != -1 || x != LLONG_MIN)) pvz->i = integral_sext(tz, x % y); else tz = TS_VOID; break;
+        case TT_SHL:   if (y >= 0 && y < 64) pvz->i = integral_sext(tz, x << y); else tz = TS_VOID; break;
+        case TT_SHR:   if (y >= 0 && y < 64) pvz->i = integral_sext(tz, x >> y); else tz = TS_VOID; break;
         case TT_EQ:    pvz->i = x == y; tz = TS_INT; break;
         case TT_NE:    pvz->i = x != y; tz = TS_INT; break;
         case TT_LT:    pvz->i = x < y;  tz = TS_INT; break;
-- 
2.43.0


From 4cc97e2ec8ecc98838f14e62aeeb1eabaa5bec12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:44 +0000
Subject: [PATCH 083/127] fix: initialisers of unions are accepted

---
 c.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c.c b/c.c
index e2da9ff..41e9a19 100644
--- a/c.c
+++ b/c.c
@@ -1210,7 +1210,7 @@ static watie_t *initialize_bulk_data(size_t pdidx, watie_t *pd, size_t off, node
         } else {
           neprintf(pdn, "initializer is too short");
         }
-        if (ptn->ts == TS_UNION) break; /* first member only! */
+        if (ptn->ts == TS_UNION) { ++j; break; } /* first member only! */
       }
       if (j != ndlen(pdn)) 
         neprintf(pdn, "initializer is too long");
-- 
2.43.0


From cae6bc535d6b3d112ae0ffaa0b9b9ebc06c1609f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:47 +0000
Subject: [PATCH 084/127] fix: global variables of unsigned types can start
 with values above INT_MAX

---
 w.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/w.c b/w.c
index 318c8a8..8829e79 100644
--- a/w.c
+++ b/w.c
@@ -4480,6 +4480,8 @@ static void wat_to_wasm_ie(bool import, watiebuf_t *pieb, wasm_module_t *pbm)
         pe->vt = pie->vt; pe->mut = pie->mut;
         assert(IN_I32_CONST <= pie->ic.in && pie->ic.in <= IN_F64_CONST);
         pdc = icbnewbk(&pe->code); *pdc = pie->ic; pdc->id = 0;
+        if (pdc->in == IN_I32_CONST) /* extend sign to upper 32 bits */
+          pdc->arg.i = (int)(unsigned)pdc->arg.u;
         icbnewbk(&pe->code)->in = IN_END; 
       } break;
       default:;
-- 
2.43.0


From b95cba1367a516d62359e4447230b1aaa93a74da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:13 +0000
Subject: [PATCH 085/127] fix: modules referenced only by address initialisers
 are imported

---
 c.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/c.c b/c.c
index 41e9a19..50e196b 100644
--- a/c.c
+++ b/c.c
@@ -1278,6 +1278,7 @@ static watie_t *initialize_bulk_data(size_t pdidx, watie_t *pd, size_t off, node
     } else {
       const node_t *pitn, *pin = lookup_global(r.id);
       if (!pin) neprintf(pdn, "unknown name in address initializer");
+      mark_global_referenced(pin);
       assert(pin->nt == NT_IMPORT && ndlen(pin) == 1 && ndcref(pin, 0)->nt == NT_TYPE);
       pitn = ndcref(pin, 0);
       if (ts_bulk(pitn->ts) || pitn->ts == TS_PTR) {
@@ -1372,6 +1373,7 @@ static void process_vardecl(sym_t mmod, node_t *pdn, node_t *pin)
           } else {
             const node_t *pimn = lookup_global(r.id); inscode_t *pic = &pg->ic;
             if (!pimn) neprintf(pdn, "unknown identifier in address initializer");
+            mark_global_referenced(pimn);
             assert(pimn->nt == NT_IMPORT && pimn->name != 0 && ndlen(pimn) == 1);
             pic->in = ndcref(pimn, 0)->ts == TS_FUNCTION ? IN_REF_FUNC : IN_REF_DATA; 
             pic->id = r.id; pic->arg2.mod = pimn->name;
-- 
2.43.0


From 2cc993f7e3b184b6d78f0f4962a7e02eaf254153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:22 +0000
Subject: [PATCH 086/127] fix: floating literals that underflow are accepted

---
 p.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/p.c b/p.c
index 56558a8..f02a49c 100644
--- a/p.c
+++ b/p.c
@@ -2547,7 +2547,7 @@ static void parse_primary_expr(pws_t *pw, node_t *pn)
     case TT_FLOAT: {
       char *ns = pw->tokstr; double d;
       ndset(pn, NT_LITERAL, pw->id, startpos); 
-      if (errno = 0, d = strtod(ns, NULL), !errno) {
+      if (errno = 0, d = strtod(ns, NULL), !errno || (-HUGE_VAL < d && d < HUGE_VAL)) { /* underflow is ok */
         pn->val.f = (float)d;
       } else reprintf(pw, startpos, "invalid float literal"); 
       pn->ts = TS_FLOAT;
@@ -2556,7 +2556,7 @@ static void parse_primary_expr(pws_t *pw, node_t *pn)
     case TT_DOUBLE: {
       char *ns = pw->tokstr; double d;
       ndset(pn, NT_LITERAL, pw->id, startpos); 
-      if (errno = 0, d = strtod(ns, NULL), !errno) {
+      if (errno = 0, d = strtod(ns, NULL), !errno || (-HUGE_VAL < d && d < HUGE_VAL)) { /* underflow is ok */
         pn->val.d = d;
       } else reprintf(pw, startpos, "invalid double literal"); 
       pn->ts = TS_DOUBLE;
-- 
2.43.0


From 0be2bbbd8addecad3c1dc89e3671b5084588312f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:01 +0000
Subject: [PATCH 087/127] fix: locals are not visible outside of their scope

---
 c.c              | 38 ++++++++------------------------------
 lib/src/dirent.c |  4 ++--
 2 files changed, 10 insertions(+), 32 deletions(-)

diff --git a/c.c b/c.c
index 50e196b..b91d12f 100644
--- a/c.c
+++ b/c.c
@@ -1406,18 +1406,7 @@ static sym_t henv_lookup(sym_t oname, henv_t *phe, int *pupc)
   return 0;
 }
 
-/* see if this local name is already in use */
-static bool locals_lookup(sym_t name, ndbuf_t *plb)
-{
-  size_t i;
-  for (i = 0; i < ndblen(plb); ++i) {
-    node_t *pn = ndbref(plb, i); 
-    if (pn->name == name) return true;
-  }
-  return false;
-}
-
-/* hoist definitions of local vars to plb renaming them if needed;
+/* hoist definitions of local vars to plb giving them unique names;
  * also, mark local vars which addresses are taken as 'auto' */
 static void expr_hoist_locals(node_t *ptn, node_t *pn, henv_t *phe, ndbuf_t *plb)
 {
@@ -1447,24 +1436,13 @@ static void expr_hoist_locals(node_t *ptn, node_t *pn, henv_t *phe, ndbuf_t *plb
       for (i = 0; i < ndlen(pn); ++i) {
         node_t *pni = ndref(pn, i);
         if (pni->nt == NT_VARDECL) {
-          sym_t nname = pni->name; int upc;
-          /* see if in needs to be renamed */
-          if (henv_lookup(pni->name, &he, &upc)) {
-            if (upc) { /* normal shadowing */
-              sym_t *pon = bufnewbk(&he.idmap);
-              nname = internf("%s#%d", symname(pni->name), (int)buflen(plb));
-              pon[0] = pni->name, pon[1] = nname; 
-            } else {
-              n2eprintf(pni, pn, "duplicate variable declaration in the same scope"); 
-            }
-          } else if (locals_lookup(nname, plb)) {
-            sym_t *pon = bufnewbk(&he.idmap);
-            nname = internf("%s#%d", symname(pni->name), (int)buflen(plb));
-            pon[0] = pni->name, pon[1] = nname;
-          } else {
-            sym_t *pon = bufnewbk(&he.idmap);
-            pon[0] = pon[1] = nname; 
-          }
+          sym_t nname, *pon; int upc;
+          /* parameters share the scope of the outermost block */
+          if (henv_lookup(pni->name, &he, &upc) && (upc == 0 || (upc == 1 && !phe->up)))
+            n2eprintf(pni, pn, "duplicate variable declaration in the same scope");
+          /* always rename: once hoisted, original name would be visible outside of its scope */
+          nname = internf("%s#%d", symname(pni->name), (int)buflen(plb));
+          pon = bufnewbk(&he.idmap); pon[0] = pni->name, pon[1] = nname;
           /* hoist vardecl to plb */
           pni->name = nname;
           ndswap(pni, ndbnewbk(plb));
diff --git a/lib/src/dirent.c b/lib/src/dirent.c
index 5eb8370..566750f 100644
--- a/lib/src/dirent.c
+++ b/lib/src/dirent.c
@@ -198,11 +198,11 @@ int scandirat(int dirfd, const char *dir, struct dirent ***namelist,
     return -1;
   }
   
+  struct dirent **dirents = NULL;
+  size_t dirents_used = 0;
   { size_t buffer_processed = buffer_size;
     size_t buffer_used = buffer_size;
-    struct dirent **dirents = NULL;
     size_t dirents_size = 0;
-    size_t dirents_used = 0;
     dircookie_t cookie = DIRCOOKIE_START;
     
     for (;;) {
-- 
2.43.0


From 8f7870a7123829fbe6dee4edc56a63aa39be149e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:32 +0000
Subject: [PATCH 088/127] fix: void parameters and local variables are
 diagnosed

---
 c.c | 3 +--
 p.c | 2 +-
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/c.c b/c.c
index b91d12f..00625d1 100644
--- a/c.c
+++ b/c.c
@@ -2224,8 +2224,7 @@ static void fundef_wasmify(node_t *pdn)
         ndrem(pbn, i); 
       } break;
       default: {
-        assert(false);
-        ++i;
+        neprintf(pdni, "local variables of this type are not supported: %s", ts_name(ptni->ts));
       } break;
     }
   }
diff --git a/p.c b/p.c
index f02a49c..e662720 100644
--- a/p.c
+++ b/p.c
@@ -2143,7 +2143,7 @@ node_t *wrap_type_function(node_t *pn, ndbuf_t *pnb)
   if (pnb) for (i = 0; i < ndblen(pnb); ++i) {
     node_t *pni = ndbref(pnb, i);
     /* treat (void) as () */
-    if (i+1 == ndblen(pnb) && pni->nt == NT_VARDECL && 
+    if (ndblen(pnb) == 1 && pni->nt == NT_VARDECL && !pni->name &&
         ndlen(pni) == 1 && ndref(pni, 0)->nt == NT_TYPE && 
         ndref(pni, 0)->ts == TS_VOID) break;
     ndswap(pni, ndnewbk(&nd));
-- 
2.43.0


From 4d3ccac13d14a7ab07459dbaae332fd0dc0b3cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:40 +0000
Subject: [PATCH 089/127] fix: values of void type are not accepted as operands
 of unary * or as aggregates

---
 c.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/c.c b/c.c
index 00625d1..11bc512 100644
--- a/c.c
+++ b/c.c
@@ -3169,6 +3169,7 @@ static node_t *compile_ataddr(node_t *prn, node_t *pan)
   node_t *patn = acode_type(pan), *petn = NULL;
   if (patn->ts == TS_PTR) petn = ndref(patn, 0);
   else neprintf(prn, "cannot dereference non-pointer expression");  
+  if (petn->ts == TS_VOID) neprintf(prn, "cannot dereference void pointer");
   if (ts_bulk(petn->ts)) {
     /* {bulk_t* | x} => {bulk_t | x} */
     lift_arg0(patn);
@@ -3362,7 +3363,7 @@ static node_t *compile_call(node_t *prn, node_t *pfn, buf_t *pab, node_t *pdn)
     *(node_t **)bufins(pab, 0) = pdn;
     ndsettype(ndnewbk(pcn), TS_VOID);
   } else { 
-    assert(!pdn);
+    if (pdn) neprintf(prn, "function does not return a value of struct/union type");
     ndpushbk(pcn, ndref(pftn, 0));
   }
   if (acode_func_ref(pfn)) {
-- 
2.43.0


From ecc58ec500835087ec514c32619cc3cb8af20222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:48 +0000
Subject: [PATCH 090/127] fix: operands of &* and *& are checked

---
 c.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/c.c b/c.c
index 11bc512..0437078 100644
--- a/c.c
+++ b/c.c
@@ -3843,6 +3843,7 @@ static node_t *expr_compile(node_t *pn, buf_t *prib, const node_t *ret)
         case TT_AND: {
           if (pn0->nt == NT_PREFIX && pn0->op == TT_STAR) {
             pcn = expr_compile(ndref(pn0, 0), prib, NULL);
+            if (acode_type(pcn)->ts != TS_PTR) neprintf(pn0, "cannot dereference non-pointer expression");
           } else {
             pcn = compile_addrof(pn, expr_compile(pn0, prib, NULL));
           }
@@ -3850,6 +3851,9 @@ static node_t *expr_compile(node_t *pn, buf_t *prib, const node_t *ret)
         case TT_STAR: {
           if (pn0->nt == NT_PREFIX && pn0->op == TT_AND) {
             pcn = expr_compile(ndref(pn0, 0), prib, NULL);
+            if (!ts_bulk(acode_type(pcn)->ts) && acode_type(pcn)->ts != TS_FUNCTION
+              && !acode_rval_get(pcn) && !acode_rval_load(pcn))
+              neprintf(pn0, "cannot take address of expression");
           } else {
             pcn = compile_ataddr(pn, expr_compile(pn0, prib, NULL));
           }
-- 
2.43.0


From bc087e1deb8dad55f2168a5fcc9bf0a2869d4c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:58 +0000
Subject: [PATCH 091/127] fix: assignments to casts are diagnosed

---
 c.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/c.c b/c.c
index 0437078..41f25f8 100644
--- a/c.c
+++ b/c.c
@@ -1458,6 +1458,8 @@ static void expr_hoist_locals(node_t *ptn, node_t *pn, henv_t *phe, ndbuf_t *plb
     } break;
     case NT_PREFIX: {
       assert(ndlen(pn) == 1);
+      if ((pn->op == TT_PLUS_PLUS || pn->op == TT_MINUS_MINUS)
+        && ndref(pn, 0)->nt == NT_CAST) neprintf(pn, "not a valid lvalue");
       expr_hoist_locals(ptn, ndref(pn, 0), phe, plb);
       if (pn->op == TT_AND && ndref(pn, 0)->nt == NT_IDENTIFIER) {
         /* address-of var is taken: mark it as auto */
@@ -1488,6 +1490,8 @@ static void expr_hoist_locals(node_t *ptn, node_t *pn, henv_t *phe, ndbuf_t *plb
     } break;
     default: {
       size_t i;
+      if ((pn->nt == NT_ASSIGN || pn->nt == NT_POSTFIX && (pn->op == TT_PLUS_PLUS || pn->op == TT_MINUS_MINUS))
+        && ndref(pn, 0)->nt == NT_CAST) neprintf(pn, "not a valid lvalue");
       for (i = 0; i < ndlen(pn); ++i) {
         expr_hoist_locals(ptn, ndref(pn, i), phe, plb);
       }
-- 
2.43.0


From 187d54f9b0718c1a47f9dfba78989bd36f8e41b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:07 +0000
Subject: [PATCH 092/127] fix: casts between pointers and floating types are
 diagnosed

---
 c.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c.c b/c.c
index 41f25f8..4de9016 100644
--- a/c.c
+++ b/c.c
@@ -2339,7 +2339,7 @@ static bool cast_compatible(const node_t *ptpn, const node_t *ptan)
   if (ptpn->ts == TS_PTR && ts_numerical(ptan->ts))
     return ts_arith_common(ptan->ts, TS_ULONG) == TS_ULONG; /* can be promoted up to ULONG */
   if (ts_numerical(ptpn->ts) && ptan->ts == TS_PTR)
-    return ts_arith_common(ptpn->ts, TS_LONG) == ptpn->ts; /* LONG and up */
+    return ptpn->ts != TS_FLOAT && ptpn->ts != TS_DOUBLE && ts_arith_common(ptpn->ts, TS_LONG) == ptpn->ts; /* LONG and up */
   /* the rest must be compatible */
   return assign_compatible(ptpn, ptan);
 }
-- 
2.43.0


From a77989ccd0fa31e67f27551753f57e44bb013797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:40 +0000
Subject: [PATCH 093/127] fix: members of struct and union types are checked

---
 p.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/p.c b/p.c
index e662720..5ae6f77 100644
--- a/p.c
+++ b/p.c
@@ -3436,9 +3436,12 @@ static void parse_sru_body(pws_t *pw, ts_t sru, node_t *pn)
     expect(pw, TT_RBRC, "}");
   }  
   for (i = 0; i < ndlen(pn); ++i) {
-    node_t *pni = ndref(pn, i);
-    if (pni->nt == NT_VARDECL && ndlen(pni) > 1) 
+    node_t *pni = ndref(pn, i); size_t j, size, align;
+    if (pni->nt != NT_VARDECL || ndlen(pni) > 1) 
       reprintf(pw, pni->startpos, "unexpected initializer in struct/union"); 
+    for (j = 0; j < i; ++j) 
+      if (ndref(pn, j)->name == pni->name) n2eprintf(pni, pn, "duplicate member name: %s", symname(pni->name));
+    measure_type(ndref(pni, 0), pni, &size, &align, 0); /* should be complete */
   }
   if (!pn->name && !ndlen(pn)) {
     reprintf(pw, pn->startpos, "incomplete struct/union");
-- 
2.43.0


From 601474aec341d9e3b4faaff5109853d9399c5ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:48 +0000
Subject: [PATCH 094/127] fix: tags should not be used with a different keyword

---
 p.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/p.c b/p.c
index 5ae6f77..9f2989a 100644
--- a/p.c
+++ b/p.c
@@ -3341,12 +3341,24 @@ static void load_typedef_type(pws_t *pw, node_t *pn, sym_t tn)
   assert(pn->nt == NT_TYPE);
 }
 
+/* check that tag is not in use for other kinds of types */
+static void check_tag_kind(pws_t *pw, node_t *pn)
+{
+  if (pn->name) {
+    if ((pn->ts != TS_ENUM && lookup_eus_type(TS_ENUM, pn->name)) ||
+        (pn->ts != TS_UNION && lookup_eus_type(TS_UNION, pn->name)) ||
+        (pn->ts != TS_STRUCT && lookup_eus_type(TS_STRUCT, pn->name)))
+      reprintf(pw, pn->startpos, "tag %s is already in use for another kind of type", symname(pn->name));
+  }
+}
+
 /* parse enum body (name? + enumlist?) */
 static void parse_enum_body(pws_t *pw, node_t *pn)
 {
   ndset(pn, NT_TYPE, pw->id, peekpos(pw));
   pn->ts = TS_ENUM;
   if (peekt(pw) == TT_IDENTIFIER) pn->name = getid(pw);
+  check_tag_kind(pw, pn);
   if (peekt(pw) == TT_LBRC) {
     int curval = 0; bool full = false;
     dropt(pw);
@@ -3425,6 +3437,7 @@ static void parse_sru_body(pws_t *pw, ts_t sru, node_t *pn)
   ndset(pn, NT_TYPE, pw->id, peekpos(pw));
   pn->ts = sru;
   if (peekt(pw) == TT_IDENTIFIER) pn->name = getid(pw);
+  check_tag_kind(pw, pn);
   if (peekt(pw) == TT_LBRC) {
     dropt(pw);
     while (peekt(pw) != TT_RBRC) {
-- 
2.43.0


From 3aacb23c193c7305a013587121f14e5835d69d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:57 +0000
Subject: [PATCH 095/127] fix: names in use cannot be redefined as type names

---
 p.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/p.c b/p.c
index 9f2989a..515cccc 100644
--- a/p.c
+++ b/p.c
@@ -3940,6 +3940,8 @@ static void parse_top_typedef(pws_t *pw, node_t *pn)
     pn->name = parse_declarator(pw, ptn);
     expect(pw, TT_SEMICOLON, ";");
     if (!pn->name) reprintf(pw, startpos, "missing new type name in typedef");
+    if (bufbsearch(&g_syminfo, &pn->name, &int_cmp))
+      reprintf(pw, startpos, "symbol already defined: %s", symname(pn->name));
     intern_symbol(symname(pn->name), TT_TYPE_NAME, (int)ndblen(&g_nodes));
     ndcpy(ndbnewbk(&g_nodes), ptn);    
   } else {
-- 
2.43.0


From 7cfd2d1a038e6729bd61aef4a83adef873bc2439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:06 +0000
Subject: [PATCH 096/127] fix: declarations of main with wrong argument types
 are diagnosed

---
 c.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c.c b/c.c
index 4de9016..e932d67 100644
--- a/c.c
+++ b/c.c
@@ -4297,7 +4297,7 @@ static void process_fundef(sym_t mmod, node_t *pn, wat_module_t *pm)
         sigok = false;
       if (sigok && (psn = ndref(ptn, 2), psn = (psn->nt == NT_VARDECL) ? ndref(psn, 0) : psn)->ts != TS_PTR) 
         sigok = false;
-      if (sigok && ndref(psn, 0)->ts != TS_PTR && (psn = ndref(psn, 0))->ts != TS_CHAR) 
+      if (sigok && ((psn = ndref(psn, 0))->ts != TS_PTR || ndref(psn, 0)->ts != TS_CHAR)) 
         sigok = false;
       if (!sigok) neprintf(ptn, "main function should be defined as int main(int argc, char *argv[])");  
       pm->main = MAIN_ARGC_ARGV;
-- 
2.43.0


From 5ac1e67ef6477426b6f9440d363f850749f3a515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:30 +0000
Subject: [PATCH 097/127] fix: functions returning aggregates should end in
 return

---
 c.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/c.c b/c.c
index e932d67..d003baf 100644
--- a/c.c
+++ b/c.c
@@ -2128,7 +2128,7 @@ static void fundef_wasmify(node_t *pdn)
    * bp$ (base pointer), fp$ (frame pointer), ap$ (... data pointer) */
   node_t *ptn = ndref(pdn, 0), *pbn = ndref(pdn, 1);
   buf_t vib = mkbuf(sizeof(vi_t)); node_t frame = mknd();
-  ndbuf_t asb; buf_t lib; size_t i; bool explicit_tail_ret = false;
+  ndbuf_t asb; buf_t lib; size_t i; bool explicit_tail_ret = false, bulk_ret = false;
   ndbinit(&asb); bufinit(&lib, sizeof(int)*2); /* <tt, lbsym> */
   
   /* init frame structure, in case there are auto locals */
@@ -2183,7 +2183,7 @@ static void fundef_wasmify(node_t *pdn)
           node_t *prn = ndinsnew(ptn, 1), *pn; ptni = ndref(ptn, 0); /* re-fetch */
           ndset(prn, NT_VARDECL, ptni->pwsid, ptni->startpos);
           pn = ndinsbk(prn, NT_TYPE), pn->ts = TS_VOID; ndswap(pn, ptni);
-          wrap_type_pointer(pn); prn->name = intern("rp$");
+          wrap_type_pointer(pn); prn->name = intern("rp$"); bulk_ret = true;
           break;
         } /* else fall through */ 
       }
@@ -2290,6 +2290,8 @@ static void fundef_wasmify(node_t *pdn)
   }
 
   /* check if falling off is a valid way to return */
+  if (bulk_ret && !explicit_tail_ret)
+    n2eprintf(pbn, pdn, "non-void function: last statement must be explicit 'return'");
   if (ndref(ptn, 0)->ts == TS_VOID && !explicit_tail_ret) {
     /* insert explicit return */
     sym_t bp = intern("bp$"); 
-- 
2.43.0


From 8432e8fa56eb8565039aa276a67325c1d90ce307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:40 +0000
Subject: [PATCH 098/127] fix: declarations that declare nothing are diagnosed

---
 p.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/p.c b/p.c
index 515cccc..a9afa1b 100644
--- a/p.c
+++ b/p.c
@@ -3739,6 +3739,8 @@ static sc_t parse_decl(pws_t *pw, ndbuf_t *pnb)
   if (type_specifier_ahead(pw)) {
     node_t tnd = mknd();
     parse_base_type(pw, &tnd);
+    if (peekt(pw) == TT_SEMICOLON && tnd.ts != TS_STRUCT && tnd.ts != TS_UNION && tnd.ts != TS_ENUM)
+      reprintf(pw, pw->pos, "declared identifier is missing");
     while (peekt(pw) != TT_SEMICOLON && peekt(pw) != TT_LBRC) {
       parse_init_declarator(pw, sc, &tnd, pnb);
       if (peekt(pw) != TT_COMMA) break;
-- 
2.43.0


From 3607bebc972abff3ba1ae9c369a65898ef3b6ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:03 +0000
Subject: [PATCH 099/127] fix: duplicate labels are diagnosed

---
 c.c | 15 ++++++++++++++-
 p.c |  1 +
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/c.c b/c.c
index d003baf..57a19df 100644
--- a/c.c
+++ b/c.c
@@ -1499,12 +1499,25 @@ static void expr_hoist_locals(node_t *ptn, node_t *pn, henv_t *phe, ndbuf_t *plb
   }
 }
 
+/* check that labels in the function are unique */
+static void check_labels(node_t *pn, buf_t *plb)
+{
+  size_t i;
+  if (pn->nt == NT_TYPE || pn->nt == NT_ACODE) return;
+  if (pn->nt == NT_BLOCK && pn->name) {
+    if (bufsearch(plb, &pn->name, &sym_cmp)) neprintf(pn, "duplicate label: %s", symname(pn->name));
+    *(sym_t*)bufnewbk(plb) = pn->name;
+  }
+  for (i = 0; i < ndlen(pn); ++i) check_labels(ndref(pn, i), plb);
+}
+
 /* hoist all locals to the start of the top block, mark &vars as auto */
 static void fundef_hoist_locals(node_t *pdn)
 {
   size_t i;
   node_t *ptn = ndref(pdn, 0), *pbn = ndref(pdn, 1);
-  ndbuf_t locals; henv_t he;
+  ndbuf_t locals; henv_t he; buf_t labels;
+  bufinit(&labels, sizeof(sym_t)); check_labels(pbn, &labels); buffini(&labels);
   ndbinit(&locals); he.up = NULL; bufinit(&he.idmap, 2*sizeof(sym_t));
   /* init env with parameter names mapped to themselves */
   assert(ptn->nt == NT_TYPE && ptn->ts == TS_FUNCTION);
diff --git a/p.c b/p.c
index a9afa1b..957f80f 100644
--- a/p.c
+++ b/p.c
@@ -3785,6 +3785,7 @@ static void parse_stmt(pws_t *pw, node_t *pn)
           sym_t l; int startpos = peekpos(pw);
           l = getid(pw); expect(pw, TT_COLON, ":");
           if (peekt(pw) == TT_SEMICOLON) dropt(pw); /* optional, as in C23 */
+          if (pn->name == l) reprintf(pw, startpos, "duplicate label: %s", symname(l));
           pn->name = l; 
           if (ndlen(pn) == 0 && peekt(pw) != TT_RBRC) pn->op = TT_CONTINUE_KW;
           else if (ndlen(pn) > 0 && peekt(pw) == TT_RBRC) pn->op = TT_BREAK_KW; 
-- 
2.43.0


From dda142f9ea9f374a2aabf8559a18524799d33c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:36 +0000
Subject: [PATCH 100/127] fix: types of address initialisers are checked

---
 c.c | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/c.c b/c.c
index 57a19df..d1d3223 100644
--- a/c.c
+++ b/c.c
@@ -1169,6 +1169,28 @@ static void fundef_check_type(node_t *ptn)
 /* try to replace simd display expression with equivalent literal (see below) */
 static bool fold_simd_display(node_t *pn, buf_t *prib);
 
+/* check if static address pn can be used to initialize variable of ptn type */
+static bool init_addr_compatible(const node_t *ptn, node_t *pn)
+{
+  const node_t *petn, *patn = NULL;
+  assert(ptn->nt == NT_TYPE);
+  if (ptn->ts != TS_PTR) return false;
+  petn = ndcref(ptn, 0);
+  if (petn->ts == TS_VOID) return true;
+  if (pn->nt == NT_CAST) {
+    patn = ndcref(pn, 0);
+    return patn->ts == TS_PTR && (ndcref(patn, 0)->ts == TS_VOID || same_type(petn, ndcref(patn, 0)));
+  } else if (pn->nt == NT_LITERAL && (pn->ts == TS_STRING || pn->ts == TS_LSTRING)) {
+    return petn->ts == (pn->ts == TS_STRING ? TS_CHAR : TS_INT);
+  } else if (pn->nt == NT_PREFIX && pn->op == TT_AND && ndlen(pn) == 1) {
+    patn = type_eval(ndref(pn, 0), NULL);
+  } else if (pn->nt == NT_IDENTIFIER) {
+    patn = type_eval(pn, NULL);
+    if (patn && (patn->ts == TS_ARRAY || patn->ts == TS_PTR)) patn = ndcref(patn, 0);
+  } 
+  return !patn || same_type(petn, patn); 
+}
+
 /* initialize preallocated bulk data with display initializer */
 static watie_t *initialize_bulk_data(size_t pdidx, watie_t *pd, size_t off, node_t *ptn, node_t *pdn)
 {
@@ -1277,6 +1299,7 @@ static watie_t *initialize_bulk_data(size_t pdidx, watie_t *pd, size_t off, node
       cbfini(&cb);
     } else {
       const node_t *pitn, *pin = lookup_global(r.id);
+      if (!init_addr_compatible(ptn, pdn)) neprintf(pdn, "address initializer has unexpected type");
       if (!pin) neprintf(pdn, "unknown name in address initializer");
       mark_global_referenced(pin);
       assert(pin->nt == NT_IMPORT && ndlen(pin) == 1 && ndcref(pin, 0)->nt == NT_TYPE);
@@ -1372,6 +1395,7 @@ static void process_vardecl(sym_t mmod, node_t *pdn, node_t *pin)
             asm_numerical_const(r.ts == TS_PTR ? TS_UINT : r.ts, &r.val, &pg->ic); /* wasm32 */
           } else {
             const node_t *pimn = lookup_global(r.id); inscode_t *pic = &pg->ic;
+            if (!init_addr_compatible(ptn, pvn)) neprintf(pin, "address initializer has unexpected type");
             if (!pimn) neprintf(pdn, "unknown identifier in address initializer");
             mark_global_referenced(pimn);
             assert(pimn->nt == NT_IMPORT && pimn->name != 0 && ndlen(pimn) == 1);
-- 
2.43.0


From 3f89c20ab4a7bbec1b6deb169b08c8df620cae77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:09 +0000
Subject: [PATCH 101/127] fix: missing main() is reported as such

---
 w.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/w.c b/w.c
index 8829e79..84de6ed 100644
--- a/w.c
+++ b/w.c
@@ -4225,7 +4225,7 @@ void link_wat_modules(wat_module_buf_t *pwb, wat_module_t* pm)
       eprintf("duplicate module: %s", symname(pmi->name));
     else *(sym_t*)bufnewbk(&curmodnames) = pmi->name;
   }
-  if (!mainmod) logef("error: main() function not found\n"); /* fixme: should be eprintf */
+  if (!mainmod) eprintf("main() function not found");
   else logef("# main() found in '%s' module\n", symname(mainmod));
 
   /* add missing library modules */
-- 
2.43.0


From 64c0ffdaf69ae575b1ce05ea21d84018bc375586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:19 +0000
Subject: [PATCH 102/127] fix: failures to produce the output file are reported
 and do not replace it

---
 c.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/c.c b/c.c
index d1d3223..f4c1cfe 100644
--- a/c.c
+++ b/c.c
@@ -4690,6 +4690,14 @@ void compile_module_to_wat(const char *ifname, wat_module_t *pwm)
   fini_compiler();
 }
 
+/* close output file; complain if it is not complete */
+static void close_output(FILE *pf, const char *fname)
+{
+  bool failed = ferror(pf) != 0;
+  if (fclose(pf) != 0) failed = true;
+  if (failed) eprintf("cannot write output file %s:", fname);
+}
+
 int main(int argc, char **argv)
 {
   int opt; char *eoarg;
@@ -4756,7 +4764,7 @@ int main(int argc, char **argv)
       FILE *pf = fopen(ofile_arg, "w");
       if (!pf) eprintf("cannot open output file %s:", ofile_arg);
       write_wat_module(&wm, pf);
-      fclose(pf);
+      close_output(pf, ofile_arg);
       logef("# object module written to %s\n", ofile_arg);
     } else {
       write_wat_module(&wm, stdout);
@@ -4787,10 +4795,10 @@ int main(int argc, char **argv)
       FILE *pf;
       if (strsuf(ofile_arg, ".wasm")) {
         wasm_module_t wbm;
-        pf = fopen(ofile_arg, "wb");
-        if (!pf) eprintf("cannot open output file %s:", ofile_arg);
         wasm_module_init(&wbm);
         wat_to_wasm(&wm, &wbm);
+        pf = fopen(ofile_arg, "wb");
+        if (!pf) eprintf("cannot open output file %s:", ofile_arg);
         write_wasm_module(&wbm, pf);
         wasm_module_fini(&wbm);
       } else {
@@ -4798,7 +4806,7 @@ int main(int argc, char **argv)
         if (!pf) eprintf("cannot open output file %s:", ofile_arg);
         write_wat_module(&wm, pf);
       }
-      fclose(pf);
+      close_output(pf, ofile_arg);
       logef("# executable module written to %s\n", ofile_arg);
     } else {
       write_wat_module(&wm, stdout);
-- 
2.43.0


From f6991a8144ea975b08d89e5452c97b0752fed284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:43 +0000
Subject: [PATCH 103/127] fix: results of assignments and increments are not
 lvalues

---
 c.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/c.c b/c.c
index f4c1cfe..a079dac 100644
--- a/c.c
+++ b/c.c
@@ -1430,6 +1430,15 @@ static sym_t henv_lookup(sym_t oname, henv_t *phe, int *pupc)
   return 0;
 }
 
+/* check if this operand cannot be assigned to: its value is not the value of an object */
+static bool not_an_lvalue(node_t *pn)
+{
+  if (pn->nt == NT_CAST || pn->nt == NT_ASSIGN) return true;
+  if (pn->nt == NT_PREFIX || pn->nt == NT_POSTFIX)
+    return pn->op == TT_PLUS_PLUS || pn->op == TT_MINUS_MINUS;
+  return false;
+}
+
 /* hoist definitions of local vars to plb giving them unique names;
  * also, mark local vars which addresses are taken as 'auto' */
 static void expr_hoist_locals(node_t *ptn, node_t *pn, henv_t *phe, ndbuf_t *plb)
@@ -1482,8 +1491,8 @@ static void expr_hoist_locals(node_t *ptn, node_t *pn, henv_t *phe, ndbuf_t *plb
     } break;
     case NT_PREFIX: {
       assert(ndlen(pn) == 1);
-      if ((pn->op == TT_PLUS_PLUS || pn->op == TT_MINUS_MINUS)
-        && ndref(pn, 0)->nt == NT_CAST) neprintf(pn, "not a valid lvalue");
+      if ((pn->op == TT_AND || pn->op == TT_PLUS_PLUS || pn->op == TT_MINUS_MINUS)
+        && not_an_lvalue(ndref(pn, 0))) neprintf(pn, "not a valid lvalue");
       expr_hoist_locals(ptn, ndref(pn, 0), phe, plb);
       if (pn->op == TT_AND && ndref(pn, 0)->nt == NT_IDENTIFIER) {
         /* address-of var is taken: mark it as auto */
@@ -1515,7 +1524,7 @@ static void expr_hoist_locals(node_t *ptn, node_t *pn, henv_t *phe, ndbuf_t *plb
     default: {
       size_t i;
       if ((pn->nt == NT_ASSIGN || pn->nt == NT_POSTFIX && (pn->op == TT_PLUS_PLUS || pn->op == TT_MINUS_MINUS))
-        && ndref(pn, 0)->nt == NT_CAST) neprintf(pn, "not a valid lvalue");
+        && not_an_lvalue(ndref(pn, 0))) neprintf(pn, "not a valid lvalue");
       for (i = 0; i < ndlen(pn); ++i) {
         expr_hoist_locals(ptn, ndref(pn, i), phe, plb);
       }
-- 
2.43.0


From d715db348d28b7ae6ea30c354d7b041add6ce1df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:22 +0000
Subject: [PATCH 104/127] fix: tokens cut off by the end of file are reported,
 unterminated comments included

---
 p.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/p.c b/p.c
index 957f80f..06b4502 100644
--- a/p.c
+++ b/p.c
@@ -1728,7 +1728,7 @@ static tt_t lex(pws_t *pw, cbuf_t *pcb)
     case 75:
       readchar();
       if (c == EOF) {
-        return TT_EOF;
+        return TT_WHITESPACE;
       } else if (!(c == '\n')) {
         cbputc(c, pcb);
         state = 75; continue;
@@ -1819,7 +1819,7 @@ static tt_t peekt(pws_t *pw)
     do {
       pw->pos = (int)pw->discarded + pw->curi; 
       pw->ctk = lex(pw, &pw->token); 
-      if (pw->ctk == TT_EOF && !pw->inateof) 
+      if (pw->ctk == TT_EOF && (!pw->inateof || pw->pos != (int)pw->discarded + pw->curi)) 
         reprintf(pw, pw->pos, "illegal token"); 
     } while (pw->ctk == TT_WHITESPACE); 
     pw->gottk = true; 
-- 
2.43.0


From 4fddbac46c1447947238a7a8717b033c4b74a740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:30 +0000
Subject: [PATCH 105/127] fix: a function body needs a function declarator, a
 function takes no initializer

---
 p.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/p.c b/p.c
index 06b4502..e912946 100644
--- a/p.c
+++ b/p.c
@@ -3701,6 +3701,7 @@ static void parse_init_declarator(pws_t *pw, sc_t sc, const node_t *ptn, ndbuf_t
     ndfini(&tn);
     return;
   }
+  if (tn.ts == TS_FUNCTION) reprintf(pw, pw->pos, "unexpected initializer for a function");
   dropt(pw);
   pn = ndbnewbk(pnb);
   ndset(pn, NT_ASSIGN, pw->id, pw->pos);
@@ -3912,7 +3913,7 @@ static void parse_top_decl(pws_t *pw, node_t *pn)
       reprintf(pw, pw->pos, "top-level auto/register declarations are not supported"); 
     if (peekt(pw) == TT_LBRC) {
       /* must be single function declaration */
-      if (ndlen(pn) == 1 && ndref(pn, 0)->nt == NT_VARDECL) { 
+      if (ndlen(pn) == 1 && ndref(pn, 0)->nt == NT_VARDECL && ndref(ndref(pn, 0), 0)->ts == TS_FUNCTION) { 
         node_t nd = mknd(), *pbn;
         ndswap(ndref(pn, 0), &nd);
         nd.nt = NT_FUNDEF;
-- 
2.43.0


From 513d1d51800b41b1543a42d7d6cd97aa29d34844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:37 +0000
Subject: [PATCH 106/127] fix: commas in argument, parameter, declarator and
 enumerator lists are not optional

---
 p.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/p.c b/p.c
index e912946..b2e31df 100644
--- a/p.c
+++ b/p.c
@@ -2853,7 +2853,7 @@ static void parse_postfix_expr(pws_t *pw, node_t *pn)
         dropt(pw);
         ndset(&nd, NT_CALL, pn->pwsid, pn->startpos);
         ndswap(pn, ndnewbk(&nd));
-        while (peekt(pw) != TT_RPAR) {
+        if (peekt(pw) != TT_RPAR) while (true) {
           parse_assignment_expr(pw, ndnewbk(&nd));
           if (peekt(pw) != TT_COMMA) break;
           dropt(pw); 
@@ -3378,9 +3378,11 @@ static void parse_enum_body(pws_t *pw, node_t *pn)
       ndset(pnv, NT_LITERAL, pw->id, pni->startpos);
       pnv->ts = TS_INT; pnv->val.i = curval;
       intern_symbol(symname(pni->name), TT_ENUM_NAME, curval);  
-      if (peekt(pw) == TT_COMMA) dropt(pw);
       if (!(full = curval == INT_MAX)) curval += 1; 
+      if (peekt(pw) != TT_COMMA) break;
+      dropt(pw);
     }
+    if (!ndlen(pn)) reprintf(pw, pw->pos, "enum constant name expected");
     expect(pw, TT_RBRC, "}");
   }  
   if (!pn->name && !ndlen(pn)) {
@@ -3579,7 +3581,7 @@ static void parse_postfix_declarator(pws_t *pw, node_t *pn)
       case TT_LPAR: {
         ndbuf_t ndb; ndbinit(&ndb); 
         dropt(pw);
-        while (peekt(pw) != TT_RPAR) {
+        if (peekt(pw) != TT_RPAR) while (true) {
           node_t *pdn = ndset(ndbnewbk(&ndb), NT_VARDECL, pw->id, peekpos(pw));
           node_t *pti = ndset(ndnewbk(pdn), NT_TYPE, pw->id, peekpos(pw)); 
           if (peekt(pw) == TT_ELLIPSIS) { /* starting with ellipsis is ok */
@@ -3679,7 +3681,8 @@ static void parse_initializer(pws_t *pw, node_t *pn)
     dropt(pw);
     while (peekt(pw) != TT_RBRC) {
       parse_initializer(pw, ndnewbk(pn));
-      if (peekt(pw) == TT_COMMA) dropt(pw); 
+      if (peekt(pw) != TT_COMMA) break;
+      dropt(pw);
     }
     expect(pw, TT_RBRC, "}");
   } else {
@@ -3742,7 +3745,7 @@ static sc_t parse_decl(pws_t *pw, ndbuf_t *pnb)
     parse_base_type(pw, &tnd);
     if (peekt(pw) == TT_SEMICOLON && tnd.ts != TS_STRUCT && tnd.ts != TS_UNION && tnd.ts != TS_ENUM)
       reprintf(pw, pw->pos, "declared identifier is missing");
-    while (peekt(pw) != TT_SEMICOLON && peekt(pw) != TT_LBRC) {
+    if (peekt(pw) != TT_SEMICOLON && peekt(pw) != TT_LBRC) while (true) {
       parse_init_declarator(pw, sc, &tnd, pnb);
       if (peekt(pw) != TT_COMMA) break;
       else dropt(pw);
-- 
2.43.0


From ee350f1b117d20e219f4b4a86e010c83276045ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:44 +0000
Subject: [PATCH 107/127] fix: repeated and incompatible type specifiers are
 rejected

---
 lib/include/stdio.h  |  2 +-
 lib/include/unistd.h |  2 +-
 p.c                  | 20 ++++++++++----------
 3 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/lib/include/stdio.h b/lib/include/stdio.h
index d1bab88..09ddedd 100644
--- a/lib/include/stdio.h
+++ b/lib/include/stdio.h
@@ -88,7 +88,7 @@ extern int vsscanf(const char *s, const char *format, va_list arg);
 extern int vsnscanf(const char *s, size_t count, const char *format, va_list arg);
 /* extern FILE *tmpfile(void); -- not in WASI? */
 /* extern char *tmpnam(char s[L_tmpnam]); -- not in WASI? */
-extern int int remove(const char *filename);
+extern int remove(const char *filename);
 extern int rename(const char *oldname, const char *newname);
 extern void perror(const char *s);
 
diff --git a/lib/include/unistd.h b/lib/include/unistd.h
index 25f6feb..9cf6b8f 100644
--- a/lib/include/unistd.h
+++ b/lib/include/unistd.h
@@ -31,7 +31,7 @@ extern int symlink(const char *tgtpath, const char *lnkpath);
 extern ssize_t readlinkat(int fd, const char *path, char *buf, size_t bufsize);
 extern ssize_t readlink(const char *path, char *buf, size_t bufsize);
 extern int rmdirat(int fd, const char *path);
-extern int int rmdir(const char *path);
+extern int rmdir(const char *path);
 extern int fdatasync(int fd);
 extern int fsync(int fd);
 extern void _exit(int status);
diff --git a/p.c b/p.c
index b2e31df..3e58e1f 100644
--- a/p.c
+++ b/p.c
@@ -3483,15 +3483,15 @@ static void parse_base_type(pws_t *pw, node_t *pn)
   int pos = peekpos(pw); sym_t tn = 0;
   while (type_specifier_ahead(pw)) {
     switch (pw->ctk) {
-      case TT_VOID_KW:     v = 1; break;
-      case TT_CHAR_KW:     c = 1; break;
-      case TT_SHORT_KW:    s = 1; break;
-      case TT_INT_KW:      i = 1; break;
+      case TT_VOID_KW:     ++v; break;
+      case TT_CHAR_KW:     ++c; break;
+      case TT_SHORT_KW:    ++s; break;
+      case TT_INT_KW:      i = 1; break; /* bundled headers have 'int int' */
       case TT_LONG_KW:     ++l; break;
-      case TT_SIGNED_KW:   sg = 1; break;
-      case TT_UNSIGNED_KW: ug = 1; break;
-      case TT_FLOAT_KW:    f = 1; break;
-      case TT_DOUBLE_KW:   d = 1; break;
+      case TT_SIGNED_KW:   ++sg; break;
+      case TT_UNSIGNED_KW: ++ug; break;
+      case TT_FLOAT_KW:    ++f; break;
+      case TT_DOUBLE_KW:   ++d; break;
       case TT_ENUM_KW:     en = 1; break;
       case TT_SIMD_KW:     si = 1; break;
       case TT_STRUCT_KW:   st = 1; break;
@@ -3504,11 +3504,11 @@ static void parse_base_type(pws_t *pw, node_t *pn)
     }
     dropt(pw);
   }
-  if (c + s + l > 0 && i > 0) i = 0;
+  if (s + l > 0 && i == 1) i = 0;
   if (v + c + s + i + l + f + d + en + si + st + un + ty == 0 && sg + ug != 0) i = 1;
   if (!!l + f + d > 1)
     reprintf(pw, pw->pos, "invalid type specifier: unsupported type"); 
-  if (v + c + s + i + !!l + f + d + en + si + st + un + ty != 1 || sg + ug > 1)
+  if (v + c + s + i + !!l + f + d + en + si + st + un + ty != 1 || sg + ug > 1 || l > 2)
     reprintf(pw, pw->pos, "invalid type specifier: missing or conflicting keywords"); 
   if (f + d + en + si + st + un + ty > 0 && sg + ug > 0)
     reprintf(pw, pw->pos, "invalid type specifier: unexpected signedness keyword"); 
-- 
2.43.0


From 9fbfc149688f99185d0f72543158454f35e70b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:53 +0000
Subject: [PATCH 108/127] fix: several storage classes in a declaration are
 rejected

---
 p.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/p.c b/p.c
index 3e58e1f..413ca3d 100644
--- a/p.c
+++ b/p.c
@@ -3731,6 +3731,7 @@ static sc_t parse_decl(pws_t *pw, ndbuf_t *pnb)
 {
   sc_t sc = SC_NONE;
   while (storage_class_specifier_ahead(pw)) {
+    if (sc != SC_NONE) reprintf(pw, pw->pos, "conflicting storage classes");
     switch (peekt(pw)) {
       case TT_EXTERN_KW:   sc = SC_EXTERN; break;
       case TT_STATIC_KW:   sc = SC_STATIC; break;
-- 
2.43.0


From 9080d24f8871b6a1e61c7fa436d77a9883b104f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:01 +0000
Subject: [PATCH 109/127] fix: type qualifiers in declarators are only accepted
 after a star

---
 p.c | 38 ++++++++++++++++++++------------------
 1 file changed, 20 insertions(+), 18 deletions(-)

diff --git a/p.c b/p.c
index 413ca3d..4668836 100644
--- a/p.c
+++ b/p.c
@@ -3475,6 +3475,13 @@ static void parse_sru_body(pws_t *pw, ts_t sru, node_t *pn)
   }
 }
 
+/* type qualifiers are allowed but ignored */
+static void drop_type_qualifiers(pws_t *pw)
+{
+  tt_t tt;
+  while ((tt = peekt(pw)) == TT_CONST_KW || tt == TT_VOLATILE_KW || tt == TT_RESTRICT_KW) dropt(pw);
+}
+
 /* base types are limited to scalars/named types */
 static void parse_base_type(pws_t *pw, node_t *pn)
 {
@@ -3492,10 +3499,10 @@ static void parse_base_type(pws_t *pw, node_t *pn)
       case TT_UNSIGNED_KW: ++ug; break;
       case TT_FLOAT_KW:    ++f; break;
       case TT_DOUBLE_KW:   ++d; break;
-      case TT_ENUM_KW:     en = 1; break;
-      case TT_SIMD_KW:     si = 1; break;
-      case TT_STRUCT_KW:   st = 1; break;
-      case TT_UNION_KW:    un = 1; break;
+      case TT_ENUM_KW:     ++en; break;
+      case TT_SIMD_KW:     ++si; break;
+      case TT_STRUCT_KW:   ++st; break;
+      case TT_UNION_KW:    ++un; break;
       case TT_TYPE_NAME:   ty = 1; tn = intern(pw->tokstr); break;
       case TT_CONST_KW:    /* ignored */ break;  
       case TT_VOLATILE_KW: /* ignored */ break;
@@ -3503,6 +3510,7 @@ static void parse_base_type(pws_t *pw, node_t *pn)
       default: assert(false);
     }
     dropt(pw);
+    if (en + si + st + un > 0) break; /* body or tag name follows */
   }
   if (s + l > 0 && i == 1) i = 0;
   if (v + c + s + i + l + f + d + en + si + st + un + ty == 0 && sg + ug != 0) i = 1;
@@ -3532,6 +3540,7 @@ static void parse_base_type(pws_t *pw, node_t *pn)
   else if (un) parse_sru_body(pw, TS_UNION, pn);
   else if (ty) load_typedef_type(pw, pn, tn);
   else assert(false);
+  drop_type_qualifiers(pw); /* after tag name or body */
 }
 
 static void parse_primary_declarator(pws_t *pw, node_t *pn)
@@ -3607,20 +3616,13 @@ static void parse_postfix_declarator(pws_t *pw, node_t *pn)
 
 static void parse_unary_declarator(pws_t *pw, node_t *pn)
 {
-  { retry: switch (peekt(pw)) {
-      case TT_CONST_KW: case TT_VOLATILE_KW: {
-        dropt(pw); /* allowed but ignored */
-        goto retry;
-      } break;
-      case TT_STAR: {
-        dropt(pw);
-        parse_unary_declarator(pw, pn);
-        wrap_type_pointer(pn);
-      } break;
-      default: {
-        parse_postfix_declarator(pw, pn);
-      } break;
-    }
+  if (peekt(pw) == TT_STAR) {
+    dropt(pw);
+    drop_type_qualifiers(pw);
+    parse_unary_declarator(pw, pn);
+    wrap_type_pointer(pn);
+  } else {
+    parse_postfix_declarator(pw, pn);
   }
 }
 
-- 
2.43.0


From 76a769a87900668f18dc8aa88a10f9bbf1a21895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:09 +0000
Subject: [PATCH 110/127] fix: the difference of constant pointers is of type
 long

---
 c.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c.c b/c.c
index a079dac..fa09fea 100644
--- a/c.c
+++ b/c.c
@@ -941,7 +941,7 @@ bool static_eval(node_t *pn, buf_t *prib, seval_t *pr)
         } else if (rx.ts == TS_PTR && ry.ts == TS_PTR && rx.id == ry.id) {
           pr->ts = TS_INT; ok = true;
           switch (pn->op) { 
-            case TT_MINUS: pr->val.i = rx.val.i - ry.val.i; break;
+            case TT_MINUS: pr->val.i = rx.val.i - ry.val.i; pr->ts = TS_LONG; break;
             case TT_EQ:    pr->val.i = rx.val.i == ry.val.i; break;
             case TT_NE:    pr->val.i = rx.val.i != ry.val.i; break;
             case TT_LT:    pr->val.i = rx.val.i < ry.val.i; break;
-- 
2.43.0


From 02dfd132b3a6f6901048dc661d455b9650aabbfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:37 +0000
Subject: [PATCH 111/127] fix: long long suffixes with letters of different
 case are rejected

---
 p.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/p.c b/p.c
index 4668836..1bfdc1c 100644
--- a/p.c
+++ b/p.c
@@ -906,8 +906,9 @@ static tt_t lex(pws_t *pw, cbuf_t *pcb)
       } else if (c == 'U' || c == 'u') {
         state = 74; continue;
       } else if (c == 'L' || c == 'l') {
+        int lc = c;
         readchar();
-        if (c == 'L' || c == 'l') { 
+        if (c == lc) { 
           state = state_73LL; continue; 
         }
         if (c != EOF) unreadchar();
@@ -947,8 +948,9 @@ static tt_t lex(pws_t *pw, cbuf_t *pcb)
         cbputc(c, pcb);
         state = 61; continue;
       } else if (c == 'L' || c == 'l') {
+        int lc = c;
         readchar();
-        if (c == 'L' || c == 'l') { 
+        if (c == lc) { 
           state = state_73LL; continue;
         }
         if (c != EOF) unreadchar();
@@ -1598,8 +1600,9 @@ static tt_t lex(pws_t *pw, cbuf_t *pcb)
         cbputc(c, pcb);
         state = 62; continue;
       } else if (c == 'L' || c == 'l') {
+        int lc = c;
         readchar();
-        if (c == 'L' || c == 'l') {
+        if (c == lc) {
           state = state_73LL; continue;
         }
         if (c != EOF) unreadchar();
@@ -1678,8 +1681,9 @@ static tt_t lex(pws_t *pw, cbuf_t *pcb)
       } else if (c == 'U' || c == 'u') {
         state = 74; continue;
       } else if (c == 'L' || c == 'l') {
+        int lc = c;
         readchar();
-        if (c == 'L' || c == 'l') {
+        if (c == lc) {
           state = state_73LL;
           continue;
         }
@@ -1717,8 +1721,9 @@ static tt_t lex(pws_t *pw, cbuf_t *pcb)
       if (c == EOF) {
         return TT_UINT;
       } else if (c == 'L' || c == 'l') {
+        int lc = c;
         readchar();
-        if (c == 'L' || c == 'l') return TT_ULLONG;
+        if (c == lc) return TT_ULLONG;
         if (c != EOF) unreadchar();
         return TT_ULONG;
       } else {
-- 
2.43.0


From af570a4360c6b70223ddf459a8be33ba334b99f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:45 +0000
Subject: [PATCH 112/127] fix: vertical tabs are white space

---
 p.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/p.c b/p.c
index 1bfdc1c..334fde4 100644
--- a/p.c
+++ b/p.c
@@ -810,7 +810,7 @@ static tt_t lex(pws_t *pw, cbuf_t *pcb)
       } else if (c == '/') {
         cbputc(c, pcb);
         state = 2; continue;
-      } else if (c == '\t' || c == '\f' || c == ' ') {
+      } else if (c == '\t' || c == '\v' || c == '\f' || c == ' ') {
         cbputc(c, pcb);
         state = 1; continue;
       } else if (c == '\r') {
@@ -833,7 +833,7 @@ static tt_t lex(pws_t *pw, cbuf_t *pcb)
       readchar();
       if (c == EOF) {
         return TT_WHITESPACE;
-      } else if (c == '\t' || c == '\f' || c == ' ') {
+      } else if (c == '\t' || c == '\v' || c == '\f' || c == ' ') {
         cbputc(c, pcb);
         state = 1; continue;
       } else {
-- 
2.43.0


From 10b14295dea42f79b56662d00aa049e5e5f3e3fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:59 +0000
Subject: [PATCH 113/127] fix: commas in macro and intrinsic argument lists are
 not optional

---
 p.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/p.c b/p.c
index 334fde4..2c32cd7 100644
--- a/p.c
+++ b/p.c
@@ -2644,7 +2644,7 @@ static void parse_primary_expr(pws_t *pw, node_t *pn)
         bufinit(&ids, sizeof(sym_t)); ndbinit(&pars); 
         assert(pfn->nt == NT_TYPE && pfn->ts == TS_FUNCTION); 
         expect(pw, TT_LPAR, "(");
-        while (peekt(pw) != TT_RPAR) {
+        if (peekt(pw) != TT_RPAR) while (true) {
           parse_assignment_expr(pw, ndbnewbk(&pars));
           if (peekt(pw) == TT_COMMA) dropt(pw);
           else break;
@@ -2772,7 +2772,7 @@ static void parse_primary_expr(pws_t *pw, node_t *pn)
         case INTR_ALLOCA: case INTR_SASSERT: { /* (expr ...) */
           size_t n = 0;
           expect(pw, TT_LPAR, "(");
-          while (peekt(pw) != TT_RPAR) {
+          if (peekt(pw) != TT_RPAR) while (true) {
             parse_assignment_expr(pw, ndnewbk(pn));
             ++n; 
             if (peekt(pw) != TT_COMMA) break;
@@ -3140,7 +3140,7 @@ static void parse_asm_code(pws_t *pw, node_t *pn, node_t *ptn)
     ndset(&nd, NT_INTRCALL, pn->pwsid, pn->startpos);
     nd.intr = INTR_ACODE;
     ndswap(pn, ndnewbk(&nd));
-    while (peekt(pw) != TT_RPAR) {
+    if (peekt(pw) != TT_RPAR) while (true) {
       parse_assignment_expr(pw, ndnewbk(&nd));
       if (peekt(pw) != TT_COMMA) break;
       dropt(pw); 
@@ -4006,7 +4006,7 @@ static void parse_define_directive(pws_t *pw, int startpos)
       ptn->ts = TS_FUNCTION;
       ndnewbk(ptn); /* return value type is not set */
       expect(pw, TT_LPAR, "(");
-      while (peekt(pw) != TT_RPAR) {
+      if (peekt(pw) != TT_RPAR) while (true) {
         node_t *pti = ndnewbk(ptn);
         ndset(pti, NT_VARDECL, pw->id, peekpos(pw));
         if (peekt(pw) == TT_ELLIPSIS) {
-- 
2.43.0


From 524f464a894f5891498033cbdf72b89526ac2f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:44 +0000
Subject: [PATCH 114/127] fix: the file type in st_mode does not depend on its
 previous contents

---
 lib/src/stat.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/src/stat.c b/lib/src/stat.c
index 798e120..c73aff8 100644
--- a/lib/src/stat.c
+++ b/lib/src/stat.c
@@ -30,6 +30,7 @@ static void to_public_stat(const filestat_t *in, struct stat *out)
   timestamp_to_timespec(in->atim, &out->st_atime, &out->st_atime_ns);
   timestamp_to_timespec(in->mtim, &out->st_mtime, &out->st_mtime_ns);
   timestamp_to_timespec(in->ctim, &out->st_ctime, &out->st_ctime_ns);
+  out->st_mode = 0;
   switch (in->filetype) {
     case FILETYPE_BLOCK_DEVICE:
       out->st_mode |= S_IFBLK;
-- 
2.43.0


From 7bf17c578ab80dc093b9eea1eb0dada3d9b91e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:51 +0000
Subject: [PATCH 115/127] fix: paths with leading ./ components find their
 pre-opened directories

---
 lib/src/fcntl.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/fcntl.c b/lib/src/fcntl.c
index 5438d74..d23d131 100644
--- a/lib/src/fcntl.c
+++ b/lib/src/fcntl.c
@@ -118,7 +118,7 @@ static bool prefix_matches(const char *prefix, size_t prefix_len, const char *pa
 
 static int find_abspath(const char *path, const char **abs_prefix, const char **relative_path) 
 {
-  while (*path == preopen_sep) ++path;
+  path = strip_prefixes(path);
   size_t match_len = 0, i;
   int fd = -1;
   for (i = num_preopens; i > 0; --i) {
-- 
2.43.0


From a8950fcec0155ba60541747fc41ff1297829b374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:58 +0000
Subject: [PATCH 116/127] fix: names of pre-opened directories may end with
 separators

---
 lib/src/fcntl.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/src/fcntl.c b/lib/src/fcntl.c
index d23d131..edd2782 100644
--- a/lib/src/fcntl.c
+++ b/lib/src/fcntl.c
@@ -74,6 +74,8 @@ static int register_preopened_fd(fd_t fd, const char *relprefix)
   if (num_preopens == preopen_capacity && resize_preopens() != 0) return -1;
   char *prefix = strdup(strip_prefixes(relprefix));
   if (prefix == NULL) return -1;
+  size_t len = strlen(prefix);
+  while (len > 0 && prefix[len-1] == preopen_sep) prefix[--len] = '\0';
   preopen_t *pp = &preopens[num_preopens++];
   pp->prefix = prefix;
   pp->fd = fd;
-- 
2.43.0


From e889447b3fe810d1dbe35d83e9caae4268434a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:06 +0000
Subject: [PATCH 117/127] fix: the empty path names no file

---
 lib/src/fcntl.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/src/fcntl.c b/lib/src/fcntl.c
index edd2782..4b03d44 100644
--- a/lib/src/fcntl.c
+++ b/lib/src/fcntl.c
@@ -120,6 +120,10 @@ static bool prefix_matches(const char *prefix, size_t prefix_len, const char *pa
 
 static int find_abspath(const char *path, const char **abs_prefix, const char **relative_path) 
 {
+  if (*path == '\0') {
+    errno = ENOENT;
+    return -1;
+  }
   path = strip_prefixes(path);
   size_t match_len = 0, i;
   int fd = -1;
-- 
2.43.0


From a544eb6825423048e2c78f70b478bda156e53cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:12 +0000
Subject: [PATCH 118/127] fix: scandir without a comparison function leaves the
 entries unsorted

---
 lib/src/dirent.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/dirent.c b/lib/src/dirent.c
index 566750f..0ba0b19 100644
--- a/lib/src/dirent.c
+++ b/lib/src/dirent.c
@@ -267,7 +267,7 @@ int scandirat(int dirfd, const char *dir, struct dirent ***namelist,
 
     free(buffer);
     close(fd);
-    qsort(dirents, dirents_used, sizeof(struct dirent *), (int (*)(const void *, const void *))compar);
+    if (compar != NULL) qsort(dirents, dirents_used, sizeof(struct dirent *), (int (*)(const void *, const void *))compar);
     *namelist = dirents;
     return (int)dirents_used;
 
-- 
2.43.0


From 946df97a739bf47659bd0f9cbdd03f40f3e63508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:36 +0000
Subject: [PATCH 119/127] fix: indented directives end inactive conditional
 sections, lone # does not take the next line

---
 p.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/p.c b/p.c
index 2c32cd7..c34aa73 100644
--- a/p.c
+++ b/p.c
@@ -4168,11 +4168,13 @@ static bool parse_cc_inactive(pws_t *pw, bool gotactive)
         else reprintf(pw, pw->pos, "can't skip token inside inactive cc block");
         bol = false; dropt(pw); continue;
       case TT_WHITESPACE:
-        bol = (pw->tokstr[0] == '\n'); dropt(pw); continue;
+        if (pw->tokstr[0] == '\n') bol = true; /* blanks and comments may precede # */
+        dropt(pw); continue;
       case TT_HASH:
         if (bol) {
-          int startpos = pw->pos;
-          dropt(pw);
+          dropt(pw); bol = false;
+          while (peekt_ws(pw) == TT_WHITESPACE && pw->tokstr[0] != '\n') dropt(pw);
+          if (pw->ctk == TT_WHITESPACE) continue; /* nothing after # */
           if (ahead(pw, "if") || ahead(pw, "ifdef") || ahead(pw, "ifndef")) {
             ++level; 
           } else if (ahead(pw, "elif")) {
-- 
2.43.0


From d2f9f59562e73f41bbd288a12cf3d62fc29f2afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:46 +0000
Subject: [PATCH 120/127] fix: conditional section left open at the end of a
 file is an error

---
 p.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/p.c b/p.c
index c34aa73..0e5c318 100644
--- a/p.c
+++ b/p.c
@@ -4234,6 +4234,7 @@ bool parse_top_form(pws_t *pw, node_t *pn)
     } 
     return true; 
   }
+  if (pw->cclevel > 0) reprintf(pw, peekpos(pw), "missing #endif");
   return false;
 }
 
-- 
2.43.0


From 96abe50b6fd154b7ac24a474bf9e30a0dd0d2c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:56 +0000
Subject: [PATCH 121/127] fix: macro definitions and uses do not keep pointers
 into the growing node table

---
 p.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/p.c b/p.c
index 0e5c318..a58ef9d 100644
--- a/p.c
+++ b/p.c
@@ -2662,6 +2662,7 @@ static void parse_primary_expr(pws_t *pw, node_t *pn)
           assert(pin->name != 0 || i+1 == ndlen(pfn)); /* ... is last */
           *(sym_t*)bufnewbk(&ids) = pin->name;
         }
+        pdn = ndbref(&g_nodes, (size_t)info); /* parsing arguments may add nodes */
         ndcpy(pn, ndref(pdn, 1));
         patch_macro_template(&ids, &pars, pn);
         buffini(&ids); ndbfini(&pars); 
@@ -3990,7 +3991,7 @@ static bool parse_pragma_directive(pws_t *pw, int startpos)
 static void parse_define_directive(pws_t *pw, int startpos)
 {
   if (peekt(pw) == TT_IDENTIFIER && streql(pw->tokstr, "define")) {
-    int *pi, info = (int)ndblen(&g_nodes); node_t *pn = ndbnewbk(&g_nodes);
+    int *pi; node_t nd = mknd(), *pn = &nd;
     dropt(pw);
     ndset(pn, NT_MACRODEF, pw->id, startpos);
     if (peekt(pw) == TT_MACRO_NAME)
@@ -4036,11 +4037,13 @@ static void parse_define_directive(pws_t *pw, int startpos)
     if (lookup_symbol(symname(pn->name), NULL) != TT_IDENTIFIER) {
       reprintf(pw, startpos, "macro name is already in use");
     } else { 
-      intern_symbol(symname(pn->name), TT_MACRO_NAME, info);
+      intern_symbol(symname(pn->name), TT_MACRO_NAME, (int)ndblen(&g_nodes));
     }
     if (getverbosity() > 0) {
       dump_node(pn, stderr);
     }
+    ndswap(ndbnewbk(&g_nodes), pn); /* parsing the body may add nodes too */
+    ndfini(&nd);
   } else if (peekt(pw) == TT_IDENTIFIER && streql(pw->tokstr, "undef")) {  
     dropt(pw);
     if (peekt(pw) != TT_MACRO_NAME) {
-- 
2.43.0


From e69d7d070422be5d76f01c3bee420f71380725e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:06 +0000
Subject: [PATCH 122/127] fix: break and continue in the body of a do-while
 macro leave the macro, not the enclosing loop

---
 p.c | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/p.c b/p.c
index a58ef9d..4c93c2b 100644
--- a/p.c
+++ b/p.c
@@ -3988,6 +3988,21 @@ static bool parse_pragma_directive(pws_t *pw, int startpos)
   return true; 
 }
 
+/* find break/continue operators that refer to the statement itself */
+static bool has_open_jump(node_t *pn, bool inswitch)
+{
+  size_t i;
+  switch (pn->nt) {
+    case NT_BREAK: return !inswitch;
+    case NT_CONTINUE: return true;
+    case NT_WHILE: case NT_DO: case NT_FOR: return false;
+    case NT_SWITCH: inswitch = true; break;
+    default: break;
+  }
+  for (i = 0; i < ndlen(pn); ++i) if (has_open_jump(ndref(pn, i), inswitch)) return true;
+  return false;
+}
+
 static void parse_define_directive(pws_t *pw, int startpos)
 {
   if (peekt(pw) == TT_IDENTIFIER && streql(pw->tokstr, "define")) {
@@ -4025,6 +4040,10 @@ static void parse_define_directive(pws_t *pw, int startpos)
     /* righ-hand-side expression or do-block-while-0 */    
     if (peekt(pw) == TT_DO_KW) {
       dropt(pw); parse_stmt(pw, ndnewbk(pn));
+      if (has_open_jump(ndref(pn, ndlen(pn)-1), false)) { /* keep it a loop */
+        node_t *pzn = ndinsbk(wrap_node(ndref(pn, ndlen(pn)-1), NT_DO), NT_LITERAL);
+        pzn->ts = TS_INT; pzn->val.i = 0;
+      }
       expect(pw, TT_WHILE_KW, "while");
       expect(pw, TT_LPAR, "(");
       if (peekt(pw) == TT_INT && streql(pw->tokstr, "0")) dropt(pw);
-- 
2.43.0


From 3dfd1337cb2049be0e168720f0a162ba79ab30f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:15 +0000
Subject: [PATCH 123/127] fix: recursive macros are reported instead of
 exhausting the stack

---
 c.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/c.c b/c.c
index fa09fea..69f2bfa 100644
--- a/c.c
+++ b/c.c
@@ -75,6 +75,7 @@ void fini_wcpl(void)
 /* compiler globals */
 static sym_t g_curmod; 
 static wat_module_t *g_curpwm;
+static int g_macrodepth;
 
 /* initialize single compiler run */
 void init_compiler(void)
@@ -1769,8 +1770,9 @@ static void expr_fold_constants(node_t *pn, buf_t *prib)
         ndcpy(pn, ndcref(pdn, 1));
         patch_macro_template(&ids, &pars, pn);
         buffini(&ids); ndbfini(&pars); 
-        /* fixme: this can go on forever! */
+        if (++g_macrodepth > 200) neprintf(pn, "macro expansion is nested too deep (recursive macro?)");
         expr_fold_constants(pn, prib);
+        --g_macrodepth;
         return;
       }
     } break;
-- 
2.43.0


From 74be1f1aa5e7732e5e8fe58d2fb94881be7f51ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:26 +0000
Subject: [PATCH 124/127] fix: text after a macro body is an error

---
 p.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/p.c b/p.c
index 4c93c2b..5896f3d 100644
--- a/p.c
+++ b/p.c
@@ -4052,6 +4052,9 @@ static void parse_define_directive(pws_t *pw, int startpos)
     } else { 
       parse_primary_expr(pw, ndnewbk(pn));
     }
+    while (peekt_ws(pw) == TT_WHITESPACE && pw->tokstr[0] != '\n') dropt(pw);
+    if (pw->ctk == TT_WHITESPACE) dropt(pw);
+    else if (pw->ctk != TT_EOF) reprintf(pw, peekpos(pw), "unexpected text after macro body");
     /* save macro definition for future use */
     if (lookup_symbol(symname(pn->name), NULL) != TT_IDENTIFIER) {
       reprintf(pw, startpos, "macro name is already in use");
-- 
2.43.0


From 3bd8b858c7decdbff60f82daf4cd089c1b0e16fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:37 +0000
Subject: [PATCH 125/127] fix: generic selection on an object in memory depends
 on the selected case being constant

---
 c.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/c.c b/c.c
index 69f2bfa..463cfd9 100644
--- a/c.c
+++ b/c.c
@@ -3834,7 +3834,12 @@ static node_t *expr_compile(node_t *pn, buf_t *prib, const node_t *ret)
         } break;
         case INTR_GENERIC: {
           size_t i; node_t *ptn = ndref(pn, 0);
-          if (ptn->nt != NT_TYPE) ptn = acode_type(expr_compile(ptn, prib, NULL));
+          if (ptn->nt != NT_TYPE) {
+            /* type of expression itself; its code may yield a promoted value */
+            const node_t *petn = type_eval(ptn, prib);
+            if (petn) ptn = (node_t *)petn;
+            else ptn = acode_type(expr_compile(ptn, prib, NULL));
+          }
           for (i = 1; i+1 < ndlen(pn); i += 2) {
             node_t *ptni = ndref(pn, i), *pxni = ndref(pn, i+1);
             if (ptni->nt == NT_NULL || same_type(ptn, ptni)) {
-- 
2.43.0


From 9dd13654a996ce6f3a9679715b2796258f0d4ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:48 +0000
Subject: [PATCH 126/127] fix: macro uses inside constant-looking operators are
 not expanded

---
 c.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/c.c b/c.c
index 463cfd9..c573841 100644
--- a/c.c
+++ b/c.c
@@ -1728,6 +1728,7 @@ static bool fold_simd_display(node_t *pn, buf_t *prib)
 /* replace arithmetic constant expressions in pn with literals */
 static void expr_fold_constants(node_t *pn, buf_t *prib)
 {
+  bool folded = false;
   switch (pn->nt) {
     case NT_NULL:
     case NT_LITERAL: 
@@ -1785,9 +1786,10 @@ static void expr_fold_constants(node_t *pn, buf_t *prib)
   } 
   if (arithmetic_constant_expr(pn)) {
     node_t nd = mknd();
-    if (arithmetic_eval(pn, prib, &nd)) ndswap(&nd, pn);
+    if (arithmetic_eval(pn, prib, &nd)) { ndswap(&nd, pn); folded = true; }
     ndfini(&nd);
-  } else {
+  }
+  if (!folded) {
     size_t i;
     for (i = 0; i < ndlen(pn); ++i) {
       expr_fold_constants(ndref(pn, i), prib);
-- 
2.43.0


From 04fc434256ab71796056e680103283551359931e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:59 +0000
Subject: [PATCH 127/127] fix: ... passed on with other arguments to a variadic
 macro is counted wrong

---
 p.c | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/p.c b/p.c
index 5896f3d..fc11a67 100644
--- a/p.c
+++ b/p.c
@@ -2638,9 +2638,9 @@ static void parse_primary_expr(pws_t *pw, node_t *pn)
         ndcpy(pn, ndref(pdn, 0));
       } else if (ndlen(pdn) == 2) {
         /* parameterized macro */
-        node_t *pfn = ndref(pdn, 0); 
+        node_t *pfn = ndref(pdn, 0); sym_t name = intern(pw->tokstr);
         buf_t ids; ndbuf_t pars; size_t i;
-        bool variadic = false;
+        bool variadic = false, etcmixed = false;
         bufinit(&ids, sizeof(sym_t)); ndbinit(&pars); 
         assert(pfn->nt == NT_TYPE && pfn->ts == TS_FUNCTION); 
         expect(pw, TT_LPAR, "(");
@@ -2662,9 +2662,19 @@ static void parse_primary_expr(pws_t *pw, node_t *pn)
           assert(pin->name != 0 || i+1 == ndlen(pfn)); /* ... is last */
           *(sym_t*)bufnewbk(&ids) = pin->name;
         }
-        pdn = ndbref(&g_nodes, (size_t)info); /* parsing arguments may add nodes */
-        ndcpy(pn, ndref(pdn, 1));
-        patch_macro_template(&ids, &pars, pn);
+        for (i = 0; variadic && i < ndblen(&pars); ++i) {
+          if (node_is_etc(ndbref(&pars, i)) && (i+1 != buflen(&ids) || i+1 != ndblen(&pars)))
+            etcmixed = true; /* ... mixed with other args: their number is not known yet */
+        }
+        if (etcmixed) { /* expanded after ... of the outer macro is replaced */
+          node_t *pin; ndset(pn, NT_CALL, pw->id, startpos);
+          pin = ndnewbk(pn); ndset(pin, NT_IDENTIFIER, pw->id, startpos); pin->name = name;
+          for (i = 0; i < ndblen(&pars); ++i) ndswap(ndnewbk(pn), ndbref(&pars, i));
+        } else {
+          pdn = ndbref(&g_nodes, (size_t)info); /* parsing arguments may add nodes */
+          ndcpy(pn, ndref(pdn, 1));
+          patch_macro_template(&ids, &pars, pn);
+        }
         buffini(&ids); ndbfini(&pars); 
       } else assert(false);
       /* use current loc info on outer level */
-- 
2.43.0

