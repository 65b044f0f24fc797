From 9ee417242f36be36dfa1d7fd6c8722bd8a88171c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:17 +0000
Subject: [PATCH 001/226] fix: mixed-type == compared only the integer part of
 the difference ('1'==1.5 was true)

---
 src/jsiValue.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiValue.c b/src/jsiValue.c
index 5efe30f..37b6121 100644
--- a/src/jsiValue.c
+++ b/src/jsiValue.c
@@ -916,7 +916,7 @@ int Jsi_ValueCmp(Jsi_Interp *interp, Jsi_Value *v1, Jsi_Value* v2, int flags)
             Jsi_Number n1, n2;
             Jsi_ValueToNumberInt(interp, v1, 0, &n1);
             Jsi_ValueToNumberInt(interp, v2, 0, &n2);
-            r = (n2 - n1);
+            r = (n2 == n1 ? 0 : (n2 < n1 ? -1 : 1));
         }
     } else {
         switch (v1->vt) {
-- 
2.43.0


From 7b8de4c4a6918f778ed75f02ac47090f107d675b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:28 +0000
Subject: [PATCH 002/226] fix: property named new was stored under the key
 deletnewe

---
 src/parser.y | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.y b/src/parser.y
index 6afaba5..3ca6e7c 100644
--- a/src/parser.y
+++ b/src/parser.y
@@ -905,7 +905,7 @@ itemres: /* Support reserved words in objects. */
     | ARGUMENTS { $$ = code_push_string(pstate,&@1, "arguments"); }
     | _THIS { $$ = code_push_string(pstate,&@1, "this"); }
     | DELETE { $$ = code_push_string(pstate,&@1, "delete"); }
-    | NEW { $$ = code_push_string(pstate,&@1, "deletnewe"); }
+    | NEW { $$ = code_push_string(pstate,&@1, "new"); }
     | LOCAL { $$ = code_push_string(pstate,&@1, "var"); }
     | LOCALLET { $$ = code_push_string(pstate,&@1, "let"); }
     | LOCALCONST { $$ = code_push_string(pstate,&@1, "const"); }
-- 
2.43.0


From a01f9e067c30811cdbe3221489cf89ea5d12fefa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:26 +0000
Subject: [PATCH 003/226] fix: != produced a boolean unequal to true when the
 operands compared as less

---
 src/jsiEval.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiEval.c b/src/jsiEval.c
index 3ab20bb..8e71ecf 100644
--- a/src/jsiEval.c
+++ b/src/jsiEval.c
@@ -1569,7 +1569,7 @@ Jsi_RC jsiEvalCodeSub(jsi_Pstate *ps, Jsi_OpCodes *opcodes,
             case OP_NOTEQUAL: {
                 jsiVarDeref(interp,2);
                 int r = Jsi_ValueCmp(interp, _jsi_TOP, _jsi_TOQ, 0);
-                r = (ip->op == OP_EQUAL ? !r : r);
+                r = (ip->op == OP_EQUAL ? !r : r!=0);
                 jsiClearStack(interp,2);
                 Jsi_ValueMakeBool(interp, &_jsi_TOQ, r);
                 jsiPop(interp,1);
-- 
2.43.0


From 03bf08109995d211bee72264bf9a70654a5d6555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:11 +0000
Subject: [PATCH 004/226] fix: postfix ++/-- returned (x+1)-1, which is not x
 for fractions and large numbers

---
 src/jsiEval.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/jsiEval.c b/src/jsiEval.c
index 8e71ecf..0e5bd8b 100644
--- a/src/jsiEval.c
+++ b/src/jsiEval.c
@@ -1725,12 +1725,13 @@ Jsi_RC jsiEvalCodeSub(jsi_Pstate *ps, Jsi_OpCodes *opcodes,
                     rc = JSI_ERROR;
                 else
                     rc = _jsi_StrictChk(v);
+                Jsi_Number oldnum = v->d.num;
                 v->d.num += inc;
                     
                 jsiVarDeref(interp,1);
                 t = _jsi_TOP;
                 if (ip->data) {
-                    t->d.num -= inc;
+                    t->d.num = oldnum;
                 }
                 if (hPtrGet) {
                     // Re-update after modifying a primative from "get()".
-- 
2.43.0


From 36f6749b5a88d9e6604ca80b6bfe9fb8cdfa237e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:16 +0000
Subject: [PATCH 005/226] fix: compound assignment to a member failed when the
 operand stack had not been that deep before

---
 src/jsiEval.c | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/jsiEval.c b/src/jsiEval.c
index 0e5bd8b..6edb193 100644
--- a/src/jsiEval.c
+++ b/src/jsiEval.c
@@ -1355,14 +1355,13 @@ Jsi_RC jsiEvalCodeSub(jsi_Pstate *ps, Jsi_OpCodes *opcodes,
                 jsiVarDeref(interp,1);
                 break;
             case OP_PUSHTOP2: {
-                Jsi_Value *vp1 = _jsi_STACKIDX(fp->Sp);
-                Jsi_Value *vp2 = _jsi_STACKIDX(fp->Sp+1);
-                if (!vp1 || !vp2 || fp->Sp<2)
+                if (fp->Sp<2)
                     rc = Jsi_LogError("Invalid lookup/push");
-                else {
-                    Jsi_ValueCopy(interp, vp1, _jsi_TOQ);
-                    Jsi_ValueCopy(interp, vp2, _jsi_TOP);
-                    jsiPush(interp, 2);
+                else { // One at a time, as jsiPush() allocates the stack slot that follows.
+                    Jsi_ValueCopy(interp, _jsi_STACKIDX(fp->Sp), _jsi_TOQ);
+                    jsiPush(interp, 1);
+                    Jsi_ValueCopy(interp, _jsi_STACKIDX(fp->Sp), _jsi_TOQ);
+                    jsiPush(interp, 1);
                 }
                 break;
             }
-- 
2.43.0


From 44d3192e67f7bea88ac65796059bfab812803d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:30 +0000
Subject: [PATCH 006/226] fix: exception pending across a finally block was
 lost or replaced by one caught inside it

---
 src/jsiEval.c | 19 +++++++++++++++++++
 src/jsiInt.h  |  4 +++-
 2 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/jsiEval.c b/src/jsiEval.c
index 6edb193..7a23503 100644
--- a/src/jsiEval.c
+++ b/src/jsiEval.c
@@ -312,6 +312,12 @@ static void jsiPopTry(Jsi_Interp* interp, jsi_TryList **head)
 {
     interp->framePtr->tryDepth--;
     jsi_TryList *t = (*head)->next;
+    if ((*head)->type == jsi_TL_TRY) {
+        if ((*head)->d.td.pend)
+            Jsi_DecrRefCount(interp, (*head)->d.td.pend);
+        if ((*head)->d.td.pendErr)
+            Jsi_Free((*head)->d.td.pendErr);
+    }
     Jsi_Free(*head);
     *head = t;
     interp->tryList = t;
@@ -2004,6 +2010,13 @@ undef_eval:
                 /* restore scatch scope chain */
                 trylist->inFinal = 1;
                 JSI_RESTORE_SCOPE();
+                if (trylist->d.td.last_op == jsi_LOP_THROW) { // Keep it from try/catch used in the finally block.
+                    if (ps->last_exception && ps->last_exception->vt != JSI_VT_UNDEF) {
+                        Jsi_ValueDup2(interp, &trylist->d.td.pend, ps->last_exception);
+                        Jsi_ValueReset(interp, &ps->last_exception);
+                    } else
+                        trylist->d.td.pendErr = Jsi_Strdup(interp->errMsgBuf);
+                }
                 break;
             }
             case OP_EFINAL: {
@@ -2013,6 +2026,12 @@ undef_eval:
                 trylist->inFinal = 0;
                 int last_op = trylist->d.td.last_op;
                 jsi_OpCode *tojmp = (last_op == jsi_LOP_JMP ? trylist->d.td.ld.tojmp : 0);
+                if (last_op == jsi_LOP_THROW) {
+                    if (trylist->d.td.pend)
+                        Jsi_ValueDup2(interp, &ps->last_exception, trylist->d.td.pend);
+                    else if (trylist->d.td.pendErr)
+                        snprintf(interp->errMsgBuf, sizeof(interp->errMsgBuf), "%s", trylist->d.td.pendErr);
+                }
                 
                 pop_try(trylist);
 
diff --git a/src/jsiInt.h b/src/jsiInt.h
index 3598052..ede1604 100644
--- a/src/jsiInt.h
+++ b/src/jsiInt.h
@@ -1051,7 +1051,7 @@ typedef enum {
         jsi_TL_WITH,
 } jsi_try_op_type;                            /* type of try */
 
-typedef enum { jsi_LOP_NOOP, jsi_LOP_THROW, jsi_LOP_JMP } jsi_last_try_op_t; 
+typedef enum { jsi_LOP_NOOP, jsi_LOP_THROW, jsi_LOP_JMP, jsi_LOP_RET } jsi_last_try_op_t; 
 
 typedef struct jsi_TryList {
     jsi_try_op_type type;
@@ -1069,6 +1069,8 @@ typedef struct jsi_TryList {
             union {
                 jsi_OpCode *tojmp;
             } ld;                   /* jmp out of catch (target)*/
+            Jsi_Value *pend;        /* exception or return value held while the finally block runs */
+            char *pendErr;          /* ditto, for an error message. */
         } td;
         struct {                    /* with data */
             jsi_OpCode *wstart;         /* with start */
-- 
2.43.0


From f1e9d8fcc077360fd17bab570c4937e4ec2d897e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:55 +0000
Subject: [PATCH 007/226] fix: instanceof missed a prototype installed with
 setPrototypeOf or create

---
 src/jsiValue.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/jsiValue.c b/src/jsiValue.c
index 37b6121..d772384 100644
--- a/src/jsiValue.c
+++ b/src/jsiValue.c
@@ -1833,6 +1833,8 @@ int Jsi_ValueInstanceOf( Jsi_Interp *interp, Jsi_Value* v1, Jsi_Value* v2)
             return 1;
         if (sproto->vt != JSI_VT_OBJECT)
             return 0;
+        if (proto->vt == JSI_VT_OBJECT && sproto->d.obj == proto->d.obj)
+            return 1;
         sproto = sproto->d.obj->__proto__;
     }
     return 0;
-- 
2.43.0


From a2e08ad8e722dda71a2afccb10ad19c8856ee5f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:14 +0000
Subject: [PATCH 008/226] fix: setPrototypeOf ignored an empty object and
 allowed cycles; isPrototypeOf tested the wrong object

---
 src/jsiProto.c | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/jsiProto.c b/src/jsiProto.c
index 1acb3aa..4745246 100644
--- a/src/jsiProto.c
+++ b/src/jsiProto.c
@@ -573,11 +573,17 @@ static Jsi_RC jsi_SetPrototypeOfCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Val
     Jsi_Value *a = Jsi_ValueArrayIndex(interp, args,1);
     if (!v || !a || v->vt != JSI_VT_OBJECT || a->vt != JSI_VT_OBJECT)
         return JSI_ERROR;
-    if (a->d.obj->tree->numEntries && a->d.obj != v->d.obj) {
-        v->d.obj->__proto__ = Jsi_ValueDup(interp, a);
-        v->d.obj->clearProto = 1;
-    } else
-        v->d.obj->__proto__ = a->d.obj->__proto__;
+    Jsi_Obj *obj = v->d.obj;
+    Jsi_Value *old = obj->__proto__, *sproto = a;
+    while (sproto && sproto->vt == JSI_VT_OBJECT) {
+        if (sproto->d.obj == obj)
+            return Jsi_LogError("cyclic prototype chain");
+        sproto = sproto->d.obj->__proto__;
+    }
+    obj->__proto__ = Jsi_ValueDup(interp, a);
+    if (obj->clearProto && old)
+        Jsi_DecrRefCount(interp, old);
+    obj->clearProto = 1;
     return JSI_OK;
 }
 #endif
@@ -595,20 +601,17 @@ static Jsi_RC jsi_HasOwnPropertyCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Val
 static Jsi_RC ObjectIsPrototypeOfCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
     Jsi_Value **ret, Jsi_Func *funcPtr)
 {
-    Jsi_Value *proto, *sproto, *v = Jsi_ValueArrayIndex(interp, args,0);
+    Jsi_Value *sproto, *v = Jsi_ValueArrayIndex(interp, args,0);
     int bval = 0;
     if (v->vt != JSI_VT_OBJECT || _this->vt != JSI_VT_OBJECT) {
         goto retval;
     }
-    proto = _this->d.obj->__proto__;
     sproto = v->d.obj->__proto__;
-    if (!proto)
-        goto retval;
     while (sproto) {
-        if ((bval=(sproto == proto)))
-            break;
         if (sproto->vt != JSI_VT_OBJECT)
             break;
+        if ((bval=(sproto->d.obj == _this->d.obj)))
+            break;
         sproto = sproto->d.obj->__proto__;
     }
 retval:
-- 
2.43.0


From 967c2b19d03b0936172e0eb1c59f8be898145591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:50 +0000
Subject: [PATCH 009/226] fix: assigning to a callback's parameter changed the
 array element it came from; apply made the caller's array the call's scope

---
 src/jsiFunc.c  | 5 +++++
 src/jsiProto.c | 6 ++++--
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/jsiFunc.c b/src/jsiFunc.c
index 85c3faf..49e8780 100644
--- a/src/jsiFunc.c
+++ b/src/jsiFunc.c
@@ -782,10 +782,15 @@ static Jsi_RC jsi_FunctionInvoke(Jsi_Interp *interp, Jsi_Value *tocall, Jsi_Valu
     /* prepare args */
     if (args->vt != JSI_VT_OBJECT || !Jsi_ObjIsArray(interp, args->d.obj)) 
         return Jsi_LogError("argument must be an array");
+    /* Parameters must not alias the caller's values. */
+    if (funcPtr->type == FC_NORMAL)
+        args = Jsi_ValueMakeObject(interp, NULL, Jsi_ObjNewArray(interp, args->d.obj->arr, args->d.obj->arrCnt, 1));
+    Jsi_IncrRefCount(interp, args);
     /* new this */
     Jsi_Value *fthis = Jsi_ValueDup(interp, _this ? _this : tocall);
     Jsi_RC rc = jsi_FuncCallSub(interp, args, tocall, ret, funcPtr, fthis, 0);
     Jsi_DecrRefCount(interp, fthis);
+    Jsi_DecrRefCount(interp, args);
     return rc;
 }
 
diff --git a/src/jsiProto.c b/src/jsiProto.c
index 4745246..4bdf04c 100644
--- a/src/jsiProto.c
+++ b/src/jsiProto.c
@@ -472,11 +472,13 @@ Jsi_RC Jsi_FunctionApply(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
             Jsi_LogError("second argument to Function.prototype.apply must be an array");
             goto done;
         }
+        /* The call uses this as its scope: do not let it change the caller's array. */
+        fargs = Jsi_ValueMakeObject(interp, NULL, Jsi_ObjNewArray(interp, fargs->d.obj->arr, fargs->d.obj->arrCnt, 1));
     } else {
-        isalloc = 1;
         fargs = Jsi_ValueMakeObject(interp, NULL, Jsi_ObjNewType(interp, JSI_OT_ARRAY));
-        Jsi_IncrRefCount(interp, fargs);
     }
+    isalloc = 1;
+    Jsi_IncrRefCount(interp, fargs);
     rc = jsi_FuncCallSub(interp, fargs, _this, ret, funcPtr, fthis, 0);
     
 done:
-- 
2.43.0


From c038f44318b36cf91edeb53f452add9867c719e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:19 +0000
Subject: [PATCH 010/226] fix: an array element written through a string index
 was stored as a property the element hid; non-index keys such as 1.5 or '1x'
 read elements

---
 src/jsiEval.c |  3 +++
 src/jsiInt.h  |  1 +
 src/jsiObj.c  | 18 +++++++++++++++---
 3 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/jsiEval.c b/src/jsiEval.c
index 7a23503..f29d109 100644
--- a/src/jsiEval.c
+++ b/src/jsiEval.c
@@ -1091,6 +1091,9 @@ static Jsi_RC jsi_ValueObjKeyAssign(Jsi_Interp *interp, Jsi_Value *target, Jsi_V
         kstr = jstr->str;
     else
         kstr = Jsi_ValueToString(interp, keyval, NULL);
+    if (arrayindex < 0 && target->vt == JSI_VT_OBJECT && target->d.obj->arr
+        && (arrayindex = jsi_ObjArrayKeyIndex(kstr)) >= 0 && (uint)arrayindex < interp->maxArrayList)
+        return jsi_ObjArraySetDup(interp, target->d.obj, value, arrayindex);
 
 #if (defined(JSI_HAS___PROTO__) && JSI_HAS___PROTO__==2)
     if (kstr[0] == '_' && Jsi_Strcmp(kstr, "__proto__")==0) {
diff --git a/src/jsiInt.h b/src/jsiInt.h
index ede1604..985c034 100644
--- a/src/jsiInt.h
+++ b/src/jsiInt.h
@@ -1472,6 +1472,7 @@ extern Jsi_RC Zvfs_Mount( Jsi_Interp *interp, Jsi_Value *archive, Jsi_Value *mou
 extern Jsi_Value* jsi_ValueSubscript(Jsi_Interp *interp, Jsi_Value *target, Jsi_Value *key, Jsi_Value **ret, bool right_val);
 extern void jsi_ValueObjGetKeys(Jsi_Interp *interp, Jsi_Value *target, Jsi_Value *ret, bool isof);
 extern Jsi_Value* jsi_ObjArrayLookup(Jsi_Interp *interp, Jsi_Obj *obj, const char *key);
+extern int jsi_ObjArrayKeyIndex(const char *key);
 extern Jsi_Value* jsi_ProtoObjValueNew1(Jsi_Interp *interp, const char *name);
 extern Jsi_Value* jsi_ProtoValueNew(Jsi_Interp *interp, const char *name, const char *parent);
 extern Jsi_Value* jsi_ObjValueNew(Jsi_Interp *interp);
diff --git a/src/jsiObj.c b/src/jsiObj.c
index 63f8e52..3010069 100644
--- a/src/jsiObj.c
+++ b/src/jsiObj.c
@@ -369,11 +369,23 @@ void Jsi_ObjFree(Jsi_Interp *interp, Jsi_Obj *obj)
 
 /**************************** ARRAY ******************************/
 
+// Return the array index written in canonical decimal form, or -1.
+int jsi_ObjArrayKeyIndex(const char *key) {
+    if (!key || !isdigit(*key) || (*key == '0' && key[1]))
+        return -1;
+    int n = 0;
+    for (; isdigit(*key); key++) {
+        if (n > (INT_MAX-9)/10)
+            return -1;
+        n = n*10 + (*key-'0');
+    }
+    return (*key ? -1 : n);
+}
+
 Jsi_Value *jsi_ObjArrayLookup(Jsi_Interp *interp, Jsi_Obj *obj, const char *key) {
-    if (!obj->arr || !key || !isdigit(*key))
+    if (!obj->arr)
         return NULL;
-    char *ep = NULL;
-    int n = (int)strtol(key, &ep, 0);
+    int n = jsi_ObjArrayKeyIndex(key);
     if (n<0 || n >= (int)obj->arrCnt)
         return NULL;
     Jsi_Value *v = obj->arr[n];
-- 
2.43.0


From 42b362bc16564b3199bf1a8ea45f78183c601e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:06 +0000
Subject: [PATCH 011/226] fix: delete of an array element did nothing

---
 src/jsiEval.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/jsiEval.c b/src/jsiEval.c
index f29d109..7b7700e 100644
--- a/src/jsiEval.c
+++ b/src/jsiEval.c
@@ -462,6 +462,13 @@ static void jsiValueObjDelete(Jsi_Interp *interp, Jsi_Value *target, Jsi_Value *
     if (target->vt != JSI_VT_OBJECT) return;
     const char *kstr = Jsi_ValueToString(interp, key, NULL);
     Jsi_TreeEntry *hPtr;
+    Jsi_Obj *obj = target->d.obj;
+    int n = (obj->arr ? jsi_ObjArrayKeyIndex(kstr) : -1);
+    if (n >= 0 && n < (int)obj->arrCnt && obj->arr[n]) {
+        Jsi_DecrRefCount(interp, obj->arr[n]);
+        obj->arr[n] = NULL;
+        return;
+    }
     if (!Jsi_ValueIsStringKey(interp, key)) {
         Jsi_MapEntry *hePtr = Jsi_MapEntryFind(target->d.obj->tree->opts.interp->strKeyTbl, kstr);
         if (hePtr)
-- 
2.43.0


From 7baab8514301038d2859873826943a04b5db39e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:06 +0000
Subject: [PATCH 012/226] fix: Array.shift of an empty slot left the length
 unchanged

---
 src/jsiArray.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiArray.c b/src/jsiArray.c
index c650f8e..34cfcf3 100644
--- a/src/jsiArray.c
+++ b/src/jsiArray.c
@@ -773,10 +773,10 @@ static Jsi_RC jsi_ArrayShiftCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *
         v = obj->arr[0];
         memmove(obj->arr, obj->arr+1, n*sizeof(Jsi_Value*));
         obj->arr[n] = NULL;
+        Jsi_ObjSetLength(interp, obj, n);
         if (!v) return JSI_OK;
         Jsi_ValueDup2(interp, ret, v);
         Jsi_DecrRefCount(interp, v);
-        Jsi_ObjSetLength(interp, obj, n);
     }
     return JSI_OK;
 }
-- 
2.43.0


From 8032b1f294525dbae7134f833c45899979d41269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:06 +0000
Subject: [PATCH 013/226] fix: arrays returned by filter and flat shared their
 elements with the source array

---
 src/jsiArray.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/jsiArray.c b/src/jsiArray.c
index 34cfcf3..45fedd6 100644
--- a/src/jsiArray.c
+++ b/src/jsiArray.c
@@ -254,8 +254,11 @@ static Jsi_RC jsi_ArrayFlatSub(Jsi_Interp *interp, Jsi_Obj* nobj, Jsi_Value *arr
         Jsi_Value *t = Jsi_ValueArrayIndex(interp, arr, i);
         if (t && depth>0 && Jsi_ValueIsArray(interp, t))
             rc = jsi_ArrayFlatSub(interp, nobj, t , depth-1);
-        else if (t && t->vt != JSI_VT_UNDEF)
-            Jsi_ObjArrayAdd(interp, nobj, t);
+        else if (t && t->vt != JSI_VT_UNDEF) {
+            t = Jsi_ValueDup(interp, t);
+            rc = Jsi_ObjArrayAdd(interp, nobj, t);
+            Jsi_DecrRefCount(interp, t);
+        }
         if ((uint)(++n + clen)>interp->maxArrayList)
             rc = Jsi_LogError("array size exceeded");
     }
@@ -452,8 +455,7 @@ static Jsi_RC jsi_ArrayFilterCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value
         }
         if (fval) {
             if (Jsi_ValueIsArray(interp, _this) && _this->d.obj == obj && i<(int)obj->arrCnt && obj->arr[i]) {
-                nobj->arr[n] = obj->arr[i];
-                Jsi_IncrRefCount(interp, nobj->arr[n]);
+                nobj->arr[n] = Jsi_ValueDup(interp, obj->arr[i]);
             } else
                 nobj->arr[n] = Jsi_ValueDup(interp, nrPtr);
             n++;
-- 
2.43.0


From 2647d0cd42e6130f5b206d2eaa61e5e225605e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:06 +0000
Subject: [PATCH 014/226] fix: flat(0) returned an empty array and every was
 false for an empty array

---
 src/jsiArray.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/jsiArray.c b/src/jsiArray.c
index 45fedd6..123960a 100644
--- a/src/jsiArray.c
+++ b/src/jsiArray.c
@@ -280,9 +280,7 @@ static Jsi_RC jsi_ArrayFlatCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_
 
     nobj = Jsi_ObjNewType(interp, JSI_OT_ARRAY);
     Jsi_ValueMakeArrayObject(interp, ret, nobj );
-    if (ndepth>0)
-        return jsi_ArrayFlatSub(interp, nobj, _this, ndepth);
-    return JSI_OK;
+    return jsi_ArrayFlatSub(interp, nobj, _this, ndepth);
 }
 
 static Jsi_RC jsi_ArrayConcatCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,Jsi_Value **ret, Jsi_Func *funcPtr) {
@@ -564,7 +562,7 @@ static Jsi_RC jsi_ArrayFindSubCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value
     Jsi_IncrRefCount(interp, _this);
     obj = _this->d.obj;
     Jsi_ObjListifyArray(interp, obj);
-    int fval = 0;
+    int fval = (op == 3);
     Jsi_Value *nrPtr = Jsi_ValueNew1(interp);
     Jsi_Value *vobjs[3];
     Jsi_Func *fptr = func->d.obj->d.fobj->func;
-- 
2.43.0


From 63fa711cfad09791ed6631e1051e8b56945e3390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:08 +0000
Subject: [PATCH 015/226] fix: find, filter, reduce used freed or vanished
 elements when the callback shrank the array; forEach/some/every never ended
 when it grew it

---
 src/jsiArray.c | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/src/jsiArray.c b/src/jsiArray.c
index 123960a..e288cdf 100644
--- a/src/jsiArray.c
+++ b/src/jsiArray.c
@@ -444,20 +444,19 @@ static Jsi_RC jsi_ArrayFilterCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value
         Jsi_IncrRefCount(interp, vobjs[2]);
         vpargs = Jsi_ValueMakeObject(interp, NULL, Jsi_ObjNewArray(interp, vobjs, maa, 0));
         Jsi_IncrRefCount(interp, vpargs);
+        vobjs[3] = Jsi_ValueDup(interp, vobjs[0]); // The callback may remove it from the array.
         rc = Jsi_FunctionInvoke(interp, func, vpargs, &nrPtr, sthis);
         Jsi_DecrRefCount(interp, vpargs);
         Jsi_DecrRefCount(interp, vobjs[2]);
         fval = Jsi_ValueIsTrue(interp, nrPtr);
         if( JSI_OK!=rc ) {
+            Jsi_DecrRefCount(interp, vobjs[3]);
             goto bail;
         }
-        if (fval) {
-            if (Jsi_ValueIsArray(interp, _this) && _this->d.obj == obj && i<(int)obj->arrCnt && obj->arr[i]) {
-                nobj->arr[n] = Jsi_ValueDup(interp, obj->arr[i]);
-            } else
-                nobj->arr[n] = Jsi_ValueDup(interp, nrPtr);
-            n++;
-        }
+        if (fval)
+            nobj->arr[n++] = vobjs[3];
+        else
+            Jsi_DecrRefCount(interp, vobjs[3]);
         Jsi_ValueMakeUndef(interp, &nrPtr);
     }
     Jsi_ObjSetLength(interp, nobj, n);
@@ -524,7 +523,8 @@ static Jsi_RC jsi_ArrayForeachCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value
     int maa = (fptr->argnames?fptr->argnames->argCnt:0);
     if (maa>3 || fptr->type == FC_BUILDIN)
         maa = 3;
-    for (i = 0; i < obj->arrCnt && rc == JSI_OK; i++) {
+    uint curlen = obj->arrCnt;
+    for (i = 0; i < curlen && i < obj->arrCnt && rc == JSI_OK; i++) {
         if (!obj->arr[i]) continue;
         vobjs[0] = obj->arr[i];
         vobjs[1] = (maa>1?Jsi_ValueNewNumber(interp, i):interp->NullValue);
@@ -563,13 +563,14 @@ static Jsi_RC jsi_ArrayFindSubCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value
     obj = _this->d.obj;
     Jsi_ObjListifyArray(interp, obj);
     int fval = (op == 3);
+    uint curlen = obj->arrCnt;
     Jsi_Value *nrPtr = Jsi_ValueNew1(interp);
-    Jsi_Value *vobjs[3];
+    Jsi_Value *vobjs[3], *found = NULL;
     Jsi_Func *fptr = func->d.obj->d.fobj->func;
     int maa = (fptr->argnames?fptr->argnames->argCnt:0);
     if (maa>3 || fptr->type == FC_BUILDIN)
         maa = 3;
-    for (i = 0; i < obj->arrCnt && rc == JSI_OK; i++) {
+    for (i = 0; i < curlen && i < obj->arrCnt && rc == JSI_OK; i++) {
         if (!obj->arr[i]) continue;
         vobjs[0] = obj->arr[i];
         vobjs[1] = (maa>1?Jsi_ValueNewNumber(interp, i):interp->NullValue);
@@ -577,6 +578,9 @@ static Jsi_RC jsi_ArrayFindSubCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value
         vpargs = Jsi_ValueMakeObject(interp, NULL, Jsi_ObjNewArray(interp, vobjs, maa, 0));
         Jsi_IncrRefCount(interp, vobjs[2]);
         Jsi_IncrRefCount(interp, vpargs);
+        if (found)
+            Jsi_DecrRefCount(interp, found);
+        found = Jsi_ValueDup(interp, vobjs[0]); // The callback may remove it from the array.
         rc = Jsi_FunctionInvoke(interp, func, vpargs, &nrPtr, sthis);
         Jsi_DecrRefCount(interp, vpargs);
         Jsi_DecrRefCount(interp, vobjs[2]);
@@ -591,7 +595,7 @@ static Jsi_RC jsi_ArrayFindSubCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value
     }
     if (rc == JSI_OK) {
         if (op == 1 && fval) // Find
-            Jsi_ValueCopy(interp, *ret, obj->arr[i]); 
+            Jsi_ValueCopy(interp, *ret, found); 
         else if (op == 2 || op == 3) // Some/Every
             Jsi_ValueMakeBool(interp, ret, fval);
         else if (op == 4)
@@ -601,6 +605,8 @@ static Jsi_RC jsi_ArrayFindSubCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value
     if (nthis)
         Jsi_DecrRefCount(interp, nthis);
     Jsi_DecrRefCount(interp, nrPtr);
+    if (found)
+        Jsi_DecrRefCount(interp, found);
     return rc;
 
 }
@@ -630,8 +636,9 @@ static Jsi_RC jsi_ArrayReduceSubCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Val
     Jsi_IncrRefCount(interp, _this);
     for (n = 0, i = (rev?end:start); (rev?i>=start:i<=end) && rc == JSI_OK; n++, i += (rev?-1:1)) {
         if (!obj->arr[i]) continue;
-        if (n==0 && !ini) {
-            ini = obj->arr[i];
+        if (!ini) {
+            Jsi_ValueCopy(interp, nrPtr, obj->arr[i]); // The callback may remove it from the array.
+            ini = nrPtr;
             continue;
         }
             
-- 
2.43.0


From 2c86ae3da45411c0fda6b49aa998134ee0ae87fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:08 +0000
Subject: [PATCH 016/226] fix: Array.lastIndexOf ignored its start and indexOf
 with a start before the first element found nothing

---
 src/jsiArray.c | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/jsiArray.c b/src/jsiArray.c
index e288cdf..5833d25 100644
--- a/src/jsiArray.c
+++ b/src/jsiArray.c
@@ -717,17 +717,16 @@ static Jsi_RC jsi_ArrayIndexSubCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Valu
     if (start) {
         if (Jsi_GetNumberFromValue(interp,start, &nstart)!=JSI_OK) return JSI_ERROR;
         istart = (int)nstart;
-        if (istart > n)
-            goto bail;
         if (istart < 0)
             istart = (n+istart);
-        if (istart<0)
-            goto bail;
+        if (op == 2) {
+            if (istart >= n)
+                istart = n-1;
+        } else if (istart < 0)
+            istart = 0;
     }
-    if (op == 2) {
-        istart = n-1;
+    if (op == 2)
         dir = -1;
-    }
     Jsi_ObjListifyArray(interp, obj);
     for (i = istart; ; i+=dir)
     {
@@ -1287,7 +1286,7 @@ static Jsi_CmdSpec arrayCmds[] = {
     { "indexOf",    jsi_ArrayIndexOfCmd,    1, 2, "str:any, startIdx:number=0", .help="Return index of first occurrance in array", .retType=(uint)JSI_TT_NUMBER },
     { "isArray",    jsi_ArrayIsArrayCmd,    0, 0, "", .help="True if val array", .retType=(uint)JSI_TT_BOOLEAN },
     { "join",       jsi_ArrayJoinCmd,       0, 1, "sep:string=''", .help="Return elements joined by char", .retType=(uint)JSI_TT_STRING },
-    { "lastIndexOf",jsi_ArrayLastindexOfCmd,1, 2, "val:any, start:number=0", .help="Return index of last occurence in array", .retType=(uint)JSI_TT_NUMBER },
+    { "lastIndexOf",jsi_ArrayLastindexOfCmd,1, 2, "val:any, start:number=void", .help="Return index of last occurence in array", .retType=(uint)JSI_TT_NUMBER },
     { "map",        jsi_ArrayMapCmd,        1, 2, "callback:function, thisArg:object=void", .help="Creates a new array with the results of calling a provided function on every element in this array", .retType=(uint)JSI_TT_ARRAY },
     { "pop",        jsi_ArrayPopCmd,        0, 0, "", .help="Remove and return last element of array", .retType=(uint)JSI_TT_ANY },
     { "push",       jsi_ArrayPushCmd,       1,-1, "val:any, ...", .help="Push one or more elements onto array and return size", .retType=(uint)JSI_TT_NUMBER },
-- 
2.43.0


From 61d8525b5c01887172eaad751a79fe13ef9f7892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:46 +0000
Subject: [PATCH 017/226] fix: slice, splice, fill and unshift mishandled
 out-of-range arguments (negative start past the beginning, start past the
 end, negative count, no arguments)

---
 src/jsiArray.c | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/jsiArray.c b/src/jsiArray.c
index 5833d25..66081a2 100644
--- a/src/jsiArray.c
+++ b/src/jsiArray.c
@@ -797,7 +797,7 @@ static Jsi_RC jsi_ArrayUnshiftCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value
     int argc = Jsi_ValueGetLength(interp, args);
     int curlen = jsi_SizeOfArray(interp, obj);
     if (argc <= 0) {
-        Jsi_ValueMakeNumber(interp, ret, 0);
+        Jsi_ValueMakeNumber(interp, ret, curlen);
         return JSI_OK;
     }
     Jsi_ObjListifyArray(interp, obj);
@@ -841,7 +841,7 @@ static Jsi_RC jsi_ArrayFillCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_
         if (istart < 0)
             istart = (n+istart);
         if (istart<0)
-            goto bail;
+            istart = 0;
     }
       
     if (n == 0) {
@@ -901,7 +901,7 @@ static Jsi_RC jsi_ArraySliceCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *
     if (istart < 0)
         istart = (n+istart);
     if (istart<0)
-        return rc;
+        istart = 0;
       
     if (n == 0)
         return rc;
@@ -1163,7 +1163,7 @@ static Jsi_RC jsi_ArraySpliceCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value
       return JSI_ERROR;
     istart = (int)nstart;
     if (istart > n)
-        return JSI_OK;
+        istart = n;
     if (istart < 0)
         istart = (n+istart);
     if (istart<0)
@@ -1177,9 +1177,7 @@ static Jsi_RC jsi_ArraySpliceCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value
         if (rhowmany >= (n-istart))
             rhowmany = n-istart;
         if (rhowmany < 0)
-            rhowmany = (n-istart);
-        if (rhowmany<0)
-            return JSI_OK;
+            rhowmany = 0;
     }
     
     if (curlen < 0) {
-- 
2.43.0


From 2ff2d20c6198fffe7043d1adcd3aa3635ac03c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:51 +0000
Subject: [PATCH 018/226] fix: assigning an array's length made length lie
 about the elements instead of resizing

---
 src/jsiEval.c | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/jsiEval.c b/src/jsiEval.c
index 7b7700e..3c0599f 100644
--- a/src/jsiEval.c
+++ b/src/jsiEval.c
@@ -1101,6 +1101,23 @@ static Jsi_RC jsi_ValueObjKeyAssign(Jsi_Interp *interp, Jsi_Value *target, Jsi_V
     if (arrayindex < 0 && target->vt == JSI_VT_OBJECT && target->d.obj->arr
         && (arrayindex = jsi_ObjArrayKeyIndex(kstr)) >= 0 && (uint)arrayindex < interp->maxArrayList)
         return jsi_ObjArraySetDup(interp, target->d.obj, value, arrayindex);
+    if (target->vt == JSI_VT_OBJECT && target->d.obj->isarrlist && kstr[0] == 'l' && Jsi_Strcmp(kstr, "length")==0) {
+        Jsi_Obj *obj = target->d.obj;
+        Jsi_Number nlen;
+        if (Jsi_ValueGetNumber(interp, value, &nlen) != JSI_OK || !(nlen>=0 && nlen<INT_MAX) || nlen != (uint)nlen)
+            return Jsi_LogError("Invalid array length");
+        if (obj->modifying)
+            return Jsi_LogError("already modifying");
+        if (Jsi_ObjArraySizer(interp, obj, (uint)nlen) <= 0)
+            return JSI_ERROR;
+        while (obj->arrCnt > (uint)nlen) {
+            Jsi_Value *ov = obj->arr[--obj->arrCnt];
+            obj->arr[obj->arrCnt] = NULL;
+            if (ov)
+                Jsi_DecrRefCount(interp, ov);
+        }
+        return JSI_OK;
+    }
 
 #if (defined(JSI_HAS___PROTO__) && JSI_HAS___PROTO__==2)
     if (kstr[0] == '_' && Jsi_Strcmp(kstr, "__proto__")==0) {
-- 
2.43.0


From f721aad20d0225b79d21840676142e8019ced1af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:22 +0000
Subject: [PATCH 019/226] fix: an object or function compared equal to
 undefined and null

---
 src/jsiValue.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/jsiValue.c b/src/jsiValue.c
index d772384..e9ac48f 100644
--- a/src/jsiValue.c
+++ b/src/jsiValue.c
@@ -888,6 +888,11 @@ static void jsi_ValueToPrimitiveRes(Jsi_Interp *interp, Jsi_Value *v, Jsi_Value
             //rPtr->f.bits.isstrkey = 1;
             break;
         default:
+#ifdef JSI_MEM_DEBUG
+            memcpy(rPtr, v, sizeof(*v)-sizeof(v->VD));
+#else
+            *rPtr = *v;
+#endif
             break;
     }
 }
@@ -912,6 +917,8 @@ int Jsi_ValueCmp(Jsi_Interp *interp, Jsi_Value *v1, Jsi_Value* v2, int flags)
         if ((v1->vt == JSI_VT_UNDEF || v1->vt == JSI_VT_NULL) && 
             (v2->vt == JSI_VT_UNDEF || v2->vt == JSI_VT_NULL)) {
             r = 0;
+        } else if (v1->vt == JSI_VT_OBJECT || v2->vt == JSI_VT_OBJECT) {
+            r = 1;
         } else {
             Jsi_Number n1, n2;
             Jsi_ValueToNumberInt(interp, v1, 0, &n1);
-- 
2.43.0


From 5ef2c1efe0e9f47d8776958dfbf4f64c3ba9f9c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:58 +0000
Subject: [PATCH 020/226] fix: Array.sort with unique left removed elements
 referenced beyond the new length (use after free)

---
 src/jsiArray.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/jsiArray.c b/src/jsiArray.c
index 66081a2..4ccfed9 100644
--- a/src/jsiArray.c
+++ b/src/jsiArray.c
@@ -1109,8 +1109,10 @@ static Jsi_RC jsi_ArraySortCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_
 #endif
             if (diff) {
                 n++;
-                if (n!=i)
+                if (n!=i) {
                     obj->arr[n] = obj->arr[i];
+                    obj->arr[i] = NULL;
+                }
             } else {
                 dupCnt++;
                 if (obj->arr[i])
-- 
2.43.0


From ed0295862d5506bbab83f1e209341be0c094ac4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:58 +0000
Subject: [PATCH 021/226] fix: Array.sort cut the comparison function's result
 to an integer, so fractions counted as equal

---
 src/jsiArray.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiArray.c b/src/jsiArray.c
index 4ccfed9..e3cb987 100644
--- a/src/jsiArray.c
+++ b/src/jsiArray.c
@@ -991,7 +991,7 @@ static int SortSubCmd(const void *p1, const void *p2, void *thunk)
             if (rc == JSI_OK) {
                 Jsi_Number d = 0;
                 if (Jsi_ValueGetNumber(interp, retP, &d) == JSI_OK)
-                    rc = -(int)d;
+                    rc = (d < 0 ? 1 : (d > 0 ? -1 : 0));
                 else {
                     if (!si->errCnt)
                         Jsi_LogWarn("invalid function return");
-- 
2.43.0


From 44cf403ce017c2e25470cbf3ed0f5b9541cfb0c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:58 +0000
Subject: [PATCH 022/226] fix: Array.sort ignored an exception thrown by the
 comparison function

---
 src/jsiArray.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/jsiArray.c b/src/jsiArray.c
index e3cb987..b9fd452 100644
--- a/src/jsiArray.c
+++ b/src/jsiArray.c
@@ -943,6 +943,7 @@ typedef struct {
     bool unique;
     Jsi_Value *compare;
     int errCnt;
+    Jsi_RC rc;      /* Error from compare function. */
 } SortInfo;
 
 static const char *sortArrayStrs[] = {"default", "desc", "dict", "nocase", 0};
@@ -972,7 +973,7 @@ static int SortSubCmd(const void *p1, const void *p2, void *thunk)
     Jsi_Interp *interp = si->interp;
     int sortFlags = si->flags;
 
-    if (interp == NULL || interp->deleting)
+    if (interp == NULL || interp->deleting || si->rc != JSI_OK)
         return 0;
     Jsi_Value *v1 = *(Jsi_Value**)p1, *v2 = *(Jsi_Value**)p2;
     int rc = 0;
@@ -997,6 +998,9 @@ static int SortSubCmd(const void *p1, const void *p2, void *thunk)
                         Jsi_LogWarn("invalid function return");
                     si->errCnt++;
                 }
+            } else {
+                si->rc = JSI_ERROR;
+                rc = 0;
             }
             Jsi_DecrRefCount(interp, retP);
         }
@@ -1092,7 +1096,7 @@ static Jsi_RC jsi_ArraySortCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_
 #endif
         return JSI_ERROR;
     }
-    if (si.unique) {
+    if (si.unique && si.rc == JSI_OK) {
         int n, diff = 1, dupCnt=0;
         for (n=0, i=1; i<(int)obj->arrCnt; i++) {
             if (obj->arr[n] == obj->arr[i])
@@ -1127,6 +1131,10 @@ static Jsi_RC jsi_ArraySortCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_
 #endif
     if (hasopt)
         Jsi_OptionsFree(interp, jsi_ArraySortOptions, &si, 0);
+    if (si.rc != JSI_OK) {
+        obj->modifying = 0;
+        return JSI_ERROR;
+    }
 done:
     v = Jsi_ValueMakeObject(interp, NULL, obj);
     Jsi_ValueReplace(interp, ret, v);
-- 
2.43.0


From 6f46485655da02fb6b00ddac113b40fb1ce26fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:35 +0000
Subject: [PATCH 023/226] fix: the comparison function of Array.sort could free
 the elements being sorted by growing the array

---
 src/jsiArray.c | 61 ++++++++++++++++++++++++++++++++------------------
 1 file changed, 39 insertions(+), 22 deletions(-)

diff --git a/src/jsiArray.c b/src/jsiArray.c
index b9fd452..f3e543d 100644
--- a/src/jsiArray.c
+++ b/src/jsiArray.c
@@ -1082,53 +1082,70 @@ static Jsi_RC jsi_ArraySortCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_
     obj->modifying = 1;
     si.flags = flags;
     Jsi_ObjListifyArray(interp, obj);
+    Jsi_Value **arr = (Jsi_Value**)Jsi_Calloc(curlen, sizeof(Jsi_Value*));
+    for (i=0; i<curlen; i++)
+        if ((arr[i] = obj->arr[i]))
+            Jsi_IncrRefCount(interp, arr[i]);
 #ifdef NO_QSORT_R
     /* TODO: mutex. */
     curSortInfo = &si;
-    qsort(obj->arr, curlen, sizeof(Jsi_Value*), SortSubCmd);
+    qsort(arr, curlen, sizeof(Jsi_Value*), SortSubCmd);
 #else
-    qsort_r(obj->arr, curlen, sizeof(Jsi_Value*), SortSubCmd, &si);
+    qsort_r(arr, curlen, sizeof(Jsi_Value*), SortSubCmd, &si);
 #endif
-
-    if (interp->deleting) {
-#ifdef NO_QSORT_R
-        curSortInfo = NULL;
-#endif
-        return JSI_ERROR;
-    }
-    if (si.unique && si.rc == JSI_OK) {
+    if (si.unique && si.rc == JSI_OK && !interp->deleting) {
         int n, diff = 1, dupCnt=0;
-        for (n=0, i=1; i<(int)obj->arrCnt; i++) {
-            if (obj->arr[n] == obj->arr[i])
+        for (n=0, i=1; i<curlen; i++) {
+            if (arr[n] == arr[i])
                 diff = 1;
             else
 #ifdef NO_QSORT_R
-                diff = SortSubCmd(&obj->arr[n], &obj->arr[i]);
+                diff = SortSubCmd(&arr[n], &arr[i]);
 #else
 #ifdef __WIN32
-                diff = SortSubCmd(&si, &obj->arr[n], &obj->arr[i]);
+                diff = SortSubCmd(&si, &arr[n], &arr[i]);
 #else
-                diff = SortSubCmd(&obj->arr[n], &obj->arr[i], &si);
+                diff = SortSubCmd(&arr[n], &arr[i], &si);
 #endif
 #endif
-            if (diff) {
+            if (diff || si.rc != JSI_OK) {
                 n++;
                 if (n!=i) {
-                    obj->arr[n] = obj->arr[i];
-                    obj->arr[i] = NULL;
+                    arr[n] = arr[i];
+                    arr[i] = NULL;
                 }
             } else {
                 dupCnt++;
-                if (obj->arr[i])
-                    Jsi_DecrRefCount(interp, obj->arr[i]);
-                obj->arr[i] = 0;
+                if (arr[i])
+                    Jsi_DecrRefCount(interp, arr[i]);
+                arr[i] = 0;
             }
         }
-        obj->arrCnt -= dupCnt;
+        curlen -= dupCnt;
     }
 #ifdef NO_QSORT_R
     curSortInfo = NULL;
 #endif
+    /* Put the elements back, whatever compare did to the array. */
+    if (Jsi_ObjArraySizer(interp, obj, curlen) <= 0) {
+        si.rc = JSI_ERROR;
+        i = 0;
+    } else {
+        for (i=0; i<(int)obj->arrCnt; i++) {
+            v = obj->arr[i];
+            obj->arr[i] = (i<curlen ? arr[i] : NULL);
+            if (v)
+                Jsi_DecrRefCount(interp, v);
+        }
+        Jsi_ObjSetLength(interp, obj, curlen);
+        i = curlen;
+    }
+    for (; i<curlen; i++)
+        if (arr[i])
+            Jsi_DecrRefCount(interp, arr[i]);
+    Jsi_Free(arr);
+    if (interp->deleting)
+        return JSI_ERROR;
     if (hasopt)
         Jsi_OptionsFree(interp, jsi_ArraySortOptions, &si, 0);
     if (si.rc != JSI_OK) {
-- 
2.43.0


From 9a72a4556fa7e3a99a499b7d80ce60d8f9abd799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:57 +0000
Subject: [PATCH 024/226] fix: an exception thrown by a getter was lost and the
 property read as undefined

---
 src/jsiEval.c  | 10 ++++++++--
 src/jsiInt.h   |  1 +
 src/jsiValue.c |  1 +
 3 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/jsiEval.c b/src/jsiEval.c
index 3c0599f..1346ae4 100644
--- a/src/jsiEval.c
+++ b/src/jsiEval.c
@@ -1006,8 +1006,14 @@ static Jsi_RC jsiEvalSubscript(Jsi_Interp *interp, Jsi_Value *src, Jsi_Value *id
     if (rc != JSI_OK)
         return rc;
     Jsi_Value res = VALINIT, 
-        *resPtr = &res,
-        *vp = jsi_ValueSubscript(interp, src, idx, &resPtr, right_val);
+        *resPtr = &res, *vp;
+    interp->getterFail = 0;
+    vp = jsi_ValueSubscript(interp, src, idx, &resPtr, right_val);
+    if (!vp && interp->getterFail) {
+        interp->getterFail = 0;
+        Jsi_ValueMakeUndef(interp, &src);
+        return JSI_ERROR;
+    }
     if (!vp && bsc == 0) {
         /* eg. so we can list available commands for  "db.xx()" */
         if (idx->vt == JSI_VT_STRING)
diff --git a/src/jsiInt.h b/src/jsiInt.h
index 985c034..38ab72b 100644
--- a/src/jsiInt.h
+++ b/src/jsiInt.h
@@ -1272,6 +1272,7 @@ struct Jsi_Interp {
     Jsi_Obj* allObjs;
     Jsi_Value* allValues, *udata;
     Jsi_HashEntry *hPtrGet;
+    bool getterFail;    /* Getter call failed during lookup. */
     Jsi_Value *busyCallback;
     const char *confFile;
     int busyInterval;
diff --git a/src/jsiValue.c b/src/jsiValue.c
index e9ac48f..74c3507 100644
--- a/src/jsiValue.c
+++ b/src/jsiValue.c
@@ -1010,6 +1010,7 @@ static Jsi_Value *jsi_ValueLookupBase(Jsi_Interp *interp, Jsi_Value *target, Jsi
                 return v;
             }
             //else Jsi_DecrRefCount(interp, vres);
+            interp->getterFail = 1;
             return NULL;
         }
         
-- 
2.43.0


From ffc48262269bef9a8acc792fcfb443c9aad04e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:16 +0000
Subject: [PATCH 025/226] fix: ++ and -- on a property with a setter called the
 setter with the wrong this, also after an unrelated subscript

---
 src/jsiEval.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/jsiEval.c b/src/jsiEval.c
index 1346ae4..e5fa49a 100644
--- a/src/jsiEval.c
+++ b/src/jsiEval.c
@@ -1159,6 +1159,7 @@ Jsi_RC jsiEvalCodeSub(jsi_Pstate *ps, Jsi_OpCodes *opcodes,
     jsi_TryList  *trylist = NULL;
     jsi_Frame *fp = interp->framePtr;
     Jsi_HashEntry *hPtrGet = NULL;
+    Jsi_Value *getThis = NULL;  // Object hPtrGet came from.
     bool strict = !interp->noCheck;
     const char *curFile = NULL, *throwStr;
     
@@ -1324,9 +1325,14 @@ Jsi_RC jsiEvalCodeSub(jsi_Pstate *ps, Jsi_OpCodes *opcodes,
             }
             case OP_SUBSCRIPT: {
                 jsiVarDeref(interp,2);
+                Jsi_Value *src = (_jsi_TOQ->vt == JSI_VT_OBJECT && (_jsi_TOQ->d.obj->getters || _jsi_TOQ->d.obj->clearProto) ? Jsi_ValueDup(interp, _jsi_TOQ) : NULL);
+                interp->hPtrGet = NULL;
                 rc = jsiEvalSubscript(interp, _jsi_TOQ, _jsi_TOP, ip, end, currentScope);
                 jsiPop(interp, 1);
                 hPtrGet = interp->hPtrGet;
+                if (getThis)
+                    Jsi_DecrRefCount(interp, getThis);
+                getThis = src;
                 break;
             }
             case OP_ASSIGN: {
@@ -1773,9 +1779,12 @@ Jsi_RC jsiEvalCodeSub(jsi_Pstate *ps, Jsi_OpCodes *opcodes,
                 }
                 if (hPtrGet) {
                     // Re-update after modifying a primative from "get()".
-                    Jsi_Value *v2 = (fp->Sp>1?_jsi_TOQ:_jsi_TOP);
-                    jsi_SetterCall(interp, hPtrGet, v, v2, 0);
+                    if (rc == JSI_OK && getThis)
+                        rc = jsi_SetterCall(interp, hPtrGet, v, getThis, 0);
                     hPtrGet = NULL;
+                    if (getThis)
+                        Jsi_DecrRefCount(interp, getThis);
+                    getThis = NULL;
                 }
                 break;
             }
@@ -2185,6 +2194,8 @@ undef_eval:
         ip++;
     }
 done:
+    if (getThis)
+        Jsi_DecrRefCount(interp, getThis);
     while (trylist) {
         JSI_RESTORE_SCOPE();
         pop_try(trylist);
-- 
2.43.0


From 71b5cfb4b947ad6f140be066d7589601e4fa75a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:43 +0000
Subject: [PATCH 026/226] fix: Object.values shared its elements with the
 object's properties

---
 src/jsiObj.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/jsiObj.c b/src/jsiObj.c
index 3010069..5c82139 100644
--- a/src/jsiObj.c
+++ b/src/jsiObj.c
@@ -128,9 +128,12 @@ static Jsi_RC ObjListifyValuesCallback(Jsi_Tree *tree, Jsi_TreeEntry *hPtr, void
     Jsi_Interp *interp = tree->opts.interp;
     Jsi_Obj *obj = (Jsi_Obj*)data;
     Jsi_Value *val = (Jsi_Value*)Jsi_TreeValueGet(hPtr);
-    if (!val || Jsi_ObjArrayAdd(interp, obj, val) != JSI_OK) 
+    if (!val)
         return JSI_ERROR;
-    return JSI_OK;
+    val = Jsi_ValueDup(interp, val);
+    Jsi_RC rc = Jsi_ObjArrayAdd(interp, obj, val);
+    Jsi_DecrRefCount(interp, val);
+    return rc;
 }
 
 Jsi_RC Jsi_ObjGetValues(Jsi_Interp *interp, Jsi_Obj *obj, Jsi_Value *outVal, Jsi_Value *_this)
-- 
2.43.0


From ce85f635d4330a35d43fd4e79d230d45a9734bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:23 +0000
Subject: [PATCH 027/226] fix: the in operator cut a fractional or large number
 key to an int

---
 src/jsiEval.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiEval.c b/src/jsiEval.c
index e5fa49a..887e587 100644
--- a/src/jsiEval.c
+++ b/src/jsiEval.c
@@ -1554,7 +1554,7 @@ Jsi_RC jsiEvalCodeSub(jsi_Pstate *ps, Jsi_OpCodes *opcodes,
                 Jsi_Value *vv;
                 Jsi_Obj *obj = v->d.obj;
                 if (!cp) {
-                    snprintf(nbuf, sizeof(nbuf), "%d", (int)nval);
+                    Jsi_NumberToString(interp, nval, nbuf, sizeof(nbuf));
                     cp = nbuf;
                 }
                 if (obj->arr) {
-- 
2.43.0


From 54f850f2fd9a4e03c79a4da71ca55f6a92cb5a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:30 +0000
Subject: [PATCH 028/226] fix: ++ and -- on an inherited property modified the
 prototype

---
 src/jsiEval.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/jsiEval.c b/src/jsiEval.c
index 887e587..5c80f42 100644
--- a/src/jsiEval.c
+++ b/src/jsiEval.c
@@ -962,6 +962,8 @@ static void jsiPushFunc(jsi_Pstate *ps, jsi_OpCode *ip, jsi_ScopeChain *scope, J
     jsiPush(interp,1);
 }
 
+static Jsi_RC jsi_ValueObjKeyAssign(Jsi_Interp *interp, Jsi_Value *target, Jsi_Value *keyval, Jsi_Value *value, int flag);
+
 static Jsi_RC jsiEvalSubscript(Jsi_Interp *interp, Jsi_Value *src, Jsi_Value *idx, jsi_OpCode *ip,  jsi_OpCode *end,
     Jsi_Value *currentScope)
 {
@@ -1038,6 +1040,20 @@ static Jsi_RC jsiEvalSubscript(Jsi_Interp *interp, Jsi_Value *src, Jsi_Value *id
         } else {
             if (vp == resPtr)
               return Jsi_LogError("bad eval");
+            if (obj && obj->__proto__ && !interp->hPtrGet && (ip[1].op == OP_INC || ip[1].op == OP_DEC)) {
+                // Modifying an inherited property creates an own one.
+                const char *keyStr = Jsi_ValueToString(interp, idx, NULL);
+                if (!Jsi_ValueObjLookup(interp, src, (char*)keyStr, 0)) {
+                    Jsi_Value *own;
+                    rc = jsi_ValueObjKeyAssign(interp, src, idx, vp, 0);
+                    if (rc == JSI_OK && (own = Jsi_ValueObjLookup(interp, src, (char*)keyStr, 0))) {
+                        Jsi_IncrRefCount(interp, own);
+                        own->f.bits.frozen = 0;
+                        Jsi_DecrRefCount(interp, vp);
+                        vp = own;
+                    }
+                }
+            }
             res.vt = JSI_VT_VARIABLE;
             res.d.lval = vp;
             if (ro)
-- 
2.43.0


From da472161fb89dc7cc260dbd97545af8928793578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:35 +0000
Subject: [PATCH 029/226] fix: a value copied from a frozen or readonly
 property could not be modified by ++ and --

---
 src/jsiValue.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/jsiValue.c b/src/jsiValue.c
index 74c3507..3b72d26 100644
--- a/src/jsiValue.c
+++ b/src/jsiValue.c
@@ -276,6 +276,7 @@ static void jsi_ValueCopyMove(Jsi_Interp *interp, Jsi_Value *to, Jsi_Value *from
             }
         }
         to->refCnt = ocnt;
+        to->f.bits.readonly = to->f.bits.frozen = 0; // These are of the property, not of its value.
         if (ovt)
             Jsi_DecrRefCount(interp, ovt);
     } else {
-- 
2.43.0


From 3023744cac34aa5cc65cfda2de3dfb0fb0846b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:55 +0000
Subject: [PATCH 030/226] fix: Object.assign, merge and create shared property
 values with their source, and assign called setters without this

---
 src/jsiProto.c | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/jsiProto.c b/src/jsiProto.c
index 4bdf04c..af639ea 100644
--- a/src/jsiProto.c
+++ b/src/jsiProto.c
@@ -496,6 +496,15 @@ static Jsi_RC ObjectValueOfCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_
     return JSI_OK;
 }
 
+// Insert a copy of a property of another object.
+static Jsi_RC ObjectInsertCopy(Jsi_Interp *interp, Jsi_Obj *obj, Jsi_TreeEntry *tPtr, Jsi_Value *val, Jsi_Value *_this)
+{
+    Jsi_Value *v = Jsi_ValueDup(interp, val);
+    Jsi_RC rc = jsi_ObjValInsert(interp, obj, (const char *)Jsi_TreeKeyGet(tPtr), v, _this, 0, 0);
+    Jsi_DecrRefCount(interp, v);
+    return rc;
+}
+
 static Jsi_RC ObjectMergeCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
     Jsi_Value **ret, Jsi_Func *funcPtr)
 {
@@ -512,14 +521,14 @@ static Jsi_RC ObjectMergeCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_th
         tPtr && rc == JSI_OK; tPtr = Jsi_TreeSearchNext(&search)) {
         Jsi_Value *v = (Jsi_Value *)Jsi_TreeValueGet(tPtr);
         if (v && v->f.bits.dontenum == 0)
-            rc = Jsi_ObjInsert(interp, obj, (const char *)Jsi_TreeKeyGet(tPtr), v, 0);
+            rc = ObjectInsertCopy(interp, obj, tPtr, v, NULL);
     }
     Jsi_TreeSearchDone(&search);
     for (tPtr = Jsi_TreeSearchFirst(v->d.obj->tree, &search, 0, NULL);
         tPtr && rc == JSI_OK; tPtr = Jsi_TreeSearchNext(&search)) {
         Jsi_Value *v = (Jsi_Value *)Jsi_TreeValueGet(tPtr);
         if (v && v->f.bits.dontenum == 0)
-            rc = Jsi_ObjInsert(interp, obj, (const char *)Jsi_TreeKeyGet(tPtr), v, 0);
+            rc = ObjectInsertCopy(interp, obj, tPtr, v, NULL);
     }
     Jsi_TreeSearchDone(&search);
 
@@ -550,7 +559,7 @@ static Jsi_RC ObjectAssignCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_t
             tPtr && rc == JSI_OK; tPtr = Jsi_TreeSearchNext(&search)) {
             Jsi_Value *v2 = (Jsi_Value *)Jsi_TreeValueGet(tPtr);
             if (v2 && v2->f.bits.dontenum == 0)
-                rc = Jsi_ObjInsert(interp, obj, (const char *)Jsi_TreeKeyGet(tPtr), v2, 0);
+                rc = ObjectInsertCopy(interp, obj, tPtr, v2, v);
         }
         Jsi_TreeSearchDone(&search);
     }
@@ -660,7 +669,7 @@ static Jsi_RC ObjectCreateCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_t
             tPtr && rc == JSI_OK; tPtr = Jsi_TreeSearchNext(&search)) {
             Jsi_Value *v = (Jsi_Value *)Jsi_TreeValueGet(tPtr);
             if (v && v->f.bits.dontenum == 0)
-                rc = Jsi_ObjInsert(interp, obj, (const char *)Jsi_TreeKeyGet(tPtr), v, 0);
+                rc = ObjectInsertCopy(interp, obj, tPtr, v, NULL);
         }
         Jsi_TreeSearchDone(&search);
     }
-- 
2.43.0


From 596a8d0bc21d70384c0bf00ff92bddef3e0e42f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:06 +0000
Subject: [PATCH 031/226] fix: case conversion dropped a non-ASCII character at
 the end of a string

---
 src/jsiString.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiString.c b/src/jsiString.c
index c8bd24d..bf50999 100644
--- a/src/jsiString.c
+++ b/src/jsiString.c
@@ -401,7 +401,7 @@ char *jsi_utf_tocase(const char *cp, int blen, int upper, Jsi_DString *dsPtr)
             int32_t c;
             Jsi_UtfToUniChar(cp, &c);
             int n = Jsi_UniCharToUtf(c, unibuf);
-            if ((m+n)>=blen)
+            if ((m+n)>blen)
                 break;
             unibuf[n] = 0;
             cp += n;
-- 
2.43.0


From c91a88c3f2d19abd7782765f1f8ced9ea39a781d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:57 +0000
Subject: [PATCH 032/226] fix: substr and substring counted bytes in non-ASCII
 strings, wrapped a start before the beginning and never ended on an empty
 string

---
 src/jsiChar.c   |  7 ++++---
 src/jsiString.c |  4 +---
 src/jsiUtf8.c   | 11 +++++------
 3 files changed, 10 insertions(+), 12 deletions(-)

diff --git a/src/jsiChar.c b/src/jsiChar.c
index 25457a0..75f91ab 100644
--- a/src/jsiChar.c
+++ b/src/jsiChar.c
@@ -86,7 +86,8 @@ empty:
     
     if (alen<0)
         alen = Jsi_Strlen(a);
-    while (start < 0) start += alen;
+    if (start < 0 && (start += alen) < 0)
+        start = 0;
     if (start >= alen) goto empty;
     
     int maxcpy = alen - start;
@@ -98,8 +99,8 @@ empty:
     
     char *r = (char*)Jsi_Malloc(maxcpy + 2);
 
-    Jsi_Strncpy(r, a + start, maxcpy + 1);
-    r[maxcpy + 1] = 0;
+    memcpy(r, a + start, maxcpy);
+    r[maxcpy] = 0;
     *olen = maxcpy;
     return r;
 }
diff --git a/src/jsiString.c b/src/jsiString.c
index bf50999..f5016bb 100644
--- a/src/jsiString.c
+++ b/src/jsiString.c
@@ -143,8 +143,6 @@ static Jsi_RC StringSubstrCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_t
             ostr = jsi_SubstrDup(v, bLen, istart, ilen, &olen);
             Jsi_ValueMakeBlob(interp, ret, (uchar*)ostr, olen);
         } else {
-            if (ilen>(bLen-istart))
-                ilen = (bLen-istart);
             Jsi_UtfSubstr(v, bLen, istart, ilen, &dStr);
             Jsi_ValueFromDS(interp, &dStr, ret);
         }
@@ -167,7 +165,7 @@ static Jsi_RC StringSubstringCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value
         Jsi_ValueMakeStringDup(interp, ret, v);
         return JSI_OK;
     }
-    int istart = (int)nstart, olen = -1;
+    int istart = (nstart < 0 ? 0 : (int)nstart), olen = -1;
     Jsi_DString dStr;
     Jsi_DSInit(&dStr);
     char *ostr;
diff --git a/src/jsiUtf8.c b/src/jsiUtf8.c
index c7e3b05..4d1c4fc 100644
--- a/src/jsiUtf8.c
+++ b/src/jsiUtf8.c
@@ -97,13 +97,14 @@ char* Jsi_UtfSubstr(const char *str, int bLen, int n, int len, Jsi_DString *dStr
         int lenofa = Jsi_NumUtfChars(str, -1);
         if (lenofa<=0)
             return Jsi_DSValue(dStr);
-        while (n < 0) n += lenofa;
+        if ((n += lenofa) < 0)
+            n = 0;
     }
 #if !JSI__UTF8
     ustart = n;
     ulen = len;
 #else
-    int m, e, l;
+    int m, e;
     ulen = ustart = 0;
     m = Jsi_UtfIndexToOffset(str, n);
     if (m>=0) {
@@ -112,11 +113,9 @@ char* Jsi_UtfSubstr(const char *str, int bLen, int n, int len, Jsi_DString *dStr
             ulen = Jsi_Strlen(str+m);
         } else {
             e = Jsi_UtfIndexToOffset(str+m, len);
-            l = Jsi_NumUtfBytes(str[m]);
-            if (l<0) l = 1;
-            if (e>=0 && l>0) {
+            if (e>=0) {
                 ustart = m;
-                ulen = e+l-1;
+                ulen = e;
             }
         }
     }
-- 
2.43.0


From b00b75e117bc4f77f8ed7ba9e2e1beb864f03325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:57 +0000
Subject: [PATCH 033/226] fix: slice with a start past the end returned the
 last character, and counted bytes from the end of a non-ASCII string

---
 src/jsiString.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/jsiString.c b/src/jsiString.c
index f5016bb..2931f32 100644
--- a/src/jsiString.c
+++ b/src/jsiString.c
@@ -553,7 +553,7 @@ static Jsi_RC StringSliceCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_th
 
     Jsi_Value *start = Jsi_ValueArrayIndex(interp, args, skip);
     Jsi_Value *end = Jsi_ValueArrayIndex(interp, args, 1+skip);
-    int istart, iend, len = Jsi_Strlen(vstr);
+    int istart, iend, len = sLen;
 
     if (Jsi_GetIntFromValue(interp, start, &istart)) {
         return JSI_ERROR;
@@ -562,8 +562,8 @@ static Jsi_RC StringSliceCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_th
         istart = len+istart;
     if (istart < 0)
         istart = 0;
-    if (istart>=len)
-        istart = len-1;
+    if (istart>len)
+        istart = len;
     iend = len;
     if (end) {
         if (Jsi_GetIntFromValue(interp, end, &iend)) {
-- 
2.43.0


From 81006ec6259a734f88678514b43a25d26b938a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:41 +0000
Subject: [PATCH 034/226] fix: indexOf, lastIndexOf and search counted bytes in
 non-ASCII strings, lastIndexOf searched after its start, repeat rejected an
 empty string

---
 src/jsiString.c | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/jsiString.c b/src/jsiString.c
index 2931f32..d8802a8 100644
--- a/src/jsiString.c
+++ b/src/jsiString.c
@@ -207,12 +207,12 @@ static Jsi_RC StringRepeatCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_t
     Jsi_Value *start = Jsi_ValueArrayIndex(interp, args, skip);
     
     Jsi_Number ncnt;
-    if (!start || Jsi_GetNumberFromValue(interp,start, &ncnt) != JSI_OK || ncnt>MAX_LOOP_COUNT || ncnt<0 || bLen<=0) {
+    if (!start || Jsi_GetNumberFromValue(interp,start, &ncnt) != JSI_OK || ncnt>MAX_LOOP_COUNT || ncnt<0) {
         return Jsi_LogError("count out of range");;
     }
     int cnt = (int)ncnt;
     Jsi_DString dStr = {};
-    while (cnt-- > 0) {
+    while (bLen > 0 && cnt-- > 0) {
         if ((Jsi_DSLength(&dStr)+bLen)>=JSI_MAX_ALLOC_BUF) {
             Jsi_DSFree(&dStr);
             return Jsi_LogError("too long");
@@ -247,7 +247,9 @@ static Jsi_RC StringIndexOfCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_
         if (istart < 0) istart = 0;
     }
 
-    int r = Jsi_Strpos(v, istart, vseq, 0);
+    int r = -1;
+    if (istart <= sLen && (r = Jsi_Strpos(v, Jsi_UtfIndexToOffset(v, istart), vseq, 0)) > 0)
+        r = Jsi_NumUtfChars(v, r);
     Jsi_ValueMakeNumber(interp, ret, r);
 
     return JSI_OK;
@@ -499,15 +501,21 @@ static Jsi_RC StringLastIndexOfCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Valu
     }
 
     const char *vseq = Jsi_ValueToString(interp, seq, NULL);
-    int istart = 0;
+    int istart = sLen;
     if (start) {
         if (Jsi_GetIntFromValue(interp, start, &istart)) {
             return JSI_ERROR;
         }
         if (istart < 0) istart = 0;
+        if (istart > sLen) istart = sLen;
     }
 
-    int r = Jsi_Strrpos(v, istart, vseq, 0);
+    // Last occurrence starting at or before the start.
+    int r, vlen = Jsi_Strlen(vseq);
+    for (r = Jsi_UtfIndexToOffset(v, istart); r>=0; r--)
+        if (!Jsi_Strncmp(v+r, vseq, vlen)) break;
+    if (r > 0)
+        r = Jsi_NumUtfChars(v, r);
     Jsi_ValueMakeNumber(interp, ret, r);
 
     return JSI_OK;;
@@ -890,14 +898,14 @@ static Jsi_RC StringSearchCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_t
     const char *source_str;
     ChkString(_this, funcPtr, source_str, &sLen, &bLen);
     
-    char *v = _this->d.obj->d.s.str;
+    const char *v = source_str;
     Jsi_Value *seq = Jsi_ValueArrayIndex(interp, args, skip);
 
     if (Jsi_ValueIsString(interp, seq)) {
         char *ce, *cp = Jsi_ValueString(interp, seq, NULL);
         int n = -1;
         if ((ce = Jsi_Strstr(source_str, cp))) {
-            n = (ce-source_str);
+            n = Jsi_NumUtfChars(source_str, ce-source_str);
         }
         Jsi_ValueMakeNumber(interp, ret, n);
         return JSI_OK;
@@ -925,7 +933,7 @@ static Jsi_RC StringSearchCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_t
         }
 
     }
-    Jsi_ValueMakeNumber(interp, ret, (Jsi_Number)pos[0].rm_so);
+    Jsi_ValueMakeNumber(interp, ret, (Jsi_Number)Jsi_NumUtfChars(v, pos[0].rm_so));
     return JSI_OK;
 }
 
-- 
2.43.0


From e75c397fc00e33685a8291e9f439a8d1eeb3915e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:54 +0000
Subject: [PATCH 035/226] fix: exec and match misnumbered groups when one was
 empty, unmatched or equal to its predecessor; exec looped without g, shared
 lastIndex between expressions and let ^ match after it

---
 src/jsiInt.h    |   3 +-
 src/jsiRegexp.c | 113 ++++++++++++++++++++++++++++++------------------
 2 files changed, 73 insertions(+), 43 deletions(-)

diff --git a/src/jsiInt.h b/src/jsiInt.h
index 38ab72b..4efb97e 100644
--- a/src/jsiInt.h
+++ b/src/jsiInt.h
@@ -1349,7 +1349,6 @@ struct Jsi_Regex_ {
     int eflags;
     int flags;
     char *pattern;
-    int lastIndex;
 };
 
 
@@ -1546,6 +1545,8 @@ extern Jsi_RC jsi_AliasInvoke(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_t
 extern Jsi_Number jsi_VersionNormalize(Jsi_Number ver, char *obuf, size_t osiz);
 extern const char* jsi_FuncGetCode(Jsi_Interp *interp, Jsi_Func *func, int *lenPtr);
 extern Jsi_RC jsi_RegExpMatches(Jsi_Interp *interp, Jsi_Value *pattern, const char *str, int slen, Jsi_Value *ret, int *ofs, bool match);
+extern int jsi_RegExec(Jsi_Regex *re, const char *str, int len, int at, regmatch_t *pos);
+extern int jsi_RegCharLen(const char *str);
 extern Jsi_RC Jsi_CleanValue(Jsi_Interp *interp, Jsi_Interp *tointerp, Jsi_Value *val, Jsi_Value **ret); //TODO: EXPORT
 extern void jsi_SysPutsCmdPrefix(Jsi_Interp *interp, jsi_LogOptions *popts,Jsi_DString *dStr, int* quote, const char **fnPtr);
 extern void jsi_DumpStackTrace(Jsi_Interp *interp);
diff --git a/src/jsiRegexp.c b/src/jsiRegexp.c
index 13db680..35091c9 100644
--- a/src/jsiRegexp.c
+++ b/src/jsiRegexp.c
@@ -213,6 +213,41 @@ Jsi_RC Jsi_RegExpMatch(Jsi_Interp *interp, Jsi_Value *pattern, const char *v, in
 
 
 
+// Match from byte offset at of str: what precedes it is the context of anchors. Offsets in pos[MAX_SUBREGEX] count from str.
+int jsi_RegExec(Jsi_Regex *re, const char *str, int len, int at, regmatch_t *pos)
+{
+#ifdef REG_STARTEND
+    pos[0].rm_so = at;
+    pos[0].rm_eo = len;
+    return regexec(&re->reg, str, MAX_SUBREGEX, pos, REG_STARTEND);
+#else
+    int i, r, bol = (at==0 || ((re->eflags&JSI_REG_NEWLINE) && str[at-1]=='\n'));
+    r = regexec(&re->reg, str+at, MAX_SUBREGEX, pos, bol?0:REG_NOTBOL);
+    for (i=0; r==0 && i<MAX_SUBREGEX; i++)
+        if (pos[i].rm_so >= 0) {
+            pos[i].rm_so += at;
+            pos[i].rm_eo += at;
+        }
+    return r;
+#endif
+}
+
+// Bytes in the character at str, counting the terminating null as one.
+int jsi_RegCharLen(const char *str)
+{
+#if JSI__UTF8
+    int n = 1;
+    if ((uchar)*str >= 0xc0)
+        while (n<4 && ((uchar)str[n]&0xc0) == 0x80)
+            n++;
+    return n;
+#else
+    return 1;
+#endif
+}
+
+/* Get the match of pattern in str at or after byte offset *ofs (default 0), with groups (null when unmatched), or all
+ * matches if match is true and pattern is global. *ofs is set to the end of the match. */
 Jsi_RC jsi_RegExpMatches(Jsi_Interp *interp, Jsi_Value *pattern, const char *str, int n, Jsi_Value *ret, int *ofs, bool match)
 {
     Jsi_Regex *re;
@@ -227,12 +262,14 @@ Jsi_RC jsi_RegExpMatches(Jsi_Interp *interp, Jsi_Value *pattern, const char *str
     regex_t *reg = &re->reg;
     
     regmatch_t pos[MAX_SUBREGEX] = {};
-    int num_matches = 0, r;
-    int isglob = (re->eflags&JSI_REG_GLOB);
+    int num_matches = 0, r, i, at = (ofs?*ofs:0);
+    int isglob = (match && (re->eflags&JSI_REG_GLOB));
     Jsi_Obj *obj;
+    if (n<0)
+        n = Jsi_Strlen(str);
     
-    do {
-        r = regexec(reg, str, MAX_SUBREGEX, pos, regexec_flags);
+    while (at <= n) {
+        r = jsi_RegExec(re, str, n, at, pos);
 
         if (r >= REG_BADPAT) {
             char buf[JSI_BUFSIZ];
@@ -240,13 +277,8 @@ Jsi_RC jsi_RegExpMatches(Jsi_Interp *interp, Jsi_Value *pattern, const char *str
             regerror(r, reg, buf, sizeof(buf));
             return Jsi_LogError("error while matching pattern: %s", buf);
         }
-        if (r == REG_NOMATCH) {
-            if (num_matches == 0) {
-                Jsi_ValueMakeNull(interp, &ret);
-                return JSI_OK;
-            }
+        if (r == REG_NOMATCH)
             break;
-        }
 
         if (num_matches == 0) {
             obj = Jsi_ObjNewType(interp, JSI_OT_ARRAY);
@@ -255,34 +287,28 @@ Jsi_RC jsi_RegExpMatches(Jsi_Interp *interp, Jsi_Value *pattern, const char *str
             Jsi_ObjSetLength(interp, ret->d.obj, 0);
         }
     
-        int i;
-        for (i = 0; i < MAX_SUBREGEX; ++i) {
-            if (pos[i].rm_so <= 0 && pos[i].rm_eo <= 0)
-                break;
-            if (i && pos[i].rm_so == pos[i-1].rm_so && pos[i].rm_eo == pos[i-1].rm_eo)
-                continue;
-    
-            int olen = -1;
-            char *ostr = jsi_SubstrDup(str, -1, pos[i].rm_so, pos[i].rm_eo - pos[i].rm_so, &olen);
-            Jsi_Value *val = Jsi_ValueMakeBlob(interp, NULL, (uchar*)ostr, olen);
-            if (ofs)
-                *ofs = pos[i].rm_eo;
+        for (i = 0; i < MAX_SUBREGEX && i <= (isglob?0:(int)reg->re_nsub); ++i) {
+            Jsi_Value *val;
+            if (pos[i].rm_so < 0)
+                val = Jsi_ValueMakeNull(interp, NULL);
+            else {
+                int olen = -1;
+                char *ostr = jsi_SubstrDup(str, -1, pos[i].rm_so, pos[i].rm_eo - pos[i].rm_so, &olen);
+                val = Jsi_ValueMakeBlob(interp, NULL, (uchar*)ostr, olen);
+            }
             Jsi_ValueInsertArray(interp, ret, num_matches, val, 0);
             num_matches++;
-            if ( match && isglob)
-                break;
         }
-        if (num_matches && match && !isglob)
-            return JSI_OK;
-        if (num_matches == 1 && (ofs || !isglob))
+        at = pos[0].rm_eo;
+        if (!isglob)
             break;
-        
-        str += pos[0].rm_eo;
-        n -= pos[0].rm_eo;
-
-        regexec_flags |= REG_NOTBOL;
-    } while (n && pos[0].rm_eo>0);
-    
+        if (pos[0].rm_eo == pos[0].rm_so) // Step over a character after an empty match.
+            at += jsi_RegCharLen(str+at);
+    }
+    if (num_matches == 0)
+        Jsi_ValueMakeNull(interp, &ret);
+    else if (ofs)
+        *ofs = at;
     return JSI_OK;
 }
 
@@ -316,18 +342,21 @@ static Jsi_RC RegexpExecCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_thi
         l = Jsi_ValueObjLookup(interp, v, "lastIndex", 0);
         if (l && (Jsi_ValueGetNumber(interp, l, &lv) != JSI_OK || !Jsi_NumberIsNormal(lv))) 
             return Jsi_LogError("lastIndex not a number");
-        if (l)
-            re->lastIndex = (int)lv;
     }
-    int ofs = 0;
-    Jsi_RC rc = jsi_RegExpMatches(interp, v, re->lastIndex<slen?str+re->lastIndex:"", -1, *ret, isglob?&ofs:NULL, 0);
+    // The lastIndex counts characters, and belongs to the object: re is shared by all with the same source.
+    int ofs = 0, blen = Jsi_Strlen(str);
+    Jsi_RC rc = JSI_OK;
+    if (lv > (Jsi_Number)Jsi_NumUtfChars(str, blen))
+        Jsi_ValueMakeNull(interp, ret);
+    else {
+        if (lv > 0)
+            ofs = Jsi_UtfIndexToOffset(str, (int)lv);
+        rc = jsi_RegExpMatches(interp, v, str, blen, *ret, &ofs, 0);
+    }
     if (isglob) {
         if (rc != JSI_OK)
             return rc;
-        re->lastIndex += ofs;
-        if (Jsi_ValueIsNull(interp, *ret))
-            re->lastIndex = 0;
-        lv = (Jsi_Number)re->lastIndex;
+        lv = (Jsi_ValueIsNull(interp, *ret) ? 0 : (Jsi_Number)Jsi_NumUtfChars(str, ofs));
         if (!l)
             Jsi_ValueInsert(interp, v, "lastIndex", Jsi_ValueNewNumber(interp, lv), JSI_OM_DONTDEL);
         else if (l->vt == JSI_VT_NUMBER)
-- 
2.43.0


From df55a1ef688325b886d9461733e39edadf4d66cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:02 +0000
Subject: [PATCH 036/226] fix: replace of a regular expression stopped at an
 empty match, gave wrong $' and $` texts and byte offsets, and ended a
 trailing $ with a NUL

---
 src/jsiString.c | 76 ++++++++++++-------------------------------------
 1 file changed, 18 insertions(+), 58 deletions(-)

diff --git a/src/jsiString.c b/src/jsiString.c
index d8802a8..dde7396 100644
--- a/src/jsiString.c
+++ b/src/jsiString.c
@@ -655,15 +655,12 @@ static Jsi_RC StringReplaceCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_
     int source_len, bLen;
     const char *replace_str = NULL;
     int replace_len;
-    int regexec_flags = 0;
     Jsi_Value *seq, *strVal;
     Jsi_DString dStr = {}, eStr = {};
-    regex_t *regex;
     Jsi_Regex *re;
-    const char *p;
     int maxArgs = 1;
 
-    int offset = 0, n, j, isglob = 0, num_matches = 0;
+    int at = 0, j, isglob = 0, num_matches = 0;
     /* Is a generic  String.replace if _this->d.obj is a function */
     ChkString(_this, funcPtr, source_str, &source_len, &bLen);
     source_len = bLen;
@@ -721,29 +718,10 @@ static Jsi_RC StringReplaceCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_
     }
 
     re = seq->d.obj->d.robj;
-    regex = &re->reg;
     isglob = (re->eflags & JSI_REG_GLOB);
     
     regmatch_t pmatch[MAX_SUBREGEX] = {};
-    /* If an offset has been specified, adjust for that now.
-     * If it points past the end of the string, point to the terminating null
-     */
-    int eoffset=0;
-    if (offset) {
-        if (offset < 0) {
-            offset += source_len + 1;
-        }
-        if (offset > source_len) {
-            offset = source_len;
-        }
-        else if (offset < 0) {
-            offset = 0;
-        }
-    }
-
-    Jsi_DSAppendLen(&dStr, source_str, offset);
-    n = source_len - offset;
-    p = source_str + offset;
+    const char *p = source_str; /* What is left to copy */
     Jsi_RC rc = JSI_OK;
     do {
         if (num_matches > 10000000) {
@@ -751,12 +729,12 @@ static Jsi_RC StringReplaceCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_
             rc = JSI_ERROR;
             break;
         }
-        int match = regexec(regex, p, MAX_SUBREGEX, pmatch, regexec_flags);
+        int match = jsi_RegExec(re, source_str, source_len, at, pmatch);
 
         if (match >= REG_BADPAT) {
             char buf[JSI_MAX_NUMBER_STRING];
 
-            regerror(match, regex, buf, sizeof(buf));
+            regerror(match, &re->reg, buf, sizeof(buf));
             Jsi_LogError("error while matching pattern: %s", buf);
             Jsi_DSFree(&dStr);
             return JSI_ERROR;
@@ -765,7 +743,7 @@ static Jsi_RC StringReplaceCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_
             break;
         }
         num_matches++;
-        Jsi_DSAppendLen(&dStr, p, pmatch[0].rm_so);
+        Jsi_DSAppendLen(&dStr, p, pmatch[0].rm_so-(p-source_str));
 
         if (replace_str &&  !Jsi_Strchr(replace_str, '$'))
             Jsi_DSAppend(&dStr, replace_str, NULL);
@@ -774,7 +752,7 @@ static Jsi_RC StringReplaceCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_
                 int idx;
                 int c = replace_str[j];
      
-                if (c == '$' && j < replace_len) {
+                if (c == '$' && j < replace_len-1) {
                     c = replace_str[++j];
                     if ((c >= '0') && (c <= '9')) {
                         idx = c - '0';
@@ -785,11 +763,11 @@ static Jsi_RC StringReplaceCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_
                         continue;
                     }
                     else if (c == '\'') {
-                        Jsi_DSAppendLen(&dStr, p + pmatch[0].rm_eo, pmatch[0].rm_eo-Jsi_Strlen(p));
+                        Jsi_DSAppendLen(&dStr, source_str + pmatch[0].rm_eo, -1);
                         continue;
                     }
                     else if (c == '`') {
-                        Jsi_DSAppendLen(&dStr, p, pmatch[0].rm_so);
+                        Jsi_DSAppendLen(&dStr, source_str, pmatch[0].rm_so);
                         continue;
                     }
                     else {
@@ -801,7 +779,7 @@ static Jsi_RC StringReplaceCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_
                      continue;
                 }
                 if ((idx < MAX_SUBREGEX) && pmatch[idx].rm_so != -1 && pmatch[idx].rm_eo != -1) {
-                    Jsi_DSAppendLen(&dStr, p + pmatch[idx].rm_so,
+                    Jsi_DSAppendLen(&dStr, source_str + pmatch[idx].rm_so,
                         pmatch[idx].rm_eo - pmatch[idx].rm_so);
                 }
             }
@@ -809,10 +787,8 @@ static Jsi_RC StringReplaceCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_
         } else {
             Jsi_DString sStr;
             Jsi_DSInit(&sStr); 
-            if (pmatch[0].rm_so <= 0 && pmatch[0].rm_eo <= 0)
-                break;
             int olen = -1;
-            char *ostr = jsi_SubstrDup(p, -1, pmatch[0].rm_so, pmatch[0].rm_eo - pmatch[0].rm_so, &olen);
+            char *ostr = jsi_SubstrDup(source_str, -1, pmatch[0].rm_so, pmatch[0].rm_eo - pmatch[0].rm_so, &olen);
             Jsi_Value *inStr = Jsi_ValueMakeBlob(interp, NULL, (uchar*)ostr, olen);
             Jsi_DSFree(&sStr);
             Jsi_IncrRefCount(interp, inStr);
@@ -833,11 +809,11 @@ static Jsi_RC StringReplaceCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_
                     if (pmatch[i].rm_so<0)
                         items[i] = interp->NullValue;
                     else {
-                        ostr = jsi_SubstrDup(p, -1, pmatch[i].rm_so, pmatch[i].rm_eo - pmatch[i].rm_so, &olen);
+                        ostr = jsi_SubstrDup(source_str, -1, pmatch[i].rm_so, pmatch[i].rm_eo - pmatch[i].rm_so, &olen);
                         items[i] = Jsi_ValueMakeBlob(interp, NULL, (uchar*)ostr, olen);
                     }
                 }
-                items[i++] = Jsi_ValueMakeNumber(interp, NULL, eoffset+pmatch[0].rm_so);
+                items[i++] = Jsi_ValueMakeNumber(interp, NULL, (Jsi_Number)Jsi_NumUtfChars(source_str, pmatch[0].rm_so));
                 items[i++] = strVal;
                 vpargs = Jsi_ValueMakeObject(interp, NULL, Jsi_ObjNewArray(interp, items, i, 0));
                 Jsi_IncrRefCount(interp, vpargs);
@@ -857,28 +833,12 @@ static Jsi_RC StringReplaceCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_
             }
             Jsi_DecrRefCount(interp, inStr);
         }
-        eoffset += pmatch[0].rm_eo;
-        p += pmatch[0].rm_eo;
-        n -= pmatch[0].rm_eo;
-        /* If -all is not specified, or there is no source left, we are done */
-        if (!isglob || n == 0 || pmatch[0].rm_eo == 0) {
-            break;
-        }
-        /* An anchored pattern without -line must be done */
-        if ((re->eflags & JSI_REG_NEWLINE) == 0 && re->pattern[0] == '^') {
-            break;
-        }
-        
-        /* If the pattern is empty, need to step forwards */
-        if (re->pattern[0] == '\0' && n) {
-            /* Need to copy the char we are moving over */
-            Jsi_DSAppendLen(&dStr, p, 1);
-            p++;
-            n--;
-        }
-
-        regexec_flags |= REG_NOTBOL;
-    } while (n);
+        at = pmatch[0].rm_eo;
+        p = source_str + at;
+        /* If the match is empty, need to step forwards */
+        if (pmatch[0].rm_eo == pmatch[0].rm_so)
+            at += jsi_RegCharLen(p);
+    } while (isglob && at <= source_len);
 
     /*
      * Copy the portion of the string after the last match to the
-- 
2.43.0


From 2e7a7c2dfc2ee02a8bfa0f841e7ce09ec1d7c605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:33 +0000
Subject: [PATCH 037/226] fix: replace of a string by a function passed it the
 whole string instead of the match, its offset and the string

---
 src/jsiString.c | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/jsiString.c b/src/jsiString.c
index dde7396..79492c3 100644
--- a/src/jsiString.c
+++ b/src/jsiString.c
@@ -694,17 +694,27 @@ static Jsi_RC StringReplaceCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_
                 }
                 Jsi_DSAppendLen(&dStr, replace_str, replace_len);
             } else {
-                Jsi_Value *inStr = Jsi_ValueNewStringDup(interp, source_str);
-                Jsi_IncrRefCount(interp, inStr);
-                Jsi_RC rc = Jsi_FunctionInvokeString(interp, repVal, inStr, &dStr, _this);
+                Jsi_Value *vpargs, *items[3], *ret = Jsi_ValueNew1(interp);
+                int icnt = 0;
+                items[icnt++] = Jsi_ValueNewStringDup(interp, cp);
+                if (maxArgs != 1) {
+                    items[icnt++] = Jsi_ValueNewNumber(interp, (Jsi_Number)Jsi_NumUtfChars(source_str, slen));
+                    items[icnt++] = strVal;
+                }
+                vpargs = Jsi_ValueMakeObject(interp, NULL, Jsi_ObjNewArray(interp, items, icnt, 0));
+                Jsi_IncrRefCount(interp, vpargs);
+                Jsi_RC rc = Jsi_FunctionInvoke(interp, repVal, vpargs, &ret, _this);
                 if (Jsi_InterpGone(interp))
                     return JSI_ERROR;
+                Jsi_DecrRefCount(interp, vpargs);
+                if (rc == JSI_OK)
+                    Jsi_DSAppend(&dStr, Jsi_ValueToString(interp, ret, NULL), NULL);
+                Jsi_DecrRefCount(interp, ret);
                 if (rc != JSI_OK) {
                     Jsi_DSFree(&dStr);
-                    Jsi_DecrRefCount(interp, inStr);
+                    Jsi_DSFree(&eStr);
                     return JSI_ERROR;
                 }
-                Jsi_DecrRefCount(interp, inStr);
             }
             Jsi_DSAppend(&dStr, Jsi_DSValue(&eStr), NULL);
             Jsi_DSFree(&eStr);
-- 
2.43.0


From be82178041303601def09beae0013c9fc2d10787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:17 +0000
Subject: [PATCH 038/226] fix: a subnormal number had no text

---
 src/jsiValue.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jsiValue.c b/src/jsiValue.c
index 3b72d26..20e4314 100644
--- a/src/jsiValue.c
+++ b/src/jsiValue.c
@@ -468,7 +468,7 @@ char* Jsi_NumberToString(Jsi_Interp *interp, Jsi_Number d, char *buf, int bsiz)
 {
      if (Jsi_NumberIsInteger(d)) {
         Jsi_NumberItoA10((Jsi_Wide)d, buf, bsiz);
-    } else if (Jsi_NumberIsNormal(d)) {
+    } else if (Jsi_NumberIsNormal(d) || Jsi_NumberIsSubnormal(d)) {
         Jsi_NumberDtoA(interp, d, buf, bsiz, 0);
     } else if (Jsi_NumberIsNaN(d)) {
         Jsi_Strcpy(buf, "NaN");
@@ -514,7 +514,7 @@ fmtnum:
                 Jsi_NumberItoA10((Jsi_Wide)d, unibuf, sizeof(unibuf));
                 kflag = 0;
                 ntxt = unibuf;
-            } else if (Jsi_NumberIsNormal(d)) {
+            } else if (Jsi_NumberIsNormal(d) || Jsi_NumberIsSubnormal(d)) {
                 Jsi_NumberDtoA(interp, d, unibuf, sizeof(unibuf), 0);
                 kflag = 0;
                 ntxt = unibuf;
-- 
2.43.0


From a4fa46822178622c3122747e0e5ebb7fd7102d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:17 +0000
Subject: [PATCH 039/226] fix: Math.pow and atan2 gave NaN for infinite and
 subnormal results, round rounded negative halves down, min and max lost NaN

---
 src/jsiMath.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/jsiMath.c b/src/jsiMath.c
index 51d66c9..d2ed2c8 100644
--- a/src/jsiMath.c
+++ b/src/jsiMath.c
@@ -29,8 +29,7 @@ static Jsi_RC fname (Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,\
     Jsi_Number num2;\
     if (Jsi_GetNumberFromValue(interp, val2, &num2) != JSI_OK)\
         return JSI_ERROR;\
-    num2 = func (num1,num2); \
-    Jsi_ValueMakeNumber(interp, ret, (Jsi_NumberIsNormal(num2)? num2 : NAN));\
+    Jsi_ValueMakeNumber(interp, ret, func (num1,num2));\
     return JSI_OK;\
 }
 
@@ -49,7 +48,7 @@ static Jsi_RC MathMinCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
         if (i==0)
             n = num;
         else
-            n =  (num>n ? n : num);
+            n =  (num>n || Jsi_NumberIsNaN(n) ? n : num);
     }
     Jsi_ValueMakeNumber(interp, ret, n);
     return JSI_OK;
@@ -71,7 +70,7 @@ static Jsi_RC MathMaxCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
         if (i==0)
             n = num;
         else
-            n =  (num<n ? n : num);
+            n =  (num<n || Jsi_NumberIsNaN(n) ? n : num);
     }
     Jsi_ValueMakeNumber(interp, ret, n);
     return JSI_OK;
@@ -107,6 +106,13 @@ static Jsi_RC MathSrandCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this
     return JSI_OK;
 }
 
+// Halves round up, and from 2^52 on numbers are whole.
+static Jsi_Number jsi_MathRound(Jsi_Number n)
+{
+    Jsi_Number f = floor(n);
+    return (n-f >= 0.5 ? f+1 : f);
+}
+
 MFUNC1(MathAbsCmd,  fabs)
 MFUNC1(MathAcosCmd, acos)
 MFUNC1(MathAsinCmd, asin)
@@ -116,7 +122,7 @@ MFUNC1(MathCosCmd,  cos)
 MFUNC1(MathExpCmd,  exp)
 MFUNC1(MathFloorCmd,floor)
 MFUNC1(MathLogCmd,  log)
-MFUNC1(MathRoundCmd,round)
+MFUNC1(MathRoundCmd,jsi_MathRound)
 MFUNC1(MathSinCmd,  sin)
 MFUNC1(MathSqrtCmd, sqrt)
 MFUNC1(MathTanCmd,  tan)
-- 
2.43.0


From b316ab0cfedaec4b6c4ffcf05bcff2a931befb37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:52 +0000
Subject: [PATCH 040/226] fix: parseInt took a negative number or one after a
 space for NaN and overflowed, parseFloat rejected a number followed by text

---
 src/jsiCmds.c | 49 +++++++++++++++++++++++++++++++++++--------------
 1 file changed, 35 insertions(+), 14 deletions(-)

diff --git a/src/jsiCmds.c b/src/jsiCmds.c
index 58061ec..5bb8475 100644
--- a/src/jsiCmds.c
+++ b/src/jsiCmds.c
@@ -550,7 +550,6 @@ static Jsi_RC SysExitCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
 static Jsi_RC parseIntCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
     Jsi_Value **ret, Jsi_Func *funcPtr)
 {
-    Jsi_Wide w = 0;
     Jsi_Number d = 0;
 
     Jsi_Value *v = Jsi_ValueArrayIndex(interp, args, 0);
@@ -558,31 +557,45 @@ static Jsi_RC parseIntCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
     if (!v)
         return JSI_ERROR;
     char *eptr, *str = Jsi_ValueString(interp, v, NULL);
-    int base = 0;
+    int base = 10, neg = 0;
+    if (bv && (JSI_OK != Jsi_GetIntFromValue(interp, bv, &base) || base<2 || base>36))
+        return Jsi_LogError("base must be between 2 and 36");
     if (!str) {
         if (Jsi_ValueIsNumber(interp, v))
             Jsi_GetNumberFromValue(interp, v, &d);
         else
             goto nanval;
     }
-    else if (str[0] == '0' && str[1] == 'x')
-        d = (Jsi_Number)strtoll(str, &eptr, 16);
-    else if (str[0] == '0' && !bv)
-        d = (Jsi_Number)strtoll(str, &eptr, 8);
-    else if (base == 0 && !bv) {
-        if (Jsi_ValueToNumberInt(interp, v, 1, &d) != JSI_OK)
-          return JSI_ERROR;
-    } else {
-        if (str == NULL || JSI_OK != Jsi_GetIntFromValue(interp, bv, &base) || base<2 || base>36)
-            return JSI_ERROR;
+    else {
+        while (isspace((uchar)*str))
+            str++;
+        if (*str == '-' || *str == '+')
+            neg = (*str++ == '-');
+        if (str[0] == '0' && (str[1] == 'x' || str[1] == 'X') && (!bv || base==16)) {
+            base = 16;
+            str += 2;
+        } else if (str[0] == '0' && !bv)
+            base = 8;
+        if (!isalnum((uchar)*str))
+            goto nanval;
+        errno = 0;
         d = (Jsi_Number)strtoll(str, &eptr, base);
+        if (eptr == str)
+            goto nanval;
+        if (errno == ERANGE) {
+            long double ld = 0;
+            for (; str<eptr; str++)
+                ld = ld*base + (isdigit((uchar)*str) ? *str-'0' : tolower((uchar)*str)-'a'+10);
+            d = (Jsi_Number)ld;
+        }
+        if (neg)
+            d = -d;
     }
     if (Jsi_NumberIsNaN(d) || (Jsi_NumberIsFinite(d)==0 && Jsi_GetDoubleFromValue(interp, v, &d) != JSI_OK))
 nanval:
         Jsi_ValueDup2(interp, ret, interp->NaNValue);
     else {
-        w = (Jsi_Wide)d;
-        Jsi_ValueMakeNumber(interp, ret, (Jsi_Number)w);
+        Jsi_ValueMakeNumber(interp, ret, trunc(d));
     }
     return JSI_OK;
 }
@@ -592,6 +605,14 @@ static Jsi_RC parseFloatCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_thi
 {
     Jsi_Number n;
     Jsi_Value *v = Jsi_ValueArrayIndex(interp, args, 0);
+    char *eptr, *str = (v?Jsi_ValueString(interp, v, NULL):NULL);
+    if (str) {
+        n = strtod(str, &eptr);
+        if (eptr == str)
+            n = Jsi_NumberNaN();
+        Jsi_ValueMakeNumber(interp, ret, n);
+        return JSI_OK;
+    }
     Jsi_ValueToNumber(interp, v);
     if (Jsi_GetDoubleFromValue(interp, v, &n) != JSI_OK)
         Jsi_ValueDup2(interp, ret, interp->NaNValue);
-- 
2.43.0


From 2e6dbd2b32236e6508d49195090a0663cc3d669e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:52 +0000
Subject: [PATCH 041/226] fix: JSON.stringify gave null for subnormal numbers

---
 src/jsiUtils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiUtils.c b/src/jsiUtils.c
index 704bb71..51976eb 100644
--- a/src/jsiUtils.c
+++ b/src/jsiUtils.c
@@ -751,7 +751,7 @@ static Jsi_RC jsiValueGetString(Jsi_Interp *interp, Jsi_Value* v, Jsi_DString *d
         case JSI_VT_NUMBER:
             num = v->d.num;
 outnum:
-            if (isjson && !Jsi_NumberIsNormal(num)) {
+            if (isjson && !Jsi_NumberIsFinite(num)) {
                 Jsi_DSAppend(dStr, "null", NULL);
             } else if (Jsi_NumberIsInteger(num)) {
                 Jsi_NumberItoA10((Jsi_Wide)num, buf, sizeof(buf));
-- 
2.43.0


From 293e6093b203881afdd977d1eb7175f4a2c94a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:52 +0000
Subject: [PATCH 042/226] fix: toFixed and toExponential cut their result at
 100 characters

---
 src/jsiNumber.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/jsiNumber.c b/src/jsiNumber.c
index bbf9dac..6510d00 100644
--- a/src/jsiNumber.c
+++ b/src/jsiNumber.c
@@ -122,7 +122,7 @@ static Jsi_RC NumberConstructor(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *
 static Jsi_RC NumberToFixedCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
     Jsi_Value **ret, Jsi_Func *funcPtr)
 {
-    char buf[JSI_MAX_NUMBER_STRING+1];
+    char buf[JSI_MAX_NUMBER_STRING+DBL_MAX_10_EXP+10];
     int prec = 0, skip = 0;
     Jsi_Number num;
     Jsi_Value *v;
@@ -131,6 +131,7 @@ static Jsi_RC NumberToFixedCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_
     if (pa && Jsi_GetIntFromValue(interp, pa, &prec) != JSI_OK)
         return JSI_ERROR;
     if (prec<0) prec = 0;
+    if (prec>JSI_MAX_NUMBER_STRING) return Jsi_LogError("precision must be between 0 and %d", JSI_MAX_NUMBER_STRING);
     Jsi_GetDoubleFromValue(interp, v, &num);
     snprintf(buf, sizeof(buf), "%.*" JSI_NUMFFMT, prec, num);
     Jsi_ValueMakeStringDup(interp, ret, buf);
@@ -162,7 +163,7 @@ static Jsi_RC NumberToPrecisionCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Valu
 static Jsi_RC NumberToExponentialCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
     Jsi_Value **ret, Jsi_Func *funcPtr)
 {
-    char buf[JSI_MAX_NUMBER_STRING+1];
+    char buf[JSI_MAX_NUMBER_STRING+20];
     int prec = 0, skip = 0;
     Jsi_Number num;
     Jsi_Value *v;
@@ -170,6 +171,7 @@ static Jsi_RC NumberToExponentialCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Va
     if (Jsi_GetIntFromValue(interp, Jsi_ValueArrayIndex(interp, args, skip), &prec) != JSI_OK)
         return JSI_ERROR;
     if (prec<0) prec = 0;
+    if (prec>JSI_MAX_NUMBER_STRING) return Jsi_LogError("precision must be between 0 and %d", JSI_MAX_NUMBER_STRING);
     Jsi_GetDoubleFromValue(interp, v, &num);
     snprintf(buf, sizeof(buf), "%.*" JSI_NUMEFMT, prec, num);
 #ifdef __WIN32
-- 
2.43.0


From 788f91a46882fd76063f6d66278b2cf345d6e58e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:52 +0000
Subject: [PATCH 043/226] fix: toString with a radix showed negative numbers as
 two's complement and cut fractions for radix 10

---
 src/jsiNumber.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/jsiNumber.c b/src/jsiNumber.c
index 6510d00..afb6673 100644
--- a/src/jsiNumber.c
+++ b/src/jsiNumber.c
@@ -203,10 +203,13 @@ static Jsi_RC NumberToStringCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *
         return JSI_ERROR;
     if (argc==skip)
         return jsi_ObjectToStringCmd(interp, args, _this, ret, funcPtr);
+    const char *neg = (num<=-1?"-":"");
+    Jsi_Number mag = fabs(num);
+    if (!(mag < 18446744073709551616.0)) // NaN, infinite or too large.
+        radix = 10;
     switch (radix) {
-        case 16: snprintf(buf, sizeof(buf), "%" PRIx64, (Jsi_Wide)num); break;
-        case 8: snprintf(buf, sizeof(buf), "%" PRIo64, (Jsi_Wide)num); break;
-        case 10: snprintf(buf, sizeof(buf), "%" PRId64, (Jsi_Wide)num); break;
+        case 16: snprintf(buf, sizeof(buf), "%s%" PRIx64, neg, (Jsi_UWide)mag); break;
+        case 8: snprintf(buf, sizeof(buf), "%s%" PRIo64, neg, (Jsi_UWide)mag); break;
         default: return jsi_ObjectToStringCmd(interp, args, _this, ret, funcPtr);
     }
     Jsi_ValueMakeStringDup(interp, ret, buf);
-- 
2.43.0


From 1f9612035c58f67d45658ee65b103a83f855772e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:52 +0000
Subject: [PATCH 044/226] fix: a string with trailing whitespace was not a
 number

---
 src/jsiValue.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/jsiValue.c b/src/jsiValue.c
index 20e4314..3e89e2f 100644
--- a/src/jsiValue.c
+++ b/src/jsiValue.c
@@ -610,6 +610,8 @@ Jsi_RC Jsi_ValueToNumberInt(Jsi_Interp *interp, Jsi_Value *v, int isInt, Jsi_Num
 donum:
             if (!isInt) {
                 a = strtod(sptr, &endPtr);
+                while (endPtr && isspace((uchar)*endPtr))
+                    endPtr++;
                 if (endPtr && *endPtr) {
                     a = interp->NaNValue->d.num;
                 }
-- 
2.43.0


From 707c5a86f1e681d21916af616b0526de3c3a333f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:46 +0000
Subject: [PATCH 045/226] fix: 0e5 and a hexadecimal number ending in E before
 + or - were invalid, 0x8000000000000000 and above were cut to 2^63-1

---
 src/jsiLexer.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/jsiLexer.c b/src/jsiLexer.c
index f5fcecd..6aa6ac0 100644
--- a/src/jsiLexer.c
+++ b/src/jsiLexer.c
@@ -440,7 +440,7 @@ static int jsi_yylex (YYSTYPE *yylvalp, YYLTYPE *yyllocp, jsi_Lexer *lex)
                 digCnt++;
             if (isdig || c == '.' || toupper(c)=='P' || toupper(c)=='E'
                 || (toupper(c)=='X' && wi==1 && word[0] == '0')
-                || ((c == '-' || c == '+') && toupper(cpre)=='E')
+                || (base != 16 && (c == '-' || c == '+') && toupper(cpre)=='E')
                 || (base == 16 && isxdigit(c))) {
                 if (toupper(c)=='X')
                     base = 16;
@@ -455,8 +455,8 @@ static int jsi_yylex (YYSTYPE *yylvalp, YYLTYPE *yyllocp, jsi_Lexer *lex)
 
         if (word[0] == '0' && isdigit(word[1]) && base!=16)
             fval = (Jsi_Number)strtoll(word, &eptr, 8);
-        else if (word[0] == '0' && (digCnt+(base==16)) == wi)
-            fval = (Jsi_Number)strtoll(word, &eptr, base);
+        else if (base==16 && digCnt+1 == wi)
+            fval = (Jsi_Number)strtoull(word, &eptr, base);
         else
             fval = (Jsi_Number)strtod(word, &eptr);
         LOCATION_END(yyllocp, lex);
-- 
2.43.0


From 1b39805f85099c03ecb738b19e49174decc77395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:48 +0000
Subject: [PATCH 046/226] fix: (Infinity).toString() was +Infinity

---
 src/jsiNumber.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/jsiNumber.c b/src/jsiNumber.c
index afb6673..1d62307 100644
--- a/src/jsiNumber.c
+++ b/src/jsiNumber.c
@@ -201,8 +201,6 @@ static Jsi_RC NumberToStringCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *
     if (argc>skip && (Jsi_GetIntFromValue(interp, Jsi_ValueArrayIndex(interp, args, skip), &radix) != JSI_OK
         || radix<2))
         return JSI_ERROR;
-    if (argc==skip)
-        return jsi_ObjectToStringCmd(interp, args, _this, ret, funcPtr);
     const char *neg = (num<=-1?"-":"");
     Jsi_Number mag = fabs(num);
     if (!(mag < 18446744073709551616.0)) // NaN, infinite or too large.
@@ -210,7 +208,7 @@ static Jsi_RC NumberToStringCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *
     switch (radix) {
         case 16: snprintf(buf, sizeof(buf), "%s%" PRIx64, neg, (Jsi_UWide)mag); break;
         case 8: snprintf(buf, sizeof(buf), "%s%" PRIo64, neg, (Jsi_UWide)mag); break;
-        default: return jsi_ObjectToStringCmd(interp, args, _this, ret, funcPtr);
+        default: Jsi_NumberToString(interp, num, buf, sizeof(buf));
     }
     Jsi_ValueMakeStringDup(interp, ret, buf);
     return JSI_OK;
-- 
2.43.0


From 84efd2eecbb2a677134b3cdef1d869f01f0a6cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:16 +0000
Subject: [PATCH 047/226] fix: JSON.stringify wrote a stray comma for an
 undefined first property

---
 src/jsiUtils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiUtils.c b/src/jsiUtils.c
index 51976eb..aa35915 100644
--- a/src/jsiUtils.c
+++ b/src/jsiUtils.c
@@ -683,9 +683,9 @@ static Jsi_RC jsi_ObjectGetFmt(Jsi_Interp *interp, const char *key, Jsi_Value *v
 {
     Jsi_DString *dStr = ow->dStr;
     int isfmt = ow->quote&JSI_JSON_FORMAT;
-    ow->subcnt++;
     if ((ow->quote&JSI_OUTPUT_JSON) && v && v->vt == JSI_VT_UNDEF)
         return JSI_OK;
+    ow->subcnt++;
     if (ow->subcnt>1)
         Jsi_DSAppend(dStr, ", ", NULL);
     if (isfmt)
-- 
2.43.0


From 6106831b566f32641dc3b33358c4c49f6bdc1172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:16 +0000
Subject: [PATCH 048/226] fix: JSON.stringify wrote undefined for an array
 element

---
 src/jsiUtils.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/jsiUtils.c b/src/jsiUtils.c
index aa35915..67d9344 100644
--- a/src/jsiUtils.c
+++ b/src/jsiUtils.c
@@ -856,7 +856,9 @@ outstr:
                     nv = Jsi_ValueArrayIndex(interp, v, i);
                     if (i) Jsi_DSAppend(dStr,", ", NULL);
                     owPtr->depth++;
-                    if (nv) {
+                    if (isjson && (!nv || nv->vt == JSI_VT_UNDEF))
+                        Jsi_DSAppend(dStr, "null", NULL);
+                    else if (nv) {
                         if (jsiValueGetString(interp, nv, dStr, owPtr) != JSI_OK) {
                             owPtr->depth--;
                             return JSI_ERROR;
-- 
2.43.0


From 636caf5a1a6c70ac4c96f680874b45e0b74c00a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:44 +0000
Subject: [PATCH 049/226] fix: object keys were written without escaping quotes
 and control characters

---
 src/jsiUtils.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/jsiUtils.c b/src/jsiUtils.c
index 67d9344..ffb33b6 100644
--- a/src/jsiUtils.c
+++ b/src/jsiUtils.c
@@ -693,9 +693,18 @@ static Jsi_RC jsi_ObjectGetFmt(Jsi_Interp *interp, const char *key, Jsi_Value *v
     if (((ow->quote&JSI_OUTPUT_JSON) == 0 || (ow->quote&JSI_JSON_STRICT) == 0) && Jsi_StrIsAlnum(key)
         && !Jsi_HashEntryFind(interp->lexkeyTbl, key))
         Jsi_DSAppend(dStr, key, NULL);
-    else
+    else {
         /* JSON/spaces, etc requires quoting the name. */
-        Jsi_DSAppend(dStr, "\"", key, "\"", NULL);
+        int quote = ow->quote;
+        Jsi_Value *kv = Jsi_ValueNewStringKey(interp, key);
+        Jsi_IncrRefCount(interp, kv);
+        ow->quote |= JSI_OUTPUT_QUOTE;
+        Jsi_RC krc = jsiValueGetString(interp, kv, dStr, ow);
+        ow->quote = quote;
+        Jsi_DecrRefCount(interp, kv);
+        if (krc != JSI_OK)
+            return krc;
+    }
     Jsi_DSAppend(dStr, ":", NULL);
     Jsi_RC rc = jsiValueGetString(interp, v, dStr, ow);
     return rc;
-- 
2.43.0


From 0b6d98bf4126e4be18b8ba8cddbafc00b41cbfd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:44 +0000
Subject: [PATCH 050/226] fix: JSON.parse did not decode escapes in object keys

---
 src/jsiJSON.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/jsiJSON.c b/src/jsiJSON.c
index ff6a0da..e5f0465 100644
--- a/src/jsiJSON.c
+++ b/src/jsiJSON.c
@@ -124,6 +124,7 @@ jsonGenObject(Jsi_Interp *interp, Jsi_JsonParser *p, const char *js, uint pos, u
     for (i=pos+1, n=0; i<p->toknext && n<tok->size; i++, n++) {
 
         Jsi_DString dStr;
+        uint ki = i;
         t = Jsi_JsonGetTokstr(p, js, i, &len);
         i++; n++;
         if (!t || n>=tok->size)
@@ -131,7 +132,9 @@ jsonGenObject(Jsi_Interp *interp, Jsi_JsonParser *p, const char *js, uint pos, u
         else
             nv = jsonGen1Value(interp, p, js, i, &i, 0);
         Jsi_DSInit(&dStr);
-        if (t)
+        if (t && p->tokens[ki].type == JSI_JTYPE_STRING)
+            jsonNewDString(interp, &dStr, t, len);
+        else if (t)
             Jsi_DSAppendLen(&dStr, t, len);
         Jsi_ObjInsert(interp, obj, Jsi_DSValue(&dStr), nv, 0);
         Jsi_DSFree(&dStr);
-- 
2.43.0


From 23002d5672e9342baf643f42ec5e6f37646c7fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:44 +0000
Subject: [PATCH 051/226] fix: JSON.parse dropped \/ from strings

---
 src/jsiJSON.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/jsiJSON.c b/src/jsiJSON.c
index e5f0465..602abe2 100644
--- a/src/jsiJSON.c
+++ b/src/jsiJSON.c
@@ -18,6 +18,7 @@ static void jsonNewDString(Jsi_Interp *interp, Jsi_DString *dStr, const char* st
                 case 'r': *dp++ = '\r'; break;
                 case 'f': *dp++ = '\f'; break;
                 case 't': *dp++ = '\t'; break;
+                case '/': *dp++ = '/'; break;
                 case '\"': *dp++ = '\"'; break;
                 case '\\': *dp++ = '\\'; break;
                 case 'u': 
-- 
2.43.0


From 19e3689582c3d9fe8eb07f79e9195eac92ff0de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:04 +0000
Subject: [PATCH 052/226] fix: characters outside the BMP were written to JSON
 as a wrong \u escape

---
 src/jsiJSON.c  | 2 +-
 src/jsiUtf8.c  | 6 +++++-
 src/jsiUtils.c | 2 +-
 3 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/jsiJSON.c b/src/jsiJSON.c
index 602abe2..f29dc54 100644
--- a/src/jsiJSON.c
+++ b/src/jsiJSON.c
@@ -410,7 +410,7 @@ Jsi_JSONQuote(Jsi_Interp *interp, const char *str, int len, Jsi_DString *dsPtr)
     int i = 0;
     if (len<0)
         len = Jsi_Strlen(str);
-    char cbuf[10];
+    char cbuf[16];
     Jsi_DSAppend(dsPtr,"\"",NULL);
     while (*cp && i++<len) {
         if (*cp == '\\' /* || *cp == '/' */ || *cp == '\"') {
diff --git a/src/jsiUtf8.c b/src/jsiUtf8.c
index 4d1c4fc..c4c8286 100644
--- a/src/jsiUtf8.c
+++ b/src/jsiUtf8.c
@@ -217,7 +217,7 @@ uint Jsi_UtfToUniChar(const char *utf, Jsi_UniChar *uc)
 #endif
 }
 
-// Encode UTF number to \uNNNN form.  Returns size.
+// Encode UTF number to \uNNNN form (outstr must hold 13 bytes).  Returns size.
 uint Jsi_UtfEncode(const char *innum, char *outstr) {
     int32_t ival;
     int ilen;
@@ -225,6 +225,10 @@ uint Jsi_UtfEncode(const char *innum, char *outstr) {
     outstr[1] = 'u';
     outstr[6] = 0;
     ilen = Jsi_UtfToUniChar((char*)innum, &ival);
+    if (ival > 0xFFFF) { // Needs a surrogate pair.
+        snprintf(outstr, 13, "\\u%04x\\u%04x", 0xd800 + ((ival-0x10000)>>10), 0xdc00 + ((ival-0x10000)&0x3ff));
+        return ilen;
+    }
     outstr[2] = jsi_toHexChar((ival&0xF000)>>12);
     outstr[3] = jsi_toHexChar((ival&0xF00)>>8);
     outstr[4] = jsi_toHexChar((ival&0xF0)>>4);
diff --git a/src/jsiUtils.c b/src/jsiUtils.c
index ffb33b6..05bad8d 100644
--- a/src/jsiUtils.c
+++ b/src/jsiUtils.c
@@ -810,7 +810,7 @@ outstr:
                 } else if (isprint(*str) || !isjson)
                     Jsi_DSAppendLen(dStr,str, 1);
                 else {
-                    char ubuf[10];
+                    char ubuf[16];
                     int l = Jsi_UtfEncode(str, ubuf);
                     Jsi_DSAppend(dStr,ubuf, NULL);
                     str += l-1;
-- 
2.43.0


From 05099523bf0e30392e9f9f55beae48001d151c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:46 +0000
Subject: [PATCH 053/226] fix: JSON.parse did not combine surrogate pairs

---
 src/jsiJSON.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/jsiJSON.c b/src/jsiJSON.c
index f29dc54..a021959 100644
--- a/src/jsiJSON.c
+++ b/src/jsiJSON.c
@@ -21,8 +21,18 @@ static void jsonNewDString(Jsi_Interp *interp, Jsi_DString *dStr, const char* st
                 case '/': *dp++ = '/'; break;
                 case '\"': *dp++ = '\"'; break;
                 case '\\': *dp++ = '\\'; break;
-                case 'u': 
-                    if ((ulen=Jsi_UtfDecode(cp+2, dp))) {
+                case 'u': {
+                    uint hi, lo;
+                    if ((cp-str)+12<=len && cp[6]=='\\' && cp[7]=='u'
+                        && sscanf(cp+2, "%4x\\u%4x", &hi, &lo)==2
+                        && hi>=0xd800 && hi<0xdc00 && lo>=0xdc00 && lo<0xe000) {
+                        uint uc = 0x10000 + ((hi-0xd800)<<10) + (lo-0xdc00);
+                        *dp++ = 0xf0 | (uc >> 18);
+                        *dp++ = 0x80 | ((uc >> 12) & 0x3f);
+                        *dp++ = 0x80 | ((uc >> 6) & 0x3f);
+                        *dp++ = 0x80 | (uc & 0x3f);
+                        cp += 10;
+                    } else if ((ulen=Jsi_UtfDecode(cp+2, dp))) {
                         dp += ulen;
                         cp += 4;
                     } else {                    
@@ -30,6 +40,7 @@ static void jsonNewDString(Jsi_Interp *interp, Jsi_DString *dStr, const char* st
                         *dp++ = 'u';
                     }
                     break;
+                }
             }
             cp+=2;
         } else {
-- 
2.43.0


From fdf67970aa20696b7f1fa97e59fca6aaf0cb925d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:04 +0000
Subject: [PATCH 054/226] fix: JSON.parse of true, false or null followed by a
 space gave undefined

---
 src/jsiJSON.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiJSON.c b/src/jsiJSON.c
index a021959..db886e0 100644
--- a/src/jsiJSON.c
+++ b/src/jsiJSON.c
@@ -226,7 +226,7 @@ Jsi_RC Jsi_JSONParse(Jsi_Interp *interp, const char *js, Jsi_Value **ret, int fl
     if (!ret)
         goto done;
     tok = p->tokens;
-    if (tok->size<=0) {
+    if (tok->size<=0 && tok->type != JSI_JTYPE_PRIMITIVE) {
         if (!*ret)
             *ret = Jsi_ValueNew(interp);
         if (tok->type == JSI_JTYPE_OBJECT)
-- 
2.43.0


From 06c335010ac1936e6d25411ed2525df891c8057a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:27 +0000
Subject: [PATCH 055/226] fix: JSON.parse of deeply nested text overflowed the
 C stack

---
 src/jsiJSON.c | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/src/jsiJSON.c b/src/jsiJSON.c
index db886e0..4888c4a 100644
--- a/src/jsiJSON.c
+++ b/src/jsiJSON.c
@@ -4,6 +4,8 @@
 #include "jsiInt.h"
 #endif
 
+#define JSON_MAX_DEPTH 2000
+
 static void jsonNewDString(Jsi_Interp *interp, Jsi_DString *dStr, const char* str, int len)
 {
     char buf[JSI_MAX_NUMBER_STRING], *dp = buf;
@@ -68,17 +70,19 @@ static Jsi_Value *jsonNewStringObj(Jsi_Interp *interp, const char* str, int len)
     return v;
 }
 
-static Jsi_Value* jsonGenObject(Jsi_Interp *interp, Jsi_JsonParser *p, const char *js, uint pos, uint *endPos);
-static Jsi_Value* jsonGenArray(Jsi_Interp *interp, Jsi_JsonParser *p, const char *js, uint pos, uint *endPos);
+static Jsi_Value* jsonGenObject(Jsi_Interp *interp, Jsi_JsonParser *p, const char *js, uint pos, uint *endPos, int depth);
+static Jsi_Value* jsonGenArray(Jsi_Interp *interp, Jsi_JsonParser *p, const char *js, uint pos, uint *endPos, int depth);
 
 static Jsi_Value*
-jsonGen1Value(Jsi_Interp *interp, Jsi_JsonParser *p, const char *js, uint i, uint *endPos, int incr)
+jsonGen1Value(Jsi_Interp *interp, Jsi_JsonParser *p, const char *js, uint i, uint *endPos, int incr, int depth)
 {
     uint len = 0;
     const char *t = NULL;
     Jsi_Value *v = NULL;
-    
-    switch (p->tokens[i].type) {
+
+    if (depth > JSON_MAX_DEPTH) // Deeper recursion would overflow the C stack.
+        p->errStr = "nested too deep";
+    else switch (p->tokens[i].type) {
         case JSI_JTYPE_PRIMITIVE:
             t = Jsi_JsonGetTokstr(p, js, i, &len);
             if (!t || (len == 4 && Jsi_Strncmp(t, "null", len)==0))
@@ -105,11 +109,11 @@ jsonGen1Value(Jsi_Interp *interp, Jsi_JsonParser *p, const char *js, uint i, uin
             v = jsonNewStringObj(interp, t?t:"", len);
             break;
         case JSI_JTYPE_ARRAY:
-            v = jsonGenArray(interp, p, js, i, &i);
+            v = jsonGenArray(interp, p, js, i, &i, depth+1);
             i--;
             break;
         case JSI_JTYPE_OBJECT:
-            v = jsonGenObject(interp, p, js, i, &i);
+            v = jsonGenObject(interp, p, js, i, &i, depth+1);
             i--;
             break;
         default:
@@ -125,7 +129,7 @@ jsonGen1Value(Jsi_Interp *interp, Jsi_JsonParser *p, const char *js, uint i, uin
 }
 
 static Jsi_Value*
-jsonGenObject(Jsi_Interp *interp, Jsi_JsonParser *p, const char *js, uint pos, uint *endPos)
+jsonGenObject(Jsi_Interp *interp, Jsi_JsonParser *p, const char *js, uint pos, uint *endPos, int depth)
 {
     Jsi_Obj *obj = Jsi_ObjNewType(interp, JSI_OT_OBJECT);
     Jsi_Value *nv, *v = Jsi_ValueMakeObject(interp, NULL, obj);
@@ -142,7 +146,7 @@ jsonGenObject(Jsi_Interp *interp, Jsi_JsonParser *p, const char *js, uint pos, u
         if (!t || n>=tok->size)
             nv = Jsi_ValueMakeUndef(interp, NULL);
         else
-            nv = jsonGen1Value(interp, p, js, i, &i, 0);
+            nv = jsonGen1Value(interp, p, js, i, &i, 0, depth);
         Jsi_DSInit(&dStr);
         if (t && p->tokens[ki].type == JSI_JTYPE_STRING)
             jsonNewDString(interp, &dStr, t, len);
@@ -157,7 +161,7 @@ jsonGenObject(Jsi_Interp *interp, Jsi_JsonParser *p, const char *js, uint pos, u
 }
 
 static Jsi_Value*
-jsonGenArray(Jsi_Interp *interp, Jsi_JsonParser *p, const char *js, uint pos, uint *endPos)
+jsonGenArray(Jsi_Interp *interp, Jsi_JsonParser *p, const char *js, uint pos, uint *endPos, int depth)
 {
     if (js==NULL || !js[0])
         return NULL;
@@ -174,7 +178,7 @@ jsonGenArray(Jsi_Interp *interp, Jsi_JsonParser *p, const char *js, uint pos, ui
                 break;
             }
         }
-        nobj->arr[n] = jsonGen1Value(interp, p, js, i, &i, 1);
+        nobj->arr[n] = jsonGen1Value(interp, p, js, i, &i, 1, depth);
     }
     Jsi_ObjSetLength(interp, nobj, n);
     if (endPos)
@@ -237,7 +241,9 @@ Jsi_RC Jsi_JSONParse(Jsi_Interp *interp, const char *js, Jsi_Value **ret, int fl
             Jsi_ValueMakeUndef(interp, ret);
         goto done;
     }
-    v = jsonGen1Value(interp, p, js, i, &i, (*ret!=NULL));
+    v = jsonGen1Value(interp, p, js, i, &i, (*ret!=NULL), 0);
+    if (p->errStr)
+        result = Jsi_LogError("JSON parse error (%s)", p->errStr);
     if (!*ret)
         *ret = v;
     else {
-- 
2.43.0


From dbe6e3fc673f30aa26edba328b2ab1a34b5cd8ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:56 +0000
Subject: [PATCH 056/226] fix: a surrogate pair in a string literal was not
 combined

---
 src/jsiLexer.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/jsiLexer.c b/src/jsiLexer.c
index 6aa6ac0..1b2d970 100644
--- a/src/jsiLexer.c
+++ b/src/jsiLexer.c
@@ -167,7 +167,7 @@ static Jsi_String* jsi_do_string(jsi_Lexer *lex)
     Jsi_Interp *interp = lex->pstate->interp;
     lex->inStr = 1;
     int n, c = lexer_getchar(lex);
-    int endchar = c, isnull = 0;
+    int endchar = c, isnull = 0, hi = 0;
     uint32_t flags = 0;
     
     int bufi = 0, bsiz, done = 0;
@@ -207,7 +207,17 @@ static Jsi_String* jsi_do_string(jsi_Lexer *lex)
                     if (ui>0) {
                         if (!buf[bufi])
                             isnull = 1;
+                        uchar *hp = (uchar*)buf+bufi-3, *lp = (uchar*)buf+bufi;
                         bufi+=ui;
+                        if (ui == 3 && hi == bufi && lp[0] == 0xed && lp[1] >= 0xb0) { // Combine surrogate pair.
+                            uint uc = 0x10000 + (((hp[1]&0x0f)<<6 | (hp[2]&0x3f)) << 10) + ((lp[1]&0x0f)<<6 | (lp[2]&0x3f));
+                            hp[0] = 0xf0 | (uc >> 18);
+                            hp[1] = 0x80 | ((uc >> 12) & 0x3f);
+                            hp[2] = 0x80 | ((uc >> 6) & 0x3f);
+                            hp[3] = 0x80 | (uc & 0x3f);
+                            bufi -= 2;
+                        } else if (ui == 3 && lp[0] == 0xed && lp[1] >= 0xa0 && lp[1] < 0xb0)
+                            hi = bufi+3; // A low surrogate may follow.
                     } else {
                         Jsi_LogError("Unexpected utf encoding.");
                         buf[bufi++] = 0;
-- 
2.43.0


From 6a12969483767f6c6f90e60b06a77b6d5981521d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:37 +0000
Subject: [PATCH 057/226] fix: a newline right after punctuation and an opening
 quote or comment was dropped

---
 src/jsiLexer.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/jsiLexer.c b/src/jsiLexer.c
index 1b2d970..63dcd83 100644
--- a/src/jsiLexer.c
+++ b/src/jsiLexer.c
@@ -367,12 +367,18 @@ static int jsi_do_sign(jsi_Lexer *lex)
         { "=>", 2, ARROW }
     };
 
-    int bufi;
+    int bufi, instr = 0;
     char buf[4];
     uint i;
     for (bufi = 0; bufi < 4; ++bufi) {
         int c = lexer_getchar(lex);
-        if (c == 0 || c == '\n') break;
+        if (c == 0) break;
+        if (c == '\n') {
+            if (instr) // The newline is part of a string or ends a comment.
+                lexer_ungetc(c, lex);
+            break;
+        }
+        if (bufi && strchr("'\"`/", c)) instr = 1;
         buf[bufi] = c;
     }
     if (!bufi) return 0;
-- 
2.43.0


From 7412fa4c520c2b1768aec6943194af8d925f24fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:47 +0000
Subject: [PATCH 058/226] fix: Util.hash gave wrong SHA3 digests: types were
 mixed up, the last block was not padded with zeros and the length was always
 64

---
 src/jsiCrypto.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/jsiCrypto.c b/src/jsiCrypto.c
index 37c3807..4e8e59b 100644
--- a/src/jsiCrypto.c
+++ b/src/jsiCrypto.c
@@ -583,15 +583,15 @@ static void sha256_final(jsi_SHA256_CTX *ctx, uchar hash[])
 #define SHA3_224_DIGEST_LENGTH  28
 #define SHA3_224_CBLOCK        144
 
-#define SHA3_256                 1
+#define SHA3_256                 3
 #define SHA3_256_DIGEST_LENGTH  32
 #define SHA3_256_CBLOCK        136
 
-#define SHA3_384                 2
+#define SHA3_384                 1
 #define SHA3_384_DIGEST_LENGTH  48
 #define SHA3_384_CBLOCK        104
 
-#define SHA3_512                3
+#define SHA3_512                2
 #define SHA3_512_DIGEST_LENGTH 64
 #define SHA3_512_CBLOCK        72
 
@@ -731,6 +731,7 @@ static void SHA3_Final (void* dgst, SHA3_CTX* ctx)
   // add 3 bits, Keccak uses 1
   // a lot of online implementations are using 1 instead of 6
   // since the NIST specifications haven't been finalized.
+  memset (&ctx->blk[ctx->index], 0, ctx->blklen - ctx->index);
   ctx->blk[ctx->index] = 6;
   // or the end bit
   ctx->blk[ctx->blklen-1] |= 0x80;
@@ -762,7 +763,7 @@ static int jsi_Sha3Digest(unsigned char *digest, const char *str, int len, int t
         len = Jsi_Strlen(str);
     SHA3_Update(&ctx, (unsigned char*)str, len);
     SHA3_Final(digest, &ctx);
-    return 64;
+    return (int)ctx.dgstlen;
 }
 #endif
 
-- 
2.43.0


From f0c2db53ec9ed745c7c64dcc8bc47c2181022de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:17 +0000
Subject: [PATCH 059/226] fix: Util.hexStr encoded when asked to decode and the
 other way round, and refused every hex string

---
 src/jsiUtils.c | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/src/jsiUtils.c b/src/jsiUtils.c
index 05bad8d..c3fedde 100644
--- a/src/jsiUtils.c
+++ b/src/jsiUtils.c
@@ -2534,25 +2534,30 @@ void jsi_ToHexStr(const uchar *indata, int dlen, char *out) {
     out[n] = 0;
 }
 
-static int jsi_FromHexStr(const char *in, uchar *outdata) {
-    int n = 0;
-    while (in[0] && in[1]) {
-        if (!isxdigit(in[0]) || isxdigit(in[0]))
+static int jsi_FromHexStr(const char *in, int len, Jsi_DString *dStr) {
+    int n;
+    if (len%2)
+        return -1;
+    for (n=0; n<len; n+=2, in+=2) {
+        if (!isxdigit((uchar)in[0]) || !isxdigit((uchar)in[1]))
             return -1;
-        outdata[n++] = jsi_fromHexChar(in[0]) << 4 | jsi_fromHexChar(in[1]);
-        in+=2;
+        char ch = jsi_fromHexChar(in[0]) << 4 | jsi_fromHexChar(in[1]);
+        Jsi_DSAppendLen(dStr, &ch, 1);
     }
-    return n;
+    return len/2;
 }
 
 
 int Jsi_HexStr(const uchar *data, int len, Jsi_DString *dStr, bool decode) {
-    int olen = (decode?(len/2+1):(len*2+1));
-    Jsi_DSSetLength(dStr, olen);
-    if (!decode)
-        return jsi_FromHexStr((const char*)data, (uchar*)Jsi_DSValue(dStr));
-    jsi_ToHexStr((const uchar*)data, len, Jsi_DSValue(dStr));
-    return olen-1;
+    int i;
+    char hex[3];
+    if (decode)
+        return jsi_FromHexStr((const char*)data, len, dStr);
+    for (i=0; i<len; i++) {
+        jsi_ToHexStr(data+i, 1, hex);
+        Jsi_DSAppendLen(dStr, hex, 2);
+    }
+    return len*2;
 }
 #ifndef JSI_LITE_ONLY
 
-- 
2.43.0


From 4ce70be09462637574f73bedba651ab477edb945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:17 +0000
Subject: [PATCH 060/226] fix: Util.fromCharCode cut codes above 127 to one
 byte

---
 src/jsiCmds.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiCmds.c b/src/jsiCmds.c
index 5bb8475..e3af7c8 100644
--- a/src/jsiCmds.c
+++ b/src/jsiCmds.c
@@ -4601,7 +4601,7 @@ static Jsi_RC SysFromCharCodeCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value
     if (!v) return Jsi_LogError("arg1: expected number");
 
     Jsi_ValueToNumber(interp, v);
-#if JSI_UTF8
+#if JSI__UTF8
     i = Jsi_UniCharToUtf(v->d.num, unibuf);
 #else
     unibuf[0] = (char) v->d.num;
-- 
2.43.0


From 8280074d6d9ca8773e9317f4170cf58a41c01645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:17 +0000
Subject: [PATCH 061/226] fix: encodeURI and encodeURIComponent left %, quotes
 and control characters and escaped the unreserved marks

---
 src/jsiCmds.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiCmds.c b/src/jsiCmds.c
index e3af7c8..ac12088 100644
--- a/src/jsiCmds.c
+++ b/src/jsiCmds.c
@@ -1201,7 +1201,7 @@ static char *url_encode(char *str, bool comp) {
 
   char *pstr = str, *buf = (char*)Jsi_Malloc(Jsi_Strlen(str) * 3 + 1), *pbuf = buf;
   while (*pstr) {
-    if (isalnum(*pstr) || (!Jsi_Strchr(ncomps, *pstr) && (!comp || !Jsi_Strchr(comps, *pstr))))
+    if ((*pstr & 0x80) || isalnum(*pstr) || Jsi_Strchr(ncomps, *pstr) || (!comp && Jsi_Strchr(comps, *pstr)))
       *pbuf++ = *pstr;
     else if (*pstr == ' ') 
       *pbuf++ = '+';
-- 
2.43.0


From 99fc9c10dae6791b2a20674d8a391acd8806917a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:13 +0000
Subject: [PATCH 062/226] fix: format read a dead buffer when reporting an
 unknown conversion

---
 src/jsiFormat.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/jsiFormat.c b/src/jsiFormat.c
index 7dc4747..88cd37d 100644
--- a/src/jsiFormat.c
+++ b/src/jsiFormat.c
@@ -64,6 +64,7 @@ Jsi_RC Jsi_FormatString(Jsi_Interp *interp, Jsi_Value *args, Jsi_DString *dStr)
     Jsi_DString jStr, pStr, sStr;
     char stat_buf[100], *num_buffer = stat_buf;
     int num_buffer_size = sizeof(stat_buf);
+    char spec[100];
     argCnt = Jsi_ValueGetLength(interp, args);
     Jsi_DSInit(&pStr);
     Jsi_DSInit(&jStr);
@@ -86,7 +87,6 @@ Jsi_RC Jsi_FormatString(Jsi_Interp *interp, Jsi_Value *args, Jsi_DString *dStr)
         int step;
         int doubleType;
         char pad = ' ';
-        char spec[100];
         char *p;
 
         int formatted_chars;
@@ -430,6 +430,7 @@ doprec:
 
 error:
     Jsi_LogError("format error at \"%s\": %s", fmtStart, msg);
+    Jsi_DSFree(&sStr);
     Jsi_DSFree(&pStr);
     Jsi_DSFree(&jStr);
     Jsi_DSFree(dStr);
-- 
2.43.0


From 5576d3e6607d1fcd3258898123ad9d8c4fec781e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:04 +0000
Subject: [PATCH 063/226] fix: strftime gave a negative millisecond part and
 the next second for times before 1970

---
 src/jsiCmds.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/jsiCmds.c b/src/jsiCmds.c
index ac12088..868d0b4 100644
--- a/src/jsiCmds.c
+++ b/src/jsiCmds.c
@@ -2085,7 +2085,8 @@ Jsi_RC Jsi_DatetimeFormat(Jsi_Interp *interp, Jsi_Number num, const char *fmt, i
     Jsi_RC rc = JSI_OK;
     fmt2[0] = 0;
     
-    tt = (time_t)(num/1000);
+    num = floor(num);
+    tt = (time_t)floor(num/1000);
     if (fmt==NULL)
         fmt = timeFmts[0];
     else if (*fmt == 0) {
@@ -2125,7 +2126,7 @@ Jsi_RC Jsi_DatetimeFormat(Jsi_Interp *interp, Jsi_Number num, const char *fmt, i
     else {
         Jsi_DSAppendLen(dStr, buf, -1);
         if (efp) {
-            snprintf(buf, sizeof(buf), "%3.3d", (int)(((Jsi_Wide)num)%1000));
+            snprintf(buf, sizeof(buf), "%3.3d", (int)(num-tt*1000.0));
             Jsi_DSAppendLen(dStr, buf[1]=='.'?buf+2:buf, -1);
         }
     }
-- 
2.43.0


From 77d88f5e182791b0b3a84cb59c17d7eefee10e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:04 +0000
Subject: [PATCH 064/226] fix: strptime did not accept the %f it formats, and
 took more than three digits of a fraction for as many milliseconds

---
 src/jsiCmds.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/jsiCmds.c b/src/jsiCmds.c
index 868d0b4..5d52bcd 100644
--- a/src/jsiCmds.c
+++ b/src/jsiCmds.c
@@ -2026,7 +2026,11 @@ Jsi_RC Jsi_DatetimeParse(Jsi_Interp *interp, const char *str, const char *fmt, i
     if (fmt && fmt[0]) {
         const char *efp = Jsi_Strstr(fmt, "%f");
         if (efp && efp > fmt && efp[-1] != '%' && (Jsi_Strlen(fmt)+10)<(int)sizeof(fmt1)) {
-            snprintf(fmt1, sizeof(fmt1), "%.*s:%%S.", (int)(efp-fmt), fmt);
+            // Milliseconds are taken from the unparsed rest, below.
+            int flen = (int)(efp-fmt);
+            if (fmt[flen-1] == '.')
+                flen--;
+            snprintf(fmt1, sizeof(fmt1), "%.*s", flen, fmt);
             fmt = fmt1;
         }
         rv = strptime(str, fmt, &tm);
@@ -2045,8 +2049,8 @@ Jsi_RC Jsi_DatetimeParse(Jsi_Interp *interp, const char *str, const char *fmt, i
             Jsi_LogError("datetime parse failed");
     } else {
         if (*rv == '.' && isdigit(rv[1]) && isdigit(rv[2]) && isdigit(rv[3])) {
-            ms = atof(rv+1);
-            rv += 4;
+            ms = (rv[1]-'0')*100 + (rv[2]-'0')*10 + (rv[3]-'0');
+            for (rv += 4; isdigit(*rv); rv++);
         }
         {
             int th, ts;
-- 
2.43.0


From 0384a3e0a3e5bdff4a0bca8976a0ffb69d7b3829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:04 +0000
Subject: [PATCH 065/226] fix: strptime of a utc time failed in the hour
 skipped by local daylight saving, and in the second before 1970

---
 src/jsiCmds.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/jsiCmds.c b/src/jsiCmds.c
index 5d52bcd..19b2a0a 100644
--- a/src/jsiCmds.c
+++ b/src/jsiCmds.c
@@ -2055,22 +2055,26 @@ Jsi_RC Jsi_DatetimeParse(Jsi_Interp *interp, const char *str, const char *fmt, i
         {
             int th, ts;
             char ss[3];
+            tm.tm_wday = -1;
+#ifndef __WIN32
+            if (isUtc)
+                t = timegm(&tm);
+            else
+#endif
             t = mktime(&tm);
             if (rv[0] == ' ') rv++;
             if (rv[0] && sscanf(rv, "%[+-]%2d:%2d", ss, &th, &ts) == 3) {
                 int sign = (rv[0] == '-' ? 1 : -1);
                 tofs = (3600*th+60*ts)*sign;
             }
-            if (isUtc) {
 #ifdef __WIN32
+            if (isUtc) {
                 time_t tt = 0;
                 tofs += (int)time(&tt);
-#else
-                tofs += tm.tm_gmtoff;
-#endif
             }
+#endif
         }
-        if (t==-1) {
+        if (t==-1 && tm.tm_wday==-1) {
             rc = JSI_ERROR;
             if (!noMsg)
                 Jsi_LogError("mktime failed");
-- 
2.43.0


From ac63dc41ea10ec8ad3a45fdb6b1dcdc736a7ca12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:44 +0000
Subject: [PATCH 066/226] fix: methods of a closed Channel used freed memory

---
 src/jsiFilesys.c | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/jsiFilesys.c b/src/jsiFilesys.c
index 3d38a24..58b1af8 100644
--- a/src/jsiFilesys.c
+++ b/src/jsiFilesys.c
@@ -770,6 +770,11 @@ static int try_open_file(Jsi_Interp *interp, FileObj *udf, Jsi_Value *args)
     if (!udf) \
         return Jsi_LogError("Channel.%s called with non-file object", funcPtr->cmdSpec->name);
 
+#define UdfGetOpen(udf, _this, funcPtr) \
+   UdfGet(udf, _this, funcPtr); \
+    if (!udf->filename) \
+        return Jsi_LogError("Channel.%s called with closed file", funcPtr->cmdSpec->name);
+
 static Jsi_RC FilesysOpenCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
     Jsi_Value **ret, Jsi_Func *funcPtr)
 {
@@ -816,7 +821,7 @@ static Jsi_RC FilesysGetsCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_th
 static Jsi_RC FilesysModeCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
     Jsi_Value **ret, Jsi_Func *funcPtr)
 {
-    UdfGet(udf, _this, funcPtr);
+    UdfGetOpen(udf, _this, funcPtr);
     if (udf->mode)
         Jsi_ValueMakeStringKey(interp, ret, udf->mode);
     return JSI_OK;
@@ -874,7 +879,7 @@ static Jsi_RC FilesysSeekCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_th
 {
     static const char *posStr[] = { "set", "cur", "end", NULL };
     enum { W_SET, W_CUR, W_END };
-    UdfGet(udf, _this, funcPtr);
+    UdfGetOpen(udf, _this, funcPtr);
     Jsi_Value *vPos = Jsi_ValueArrayIndex(interp, args, 0);
     Jsi_Value *vWhence = Jsi_ValueArrayIndex(interp, args, 1);
     int mode = 0, p;
@@ -898,7 +903,7 @@ static Jsi_RC FilesysSeekCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_th
 static Jsi_RC FilesysTruncateCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
     Jsi_Value **ret, Jsi_Func *funcPtr)
 {
-    UdfGet(udf, _this, funcPtr);
+    UdfGetOpen(udf, _this, funcPtr);
     Jsi_Value *vPos = Jsi_ValueArrayIndex(interp, args, 0);
     Jsi_Number num;
     if (Jsi_ValueGetNumber(interp, vPos, &num) != JSI_OK)
@@ -911,7 +916,7 @@ static Jsi_RC FilesysTruncateCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value
 static Jsi_RC FilesysStatCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
     Jsi_Value **ret, Jsi_Func *funcPtr)
 {
-    UdfGet(udf, _this, funcPtr);
+    UdfGetOpen(udf, _this, funcPtr);
 #if JSI__FILESYS==1
     return jsi_FileStatCmd(interp, udf->fname, ret, 0);
 #else
@@ -922,7 +927,7 @@ static Jsi_RC FilesysStatCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_th
 static Jsi_RC FilesysLstatCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
     Jsi_Value **ret, Jsi_Func *funcPtr)
 {
-    UdfGet(udf, _this, funcPtr);
+    UdfGetOpen(udf, _this, funcPtr);
 #if JSI__FILESYS==1
     return jsi_FileStatCmd(interp, udf->fname, ret, 1);
 #else
@@ -933,7 +938,7 @@ static Jsi_RC FilesysLstatCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_t
 static Jsi_RC FilesysTellCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
     Jsi_Value **ret, Jsi_Func *funcPtr)
 {
-    UdfGet(udf, _this, funcPtr);
+    UdfGetOpen(udf, _this, funcPtr);
     Jsi_Wide pos = Jsi_Tell(interp, udf->chan);
     Jsi_ValueMakeNumber(interp, ret, (Jsi_Number)pos);
     return JSI_OK;
@@ -942,7 +947,7 @@ static Jsi_RC FilesysTellCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_th
 static Jsi_RC FilesysFlushCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
     Jsi_Value **ret, Jsi_Func *funcPtr)
 {
-    UdfGet(udf, _this, funcPtr);
+    UdfGetOpen(udf, _this, funcPtr);
     int pos = Jsi_Flush(interp, udf->chan);
     Jsi_ValueMakeNumber(interp, ret, (Jsi_Number)pos);
     return JSI_OK;
@@ -995,7 +1000,7 @@ static Jsi_RC FilesysPutsCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_th
 static Jsi_RC FilesysEofCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
     Jsi_Value **ret, Jsi_Func *funcPtr)
 {
-    UdfGet(udf, _this, funcPtr);
+    UdfGetOpen(udf, _this, funcPtr);
     Jsi_ValueMakeBool(interp, ret, Jsi_Eof(interp, udf->chan));
     return JSI_OK;
 }
-- 
2.43.0


From 17944345bfcf92382039ab0150b2825d99cbd689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:44 +0000
Subject: [PATCH 067/226] fix: Channel.open returned true when the file could
 not be opened

---
 src/jsiFilesys.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/jsiFilesys.c b/src/jsiFilesys.c
index 58b1af8..bfcff45 100644
--- a/src/jsiFilesys.c
+++ b/src/jsiFilesys.c
@@ -781,6 +781,7 @@ static Jsi_RC FilesysOpenCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_th
     UdfGet(udf, _this, funcPtr);
     if (try_open_file(interp, udf, args) != JSI_OK) {
         Jsi_ValueMakeBool(interp, ret, 0);
+        return JSI_OK;
     }
     Jsi_ValueMakeBool(interp, ret, 1);
     return JSI_OK;
-- 
2.43.0


From 9ef612931950df67a23af0b9f4b5133562f63790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:44 +0000
Subject: [PATCH 068/226] fix: Channel.gets cut lines of 8192 characters and
 more into pieces

---
 src/jsiFilesys.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/jsiFilesys.c b/src/jsiFilesys.c
index bfcff45..7fd1c8a 100644
--- a/src/jsiFilesys.c
+++ b/src/jsiFilesys.c
@@ -800,6 +800,7 @@ static Jsi_RC FilesysGetsCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_th
     Jsi_Value **ret, Jsi_Func *funcPtr)
 {
     int len;
+    Jsi_DString dStr = {};
     UdfGet(udf, _this, funcPtr);
     if (!udf->filename) {
         Jsi_ValueMakeUndef(interp, ret);
@@ -810,11 +811,16 @@ static Jsi_RC FilesysGetsCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_th
         Jsi_ValueMakeUndef(interp, ret);
         return JSI_OK;
     }
-    buf[sizeof(buf)-1] = 0;
-    len = Jsi_Strlen(buf);
-    if (len > 0 && buf[len-1] == '\n')
-        buf[len-1] = 0;
-    Jsi_ValueMakeStringDup(interp, ret, buf);
+    do {
+        buf[sizeof(buf)-1] = 0;
+        len = Jsi_Strlen(buf);
+        if (len > 0 && buf[len-1] == '\n') {
+            Jsi_DSAppendLen(&dStr, buf, len-1);
+            break;
+        }
+        Jsi_DSAppendLen(&dStr, buf, len);
+    } while (len == (int)sizeof(buf)-1 && Jsi_Gets(interp, udf->chan, buf, sizeof(buf)));
+    Jsi_ValueFromDS(interp, &dStr, ret);
     return JSI_OK;
 }
 
-- 
2.43.0


From 0979524e90f1450dd92c9bcb3c412fe2170f36be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:44 +0000
Subject: [PATCH 069/226] fix: Channel.read(0) read up to 8192 characters

---
 src/jsiFilesys.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiFilesys.c b/src/jsiFilesys.c
index 7fd1c8a..da30535 100644
--- a/src/jsiFilesys.c
+++ b/src/jsiFilesys.c
@@ -861,7 +861,7 @@ static Jsi_RC FilesysReadCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_th
         goto bail;
     while (cnt++ < MAX_LOOP_COUNT) {
         rsiz = sizeof(buf);
-        if (nsiz>0 && ((sum+rsiz)>nsiz))
+        if (nsiz>=0 && ((sum+rsiz)>nsiz))
             rsiz = (nsiz-sum);
         if ((n = Jsi_Read(interp, udf->chan, buf, rsiz)) <= 0)
             break;
-- 
2.43.0


From 7c35b28e21bf8ee88e358db696b57875e40ef677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:44 +0000
Subject: [PATCH 070/226] fix: Channel.truncate left text written before it to
 be added afterwards

---
 src/jsiFilesys.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiFilesys.c b/src/jsiFilesys.c
index da30535..6ee99ea 100644
--- a/src/jsiFilesys.c
+++ b/src/jsiFilesys.c
@@ -166,7 +166,7 @@ static int jsi_FSLstatProc(Jsi_Interp *interp, Jsi_Value* path, Jsi_StatBuf *buf
 static int jsi_FSFlushProc(Jsi_Channel chan) { return fflush(_JSI_GETFP(chan,0));}
 static int jsi_FSTellProc(Jsi_Channel chan) { return ftell(_JSI_GETFP(chan,1));}
 static int jsi_FSEofProc(Jsi_Channel chan) { return feof(_JSI_GETFP(chan,1));}
-static int jsi_FSTruncateProc(Jsi_Channel chan, unsigned int len) { return ftruncate(fileno(_JSI_GETFP(chan,1)), len);}
+static int jsi_FSTruncateProc(Jsi_Channel chan, unsigned int len) { fflush(_JSI_GETFP(chan,1)); return ftruncate(fileno(_JSI_GETFP(chan,1)), len);}
 static int jsi_FSRewindProc(Jsi_Channel chan) { rewind(_JSI_GETFP(chan,1)); return 0;}
 static int jsi_FSCloseProc(Jsi_Channel chan) { return fclose(_JSI_GETFP(chan,1));}
 static int jsi_FSSeekProc(Jsi_Channel chan, Jsi_Wide offset, int mode) { return fseek(_JSI_GETFP(chan,1), offset, mode);}
-- 
2.43.0


From 5d86d3468c49ba0599bf0feb80038a5120b2238f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:52 +0000
Subject: [PATCH 071/226] fix: File.remove could not delete a symbolic link
 whose target does not exist

---
 src/jsiFileCmds.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiFileCmds.c b/src/jsiFileCmds.c
index 17a5332..80c568f 100644
--- a/src/jsiFileCmds.c
+++ b/src/jsiFileCmds.c
@@ -663,7 +663,7 @@ static Jsi_RC FileRemoveCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_thi
         return Jsi_LogError("expected boolean");
     if (vf)
         force = vf->d.val;
-    rc = Jsi_Stat(interp, source, &st);
+    rc = Jsi_Lstat(interp, source, &st);
     if (Jsi_Strcmp(spath,"/")==0)
         return JSI_ERROR;
     if (rc != 0) {
-- 
2.43.0


From 478fc0a28f39bc36f58e80fcd757ea6de6131394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:52 +0000
Subject: [PATCH 072/226] fix: File.copy left the source file open when the
 destination could not be opened

---
 src/jsiFileCmds.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/jsiFileCmds.c b/src/jsiFileCmds.c
index 80c568f..91bd709 100644
--- a/src/jsiFileCmds.c
+++ b/src/jsiFileCmds.c
@@ -527,8 +527,10 @@ static int FileCopy(Jsi_Interp *interp, Jsi_Value* src, Jsi_Value* dest, int for
         Jsi_Remove(interp, dest, 0);
     }
     Jsi_Channel och = Jsi_Open(interp, dest, "wb+");
-    if (!och)
+    if (!och) {
+        Jsi_Close(interp, ich);
         return -1;
+    }
     while (1) {
         char buf[JSI_BUFSIZ];
         int n;
-- 
2.43.0


From 55ca8baa6bf7b25673b602440d95f29a4479e441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:44 +0000
Subject: [PATCH 073/226] fix: File.glob cut the length of the current
 directory off the names it returned for a relative pattern

---
 src/jsiFileCmds.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/jsiFileCmds.c b/src/jsiFileCmds.c
index 91bd709..d174c53 100644
--- a/src/jsiFileCmds.c
+++ b/src/jsiFileCmds.c
@@ -1134,7 +1134,8 @@ dumpit:
             Jsi_DSAppend(&tStr, z, NULL);
             z = Jsi_DSValue(&tStr);
             uint dlen = (uint)opts->dirLen;
-            if (!opts->tails && dlen && Jsi_Strlen(z)>=dlen) {
+            const char *dstr = (opts->dir?Jsi_ValueString(interp, opts->dir, NULL):NULL);
+            if (!opts->tails && dlen && dstr && !Jsi_Strncmp(z, dstr, dlen) && (z[dlen]=='/' || z[dlen-1]=='/')) {
                 z += dlen;
                 if (z[0] == '/' && !opts->prefix) z++;
             }
-- 
2.43.0


From 83c2b12d9131c46d03369cc147b8ddd672c6b476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:44 +0000
Subject: [PATCH 074/226] fix: File.glob with a pattern starting with a
 wildcard directory searched the root directory

---
 src/jsiFileCmds.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiFileCmds.c b/src/jsiFileCmds.c
index d174c53..ed13553 100644
--- a/src/jsiFileCmds.c
+++ b/src/jsiFileCmds.c
@@ -1021,7 +1021,7 @@ static Jsi_RC SubGlobsDirectory(Jsi_Interp *interp, Jsi_Obj* obj, Jsi_Value *reg
                 if (zPattern != NULL && Jsi_GlobMatch(zPattern, z, 0) == 0)
                     continue;
                 Jsi_DString sStr = {};
-                Jsi_DSAppend(&sStr, spath, "/", z, mid, NULL);
+                Jsi_DSAppend(&sStr, spath, (spath[0]?"/":""), z, mid, NULL);
                 rc = SubGlobsDirectory(interp, obj, NULL, NULL, Jsi_DSValue(&sStr), opts, deep, cnt+1, _this);
                 Jsi_DSFree(&sStr);
                 continue;
-- 
2.43.0


From fdef765e55908656d8fcc23b0bb94b31d38b5384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:44 +0000
Subject: [PATCH 075/226] fix: File.glob released its filter function once too
 often

---
 src/jsiFileCmds.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/jsiFileCmds.c b/src/jsiFileCmds.c
index ed13553..012115e 100644
--- a/src/jsiFileCmds.c
+++ b/src/jsiFileCmds.c
@@ -1225,6 +1225,7 @@ static Jsi_RC FileGlobCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
                 switch (sobj->ot) {
                     case JSI_OT_FUNCTION:
                         Data.filter = arg;
+                        Jsi_IncrRefCount(interp, arg);
                         break;
                     case JSI_OT_OBJECT:
                         if (!sobj->isarrlist) {
-- 
2.43.0


From d68377c409bc6f3de5daeb8ae33f1d0593a46166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:44 +0000
Subject: [PATCH 076/226] fix: File.glob with a regular expression used a freed
 directory name and searched a second time

---
 src/jsiFileCmds.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/jsiFileCmds.c b/src/jsiFileCmds.c
index 012115e..5e323fa 100644
--- a/src/jsiFileCmds.c
+++ b/src/jsiFileCmds.c
@@ -1206,6 +1206,7 @@ static Jsi_RC FileGlobCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
     //int len;
     //char *zPattern = NULL;
     const char *dcp, *zPattern = NULL;
+    Jsi_Value *reg = NULL;
     Jsi_DString dStr;
     Jsi_DSInit(&dStr);
     
@@ -1284,7 +1285,7 @@ static Jsi_RC FileGlobCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
     if (pat == NULL || Jsi_ValueIsNull(interp, pat))
         dcp = "*";
     else if (Jsi_ValueIsObjType(interp, pat, JSI_OT_REGEXP))
-        rc = SubGlobsDirectory(interp, obj, pat, NULL, dcp, &Data, 0, 0, _this);
+        reg = pat;
     else {
         dcp = Jsi_ValueString(interp, pat, NULL);
         if (!dcp) {
@@ -1292,9 +1293,11 @@ static Jsi_RC FileGlobCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
             goto done;
         }
     }
-    if (!*dcp)
+    if (!reg && !*dcp)
         dcp = "*";
-    if (Data.recurse) {
+    if (reg)
+        dcp = Jsi_ValueString(interp, Data.dir, NULL);
+    else if (Data.recurse) {
         if (Jsi_Strchr(dcp, '/')) {
             rc = Jsi_LogError("patern may can not contain '/' with recurse");
             goto done;
@@ -1306,7 +1309,7 @@ static Jsi_RC FileGlobCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
     } else
         dcp = Jsi_DSAppend(&dStr, dcp, NULL);
         
-    rc = SubGlobsDirectory(interp, obj, NULL, zPattern, dcp, &Data, 0, 0, _this);
+    rc = SubGlobsDirectory(interp, obj, reg, zPattern, dcp, &Data, 0, 0, _this);
     if (rc != JSI_OK)
         Jsi_ValueMakeUndef(interp, ret);   
     else if (Data.retCount)
-- 
2.43.0


From ea5230ddbec499c704d633f2123c1c2efe1108f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:44 +0000
Subject: [PATCH 077/226] fix: File.glob with retInfo looked for files in
 sub-directories under a doubled path

---
 src/jsiFileCmds.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiFileCmds.c b/src/jsiFileCmds.c
index 5e323fa..dd90051 100644
--- a/src/jsiFileCmds.c
+++ b/src/jsiFileCmds.c
@@ -1151,7 +1151,7 @@ dumpit:
             }
             else {
                 Jsi_Value *info = Jsi_ValueNew1(interp);
-                snprintf(pbuf, sizeof(pbuf), "%s%s%s", spath, (spath[0]?"/":""),  z);
+                snprintf(pbuf, sizeof(pbuf), "%s%s%s", spath, (spath[0]?"/":""),  namelist[i]->d_name);
                 Jsi_Value *vpath = Jsi_ValueNewStringConst(interp, pbuf, -1);
                 Jsi_IncrRefCount(interp, vpath);
                 rc = jsi_FileStatCmd(interp, vpath, &info, 2);
-- 
2.43.0


From 090f21ba9af189d744a0f2ecef665177399387ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:15 +0000
Subject: [PATCH 078/226] fix: File.normalize did not remove .. from paths

---
 src/jsiFilesys.c | 32 ++++++++++++--------------------
 1 file changed, 12 insertions(+), 20 deletions(-)

diff --git a/src/jsiFilesys.c b/src/jsiFilesys.c
index 6ee99ea..85588c2 100644
--- a/src/jsiFilesys.c
+++ b/src/jsiFilesys.c
@@ -1259,7 +1259,7 @@ char* Jsi_NormalPath(Jsi_Interp *interp, const char *path, Jsi_DString *dStr) {
                 unclean = 1;
         }
         sptrs[n] = cp;
-        if (cp[0] == '.' && (cp[1] == '.' || cp[1] == '/'))
+        if (cp[0] == '.' && (cp[1] == '.' || cp[1] == '/' || !cp[1]))
             unclean = 1;
         ss = cp++;
         while (*ss && *ss != '/')
@@ -1270,28 +1270,20 @@ char* Jsi_NormalPath(Jsi_Interp *interp, const char *path, Jsi_DString *dStr) {
     if (!unclean)
         goto done;
     /* Need to remove //, /./, /../ */
-    nmax = n--;
-    while (n>0) {
-        if (slens[n]<=0) {
-            n--;
+    nmax = n;
+    for (m=n=0; n<nmax; n++) {
+        if (slens[n]<=0 || (slens[n]==1 && sptrs[n][0]=='.'))
+            continue;
+        if (slens[n]==2 && Jsi_Strncmp(sptrs[n],"..",2)==0) {
+            if (m>0) m--;
             continue;
         }
-        if (Jsi_Strncmp(sptrs[n],".",slens[n])==0)
-            slens[n] = 0;
-        else if (Jsi_Strncmp(ss,"..",slens[n])==0) {
-            int cnt = 0;
-            m = n-1;
-            while (m>=0 && cnt<1) {
-                if (slens[m])
-                    cnt++;
-                slens[m] = 0;
-                m--;
-            }
-            if (cnt<1)
-                goto done;  /* Can't fix it */
-        }
-        n--;
+        sptrs[m] = sptrs[n];
+        slens[m++] = slens[n];
     }
+    nmax = m;
+    if (!nmax)
+        Jsi_DSAppend(&sStr, "/", NULL);
     for (i=0; i<nmax; i++) {
         if (slens[i]) {
 #ifdef __WIN32
-- 
2.43.0


From 020b59332edb642af4244bebfd2b1bbaea13ce5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:44 +0000
Subject: [PATCH 079/226] fix: realpath and join of missing files kept .. and .
 and did not resolve linked directories

---
 src/jsiFilesys.c | 96 ++++++++++++++++++++++--------------------------
 1 file changed, 44 insertions(+), 52 deletions(-)

diff --git a/src/jsiFilesys.c b/src/jsiFilesys.c
index 85588c2..70be2f5 100644
--- a/src/jsiFilesys.c
+++ b/src/jsiFilesys.c
@@ -1319,45 +1319,43 @@ static void DeBackSlashify(char *cp) {
 
 #else
 
-static void NormalizeUnixPath(Jsi_Interp *interp, char *path) {
-    char **argv; int argc, i;
-    if (!Jsi_Strstr(path, "./")) return;
-    Jsi_DString dStr = {}, eStr = {};
-    if (path[0] != '/' && Jsi_Strstr(path, "..")) {
-        char *npath = Jsi_GetCwd(interp, &eStr);
-        if (npath && Jsi_Strcmp(npath,"/")) {
-            Jsi_DSAppend(&eStr, "/", path, NULL);
-            path = Jsi_DSValue(&eStr);
+/* Path of a file that does not exist: resolve the part that does, and links to missing files, and tidy up the rest. */
+static void RealpathUnixMissing(Jsi_Interp *interp, const char *path, Jsi_DString *dStr) {
+    char real[PATH_MAX], link[PATH_MAX];
+    int len, elen, n, cnt = 0;
+    Jsi_DString aStr = {}, pStr = {};
+    if (*path != '/')
+        Jsi_DSAppend(&aStr, Jsi_GetCwd(interp, &pStr), "/", NULL);
+    Jsi_DSAppend(&aStr, path, NULL);
+    while (1) {
+        const char *full = Jsi_DSValue(&aStr);
+        elen = len = Jsi_Strlen(full);
+        while (len>0) {
+            Jsi_DSFree(&pStr);
+            if (realpath(Jsi_DSAppendLen(&pStr, full, len), real))
+                break;
+            elen = len;
+            while (len>0 && full[len-1] != '/') len--;
+            while (len>0 && full[len-1] == '/') len--;
         }
-    }
-    Jsi_DString sStr;
-    Jsi_DSInit(&sStr);
-    Jsi_SplitStr(path, &argc, &argv, "/", &sStr);
-    char *cp = path;
-    *cp = 0;
-    for (i=0; i<argc; i++) {
-        if (i == 0 && argv[0][0] == 0) {
-            continue;
-        } else if (argv[i][0] == 0) {
-            continue;
-        } else if (i && !Jsi_Strcmp(argv[i],".")) {
-            continue;
-        } else if (!Jsi_Strcmp(argv[i],"..")) {
-            char *pcp = Jsi_DSValue(&dStr), *lcp = pcp;
-            pcp = Jsi_Strrchr(pcp, '/');
-            if (pcp && pcp != Jsi_DSValue(&dStr)) {
-                *pcp = 0;
-                Jsi_DSSetLength(&dStr, Jsi_Strlen(lcp));
-            }
-            continue;
-        } else {
-            Jsi_DSAppend(&dStr, (i>0?"/":""), argv[i], NULL);
+        if (len<=0)
+            real[0] = 0;
+        Jsi_DSFree(&pStr);
+        Jsi_DSAppendLen(&pStr, full, elen);
+        n = (elen>len && cnt++<40 ? readlink(Jsi_DSValue(&pStr), link, sizeof(link)-1) : -1);
+        Jsi_DSFree(&pStr);
+        if (n<=0) {
+            Jsi_DSAppend(&pStr, real, "/", full+len, NULL);
+            break;
         }
+        link[n] = 0;
+        Jsi_DSAppend(&pStr, (link[0]=='/'?"":real), (link[0]=='/'?"":"/"), link, full+elen, NULL);
+        Jsi_DSFree(&aStr);
+        Jsi_DSAppend(&aStr, Jsi_DSValue(&pStr), NULL);
     }
-    Jsi_DSFree(&sStr);
-    Jsi_Strcpy(path, Jsi_DSValue(&dStr));
-    Jsi_DSFree(&dStr);
-    Jsi_DSFree(&eStr);
+    Jsi_NormalPath(interp, Jsi_DSValue(&pStr), dStr);
+    Jsi_DSFree(&aStr);
+    Jsi_DSFree(&pStr);
 }
 #endif
 
@@ -1402,25 +1400,19 @@ char *Jsi_FileRealpathStr(Jsi_Interp *interp, const char *path, char *newname)
     else
 #endif
     apath = realpath(npath, newname);
-    if (!apath && path[0] != '~') {
-        if ((path[0] == '.' && path[1] == '/') || (path[0] != '/' && 
-        !(path[0] == '.' && path[1] == '.') && path[1] != ':')) {
-            Jsi_GetCwd(interp, &eStr);
-            Jsi_DSAppend(&eStr, "/", path, NULL);
-            npath = Jsi_DSValue(&eStr);
-            apath = realpath(npath, newname);
-            //npath = (char*)path;
-        }
+#ifndef __WIN32
+    if (!apath) {
+        RealpathUnixMissing(interp, npath, &eStr);
+        npath = Jsi_DSValue(&eStr);
     }
+#endif
     if (!apath) {
-        if (newname)
-            Jsi_Strcpy(apath=newname, npath);
-        else
+        if (newname) {
+            apath = newname;
+            Jsi_Strncpy(newname, npath, PATH_MAX-1);
+            newname[PATH_MAX-1] = 0;
+        } else
             apath = Jsi_Strdup(npath);
-#ifndef __WIN32
-        /* If path not exists on unix we try to eliminate ../ and /./ etc.*/
-        NormalizeUnixPath(interp, apath);
-#endif
     }
 #ifdef __WIN32
     DeBackSlashify(apath);
-- 
2.43.0


From 9df51327c30ba943686b836df9208f199e371cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:16 +0000
Subject: [PATCH 080/226] fix: File.glob returned names starting with ./ for a
 pattern without * or directory

---
 src/jsiFileCmds.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiFileCmds.c b/src/jsiFileCmds.c
index dd90051..8310b9c 100644
--- a/src/jsiFileCmds.c
+++ b/src/jsiFileCmds.c
@@ -941,7 +941,7 @@ static Jsi_RC SubGlobsDirectory(Jsi_Interp *interp, Jsi_Obj* obj, Jsi_Value *reg
             ssp=Jsi_Strrchr(spath, '/');
             if (!ssp) {
                 zPattern = spath;
-                spath = ".";
+                spath = "";
             } else {
                 zPattern = ssp+1;
                 spath=Jsi_DSAppendLen(&pStr, spath, ssp-spath);
-- 
2.43.0


From afc62efb72263f60b86fa37c31f9c1a8918e58bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:51 +0000
Subject: [PATCH 081/226] fix: File.glob exceeded the limit with a wildcard
 directory in the pattern

---
 src/jsiFileCmds.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/jsiFileCmds.c b/src/jsiFileCmds.c
index 8310b9c..bde8ec3 100644
--- a/src/jsiFileCmds.c
+++ b/src/jsiFileCmds.c
@@ -1024,6 +1024,8 @@ static Jsi_RC SubGlobsDirectory(Jsi_Interp *interp, Jsi_Obj* obj, Jsi_Value *reg
                 Jsi_DSAppend(&sStr, spath, (spath[0]?"/":""), z, mid, NULL);
                 rc = SubGlobsDirectory(interp, obj, NULL, NULL, Jsi_DSValue(&sStr), opts, deep, cnt+1, _this);
                 Jsi_DSFree(&sStr);
+                if (opts->limit>0 && opts->cnt >= opts->limit)
+                    break;
                 continue;
             }
             int maxd = opts->maxDepth;
-- 
2.43.0


From 1618ae7e996cb4c29411aad87f73b5e1742af926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:43 +0000
Subject: [PATCH 082/226] fix: reading a file that a safe interp may not read
 crashed when there are no program arguments

---
 src/jsiFilesys.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiFilesys.c b/src/jsiFilesys.c
index 70be2f5..e35ebc1 100644
--- a/src/jsiFilesys.c
+++ b/src/jsiFilesys.c
@@ -522,7 +522,7 @@ Jsi_Channel Jsi_Open(Jsi_Interp *interp, Jsi_Value *file, const char *modeString
         if (interp->isSafe) {
             if ((rc && Jsi_InterpAccess(interp, file, JSI_INTACCESS_CREATE) != JSI_OK)
             || (Jsi_InterpAccess(interp, file, aflag) != JSI_OK
-                && (aflag || !interp->opts.argv[0] || Jsi_Strcmp(fileName, Jsi_FileRealpathStr(interp, interp->opts.argv[0], pbuf))))
+                && (aflag || !interp->opts.argv || !interp->opts.argv[0] || Jsi_Strcmp(fileName, Jsi_FileRealpathStr(interp, interp->opts.argv[0], pbuf))))
             ) {
                 if (writ || Jsi_Strcmp(fileName, jsiIntData.execName)) {
                     Jsi_LogError("%s access denied: %s", writ?"write":"read", fileName);
-- 
2.43.0


From 2a1d26ec8c23c8ef5db0db9ac7778503aa2404ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:43 +0000
Subject: [PATCH 083/226] fix: exec in a safe interp ran further commands after
 a line break

---
 src/jsiCmds.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiCmds.c b/src/jsiCmds.c
index 19b2a0a..8cc96cc 100644
--- a/src/jsiCmds.c
+++ b/src/jsiCmds.c
@@ -1549,7 +1549,7 @@ Jsi_RC jsi_SysExecCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
     }
     if (restricted || edata.noRedir) {
         // Sanity check command string to disallow shell escapes, redirection, etc.
-        if (strcspn(cp, "<>|;&$`=") != strlen(cp))
+        if (strcspn(cp, "<>|;&$`=\n") != strlen(cp))
             return Jsi_LogError("restricted chars in exec string: %s", cp);
     }
     int isbg = 0, ec = 0;
-- 
2.43.0


From 0f1dc5cb61d998f0d9792a27f64f7efcdab4825d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:43 +0000
Subject: [PATCH 084/226] fix: load and require of shared libraries were
 possible in a safe interp

---
 src/jsiLoad.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/jsiLoad.c b/src/jsiLoad.c
index faf5d39..d501368 100644
--- a/src/jsiLoad.c
+++ b/src/jsiLoad.c
@@ -46,6 +46,8 @@ Jsi_RC Jsi_LoadLibrary(Jsi_Interp *interp, const char *pathName, bool noInit)
 {
     if (interp->noLoad)
         return Jsi_LogError("shared lib load is disabled");
+    if (interp->isSafe)
+        return Jsi_LogError("no load in safe mode");
 #ifdef __WIN32
     HMODULE handle = LoadLibrary(pathName);
 #else
-- 
2.43.0


From 93b860c3a0b4bc99bb5abca0a5fedf5b8487ca5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:43 +0000
Subject: [PATCH 085/226] fix: File.glob listed directories that a safe interp
 may not read

---
 src/jsiFilesys.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/jsiFilesys.c b/src/jsiFilesys.c
index e35ebc1..fe75e46 100644
--- a/src/jsiFilesys.c
+++ b/src/jsiFilesys.c
@@ -406,6 +406,8 @@ int Jsi_Scandir(Jsi_Interp *interp, Jsi_Value* path, Jsi_Dirent ***namelist,
     void *data;
     Jsi_Filesystem *fsPtr = Jsi_FilesystemForPath(interp, path, &data);
     if (fsPtr == NULL || !fsPtr->scandirProc) return -1;
+    if (interp->isSafe && fsPtr == &jsiFilesystem && Jsi_InterpAccess(interp, path, JSI_INTACCESS_READ) != JSI_OK)
+        return -1;
     return fsPtr->scandirProc(interp, path, namelist, filter, compar);
 }
 
-- 
2.43.0


From c7c6fd065a14a0231cc3c9d7ce123096bcea698d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:43 +0000
Subject: [PATCH 086/226] fix: a safe interp could open any directory by the
 option lockDown of its sub-interp

---
 src/jsiInterp.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/jsiInterp.c b/src/jsiInterp.c
index 3ad7609..4fdba9a 100644
--- a/src/jsiInterp.c
+++ b/src/jsiInterp.c
@@ -95,7 +95,7 @@ static Jsi_OptionSpec InterpOptions[] = {
     JSI_OPT(STRKEY,Jsi_Interp, jsppChars,   .help="Line preprocessor when sourcing files. Line starts with first char, and either ends with it, or matches string"),
     JSI_OPT(FUNC,  Jsi_Interp, jsppCallback,.help="Command to preprocess lines that match jsppChars. Call func(interpName:string, opCnt:number)"),
     JSI_OPT(INT,   Jsi_Interp, lockTimeout, .help="Thread time-out for mutex lock acquires (milliseconds)" ),
-    JSI_OPT(STRKEY,Jsi_Interp, lockDown,    .help="Directory to Safe-lockdown interpreter to" ),
+    JSI_OPT(STRKEY,Jsi_Interp, lockDown,    .help="Directory to Safe-lockdown interpreter to", jsi_IIOF ),
     JSI_OPT(CUSTOM,Jsi_Interp, logOpts,     .help="Options for log output to add file/line/time", .flags=0, .custom=Jsi_Opt_SwitchSuboption, .data=jsi_InterpLogOptions),
     JSI_OPT(CUSTOM,Jsi_Interp, log,         .help="Logging flags", .flags=JSI_OPT_CUST_NOCASE,  .custom=Jsi_Opt_SwitchBitset,  .data=jsi_LogCodes),
     JSI_OPT(INT,   Jsi_Interp, maxDepth,    .help="Depth limit of recursive function calls (1000)", .flags=JSI_OPT_LOCKSAFE),
@@ -1378,6 +1378,10 @@ static Jsi_Interp* jsi_InterpNew(Jsi_Interp *parent, Jsi_Value *opts, Jsi_Interp
             interp->safeWriteDirs = interp->safeReadDirs = NULL;
             interp->safeExecPattern = NULL;
         }
+        if (interp->lockDown) {
+            Jsi_LogWarn("ignoring lockDown option in safe sub-sub-interp");
+            interp->lockDown = NULL;
+        }
         // Enforce LOCKSAFE options.
         interp->maxDepth = parent->maxDepth;
         interp->maxArrayList = parent->maxArrayList;
-- 
2.43.0


From f0e5e71adbf3ee3d41d2b1dbccfbc6c5665afe3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:43 +0000
Subject: [PATCH 087/226] fix: a safe interp could read and write any database
 file by ATTACH, VACUUM INTO, backup and restore

---
 src/jsiSqlite.c | 35 +++++++++++++++++++++++++++++++++--
 1 file changed, 33 insertions(+), 2 deletions(-)

diff --git a/src/jsiSqlite.c b/src/jsiSqlite.c
index 395ec53..0fe95f8 100644
--- a/src/jsiSqlite.c
+++ b/src/jsiSqlite.c
@@ -1484,6 +1484,23 @@ static void jsiSqlFunc(sqlite3_context *context, int argc, sqlite3_value**argv)
     Jsi_DecrRefCount(interp, ret);
 }
 
+/* In a safe interp, check that database file zFile (by ATTACH or VACUUM INTO) is accessible. */
+static Jsi_RC dbSafeAccess(Jsi_Db *db, const char *zFile) {
+    Jsi_Interp *interp = db->interp;
+    Jsi_StatBuf st;
+    if (!zFile || !Jsi_Strncmp(zFile, "file:", 5))
+        return JSI_ERROR;
+    if (!zFile[0] || !Jsi_Strcmp(zFile, ":memory:"))
+        return JSI_OK;
+    Jsi_Value *vFile = Jsi_ValueNewStringDup(interp, zFile);
+    Jsi_IncrRefCount(interp, vFile);
+    Jsi_RC rc = Jsi_InterpAccess(interp, vFile, (db->readonly ? JSI_INTACCESS_READ : JSI_INTACCESS_WRITE));
+    if (rc == JSI_OK && Jsi_Lstat(interp, vFile, &st) != 0)
+        rc = Jsi_InterpAccess(interp, vFile, JSI_INTACCESS_CREATE);
+    Jsi_DecrRefCount(interp, vFile);
+    return rc;
+}
+
 /*
 ** This is the authentication function.  It appends the authentication
 ** type code and the two arguments to zCmd[] then invokes the result
@@ -1503,7 +1520,9 @@ static int dbAuthCallback(
     const char *zReply;
     Jsi_Db *db = (Jsi_Db*)pArg;
     Jsi_Interp *interp = db->interp;
-    if( db->disableAuth ) return SQLITE_OK;
+    if (code == SQLITE_ATTACH && Jsi_InterpSafe(interp) && dbSafeAccess(db, zArg1) != JSI_OK)
+        return SQLITE_DENY;
+    if( db->disableAuth || !db->onAuth ) return SQLITE_OK;
 
     switch( code ) {
     case SQLITE_COPY              :
@@ -3347,6 +3366,10 @@ static Jsi_RC SqliteRestoreCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_
         zSrcFile = Jsi_ValueNormalPath(interp, vFile, &dStr);
         if (zSrcFile == NULL) 
             return Jsi_LogErrorExt("bad or missing file name");
+        if (Jsi_InterpAccess(interp, vFile, JSI_INTACCESS_READ) != JSI_OK) {
+            Jsi_DSFree(&dStr);
+            return Jsi_LogErrorExt("Safe accces denied");
+        }
     }
     rc = sqlite3_open_v2(zSrcFile, &pSrc, SQLITE_OPEN_READONLY, 0);
 
@@ -3480,6 +3503,12 @@ static Jsi_RC SqliteBackupCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_t
         zDestFile = Jsi_ValueNormalPath(interp, vFile, &dStr);
         if (zDestFile == NULL) 
             return Jsi_LogErrorExt("bad or missing file name");
+        Jsi_StatBuf st;
+        if (Jsi_InterpAccess(interp, vFile, JSI_INTACCESS_WRITE) != JSI_OK ||
+            (Jsi_Lstat(interp, vFile, &st) != 0 && Jsi_InterpAccess(interp, vFile, JSI_INTACCESS_CREATE) != JSI_OK)) {
+            Jsi_DSFree(&dStr);
+            return Jsi_LogErrorExt("Safe accces denied");
+        }
     }
     rc = sqlite3_open(zDestFile, &pDest);
     if( rc!=SQLITE_OK ) {
@@ -3510,7 +3539,9 @@ static Jsi_RC SqliteBackupCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_t
 
 void dbSetupCallbacks(Jsi_Db *db, Jsi_Db *ojdb)
 {
-    if (db->onAuth && (!ojdb || !ojdb->onAuth) )
+    if (db->interp && Jsi_InterpSafe(db->interp))
+        sqlite3_set_authorizer(db->db, dbAuthCallback, db);
+    else if (db->onAuth && (!ojdb || !ojdb->onAuth) )
         sqlite3_set_authorizer(db->db, dbAuthCallback, db);
     else
         sqlite3_set_authorizer(db->db, 0, 0);
-- 
2.43.0


From a3bf5fa3ed26662c6db1683e14869fc01b26c7bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:06 +0000
Subject: [PATCH 088/226] fix: a safe interp needed read access to append to a
 file with a Channel

---
 src/jsiFilesys.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiFilesys.c b/src/jsiFilesys.c
index fe75e46..f653c4b 100644
--- a/src/jsiFilesys.c
+++ b/src/jsiFilesys.c
@@ -747,7 +747,7 @@ static int try_open_file(Jsi_Interp *interp, FileObj *udf, Jsi_Value *args)
         if (vmode && Jsi_ValueIsString(interp,vmode)) {
             mode = Jsi_ValueString(interp, vmode, NULL);
         }
-        int writ = (mode && (Jsi_Strchr(mode,'w')||Jsi_Strchr(mode,'+')));
+        int writ = (mode && (Jsi_Strchr(mode,'w')||Jsi_Strchr(mode,'a')||Jsi_Strchr(mode,'+')));
         int aflag = (writ ? JSI_INTACCESS_WRITE : JSI_INTACCESS_READ);
         if (interp->isSafe && Jsi_InterpAccess(interp, fname, aflag) != JSI_OK)
             return Jsi_LogError("Safe open failed");
-- 
2.43.0


From 7a903f7e4d5f0adb03ef887eac9ad5af9d200e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:58 +0000
Subject: [PATCH 089/226] fix: a directory listed with a trailing slash in
 safeReadDirs or safeWriteDirs was itself not accessible

---
 src/jsiInterp.c | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/jsiInterp.c b/src/jsiInterp.c
index 4fdba9a..d5d4648 100644
--- a/src/jsiInterp.c
+++ b/src/jsiInterp.c
@@ -2991,13 +2991,11 @@ Jsi_RC Jsi_InterpAccess(Jsi_Interp *interp, Jsi_Value* resource, int aflag)
         if (!v) continue;
         str = Jsi_ValueString(interp, v, &m);
         if (!str || m<=0) continue;
-        if (!Jsi_Strcmp(str, dstr)) // Exact match.
-            return JSI_OK;
+        if (m>1 && str[m-1]=='/')
+            m--;
         if (Jsi_Strncmp(str, dstr, m))
             continue;
-        if (m>1 && str[m-1]=='/')
-            return JSI_OK;
-        if (dstr[m] == '/')
+        if (!dstr[m] || dstr[m] == '/') // Exact match, or in the directory.
             return JSI_OK;
     }
     return JSI_ERROR;
-- 
2.43.0


From 5ba72b6d371ec38682ecf1a297abe1bcc4af1bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:52 +0000
Subject: [PATCH 090/226] fix: Zvfs.create removed an existing file that it
 could not open, even one that a safe interp may not write

---
 src/jsiZvfs.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiZvfs.c b/src/jsiZvfs.c
index cbeb720..cd81f21 100644
--- a/src/jsiZvfs.c
+++ b/src/jsiZvfs.c
@@ -1991,7 +1991,7 @@ static Jsi_RC CreateCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
             goto doexit;
         }
         chan = Jsi_Open(interp, Archive, "wb+");
-        create = 1;
+        create = (chan != 0);
     }
     if (chan==0 ) {
         rc = Jsi_LogError("archive create failed for: %s", SS(Archive));
-- 
2.43.0


From 4d71d83d4906565e6ac2c9130b4fe8bbbd3e450f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:51 +0000
Subject: [PATCH 091/226] fix: Sqlite created a new file in a locked down
 interp when given a link to a missing file

---
 src/jsiSqlite.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/jsiSqlite.c b/src/jsiSqlite.c
index 0fe95f8..59ad79c 100644
--- a/src/jsiSqlite.c
+++ b/src/jsiSqlite.c
@@ -1495,7 +1495,7 @@ static Jsi_RC dbSafeAccess(Jsi_Db *db, const char *zFile) {
     Jsi_Value *vFile = Jsi_ValueNewStringDup(interp, zFile);
     Jsi_IncrRefCount(interp, vFile);
     Jsi_RC rc = Jsi_InterpAccess(interp, vFile, (db->readonly ? JSI_INTACCESS_READ : JSI_INTACCESS_WRITE));
-    if (rc == JSI_OK && Jsi_Lstat(interp, vFile, &st) != 0)
+    if (rc == JSI_OK && Jsi_Stat(interp, vFile, &st) != 0)
         rc = Jsi_InterpAccess(interp, vFile, JSI_INTACCESS_CREATE);
     Jsi_DecrRefCount(interp, vFile);
     return rc;
@@ -3505,7 +3505,7 @@ static Jsi_RC SqliteBackupCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_t
             return Jsi_LogErrorExt("bad or missing file name");
         Jsi_StatBuf st;
         if (Jsi_InterpAccess(interp, vFile, JSI_INTACCESS_WRITE) != JSI_OK ||
-            (Jsi_Lstat(interp, vFile, &st) != 0 && Jsi_InterpAccess(interp, vFile, JSI_INTACCESS_CREATE) != JSI_OK)) {
+            (Jsi_Stat(interp, vFile, &st) != 0 && Jsi_InterpAccess(interp, vFile, JSI_INTACCESS_CREATE) != JSI_OK)) {
             Jsi_DSFree(&dStr);
             return Jsi_LogErrorExt("Safe accces denied");
         }
@@ -3712,7 +3712,7 @@ static Jsi_RC SqliteConstructor(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *
             return Jsi_LogError("bad or missing file name");
         Jsi_StatBuf st = {};
         st.st_uid = -1;
-        create = (Jsi_Lstat(interp, vFile, &st) != 0);
+        create = (Jsi_Stat(interp, vFile, &st) != 0);
     }
     zErrMsg = 0;
     Jsi_Db *db = (Jsi_Db*)Jsi_Calloc(1, sizeof(*db) );
-- 
2.43.0


From 63d399e6a87331b354cc6a014a321f9005b2f2b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:29 +0000
Subject: [PATCH 092/226] fix: Interp.value could not get variables of a
 sub-interp that is not executing

---
 src/jsiInterp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiInterp.c b/src/jsiInterp.c
index d5d4648..c3d44ad 100644
--- a/src/jsiInterp.c
+++ b/src/jsiInterp.c
@@ -2279,7 +2279,7 @@ static Jsi_RC InterpValueCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_th
     int lev = (int)nlev;
     if (lev <= 0)
         lev = f->level+lev;
-    if (lev <= 0 || lev > f->level)
+    if (lev != f->level && (lev <= 0 || lev > f->level)) // Level is 0 in an idle sub-interp.
         return Jsi_LogError("level %d not between 1 and %d", (int)nlev, f->level);
     while (f->level != lev  && f->parent)
         f = f->parent;
-- 
2.43.0


From 3dc0312b5932d7536767d19f803703d7aedd478e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:56 +0000
Subject: [PATCH 093/226] fix: freeing a deeply nested object, eg. a linked
 list of 10000 nodes, overflowed the stack

---
 src/jsiInt.h |  3 +++
 src/jsiObj.c | 20 +++++++++++++++++++-
 2 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/jsiInt.h b/src/jsiInt.h
index 4efb97e..6b7e899 100644
--- a/src/jsiInt.h
+++ b/src/jsiInt.h
@@ -547,6 +547,7 @@ struct Jsi_Obj {
     Jsi_Tree *tree;                 /* Tree storage (should be union with array). */
     Jsi_Value *__proto__;           /* TODO: memory leaks when this is changed */
     struct Jsi_Obj *constructor;
+    struct Jsi_Obj *freeNext;       /* Next in interp->objFreeList. */
     Jsi_Hash *setters, *getters;
     Jsi_AccessorSpec *accessorSpec;
     // struct Jsi_Value *next, *prev; // TODO: GC for container objects.
@@ -1267,6 +1268,8 @@ struct Jsi_Interp {
     Jsi_Value *NullValue;
     Jsi_Value *nullFuncArg; /* Efficient call of no-arg func */
     Jsi_Value *nullFuncRet;
+    Jsi_Obj *objFreeList;       /* Deeply nested objects still to be freed. */
+    int objFreeDepth;
     Jsi_Value *autoFiles;
     Jsi_Obj* cleanObjs[4];
     Jsi_Obj* allObjs;
diff --git a/src/jsiObj.c b/src/jsiObj.c
index 5c82139..5ba3a01 100644
--- a/src/jsiObj.c
+++ b/src/jsiObj.c
@@ -304,7 +304,7 @@ Jsi_Obj *Jsi_ObjNewType(Jsi_Interp *interp, Jsi_otype otype)
     return obj;
 }
 
-void Jsi_ObjFree(Jsi_Interp *interp, Jsi_Obj *obj)
+static void jsi_ObjFreeOne(Jsi_Interp *interp, Jsi_Obj *obj)
 {
     interp->dbPtr->objCnt--;
     //jsi_AllObjOp(interp, obj, 0);
@@ -369,6 +369,24 @@ void Jsi_ObjFree(Jsi_Interp *interp, Jsi_Obj *obj)
     Jsi_Free(obj);
 }
 
+#define JSI_MAX_OBJ_FREE_DEPTH 100
+
+void Jsi_ObjFree(Jsi_Interp *interp, Jsi_Obj *obj)
+{
+    if (interp->objFreeDepth >= JSI_MAX_OBJ_FREE_DEPTH) { // Avoid stack overflow, eg. for a linked list.
+        obj->freeNext = interp->objFreeList;
+        interp->objFreeList = obj;
+        return;
+    }
+    interp->objFreeDepth++;
+    jsi_ObjFreeOne(interp, obj);
+    while (interp->objFreeDepth == 1 && (obj = interp->objFreeList)) {
+        interp->objFreeList = obj->freeNext;
+        jsi_ObjFreeOne(interp, obj);
+    }
+    interp->objFreeDepth--;
+}
+
 
 /**************************** ARRAY ******************************/
 
-- 
2.43.0


From 7d49a4313619b4dd2c06ae64a09fbda3e885975a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:56 +0000
Subject: [PATCH 094/226] fix: Array.push lost the elements beyond maxArrayList
 without an error

---
 src/jsiArray.c | 3 ++-
 src/jsiValue.c | 8 +++-----
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/jsiArray.c b/src/jsiArray.c
index f3e543d..3f8b9fe 100644
--- a/src/jsiArray.c
+++ b/src/jsiArray.c
@@ -32,7 +32,8 @@ static Jsi_RC jsi_ArrayPushCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_
     for (i = 0; i < argc; ++i) {
         Jsi_Value *ov = Jsi_ValueArrayIndex(interp, args, i);
         if (!ov) { Jsi_LogBug("Arguments Error"); ov = Jsi_ValueNew(interp); }
-        Jsi_ValueInsertArray(interp, _this, curlen + i, ov, 0);
+        if (Jsi_ValueInsertArray(interp, _this, curlen + i, ov, 0) != JSI_OK)
+            return JSI_ERROR;
     }
     
     Jsi_ValueMakeNumber(interp, ret, jsi_SizeOfArray(interp, obj));
diff --git a/src/jsiValue.c b/src/jsiValue.c
index 3e89e2f..550ca77 100644
--- a/src/jsiValue.c
+++ b/src/jsiValue.c
@@ -1314,11 +1314,9 @@ Jsi_RC Jsi_ValueInsertArray(Jsi_Interp *interp, Jsi_Value *target, int key, Jsi_
     Jsi_Obj *obj = target->d.obj;
     
     if (obj->isarrlist) {
-        if (key >= 0 && (uint)key < interp->maxArrayList) {
-            Jsi_ValueArraySet(interp, target, val, key);
-            return JSI_OK;
-        }
-        return JSI_ERROR;
+        if (key >= 0 && (uint)key < interp->maxArrayList)
+            return Jsi_ValueArraySet(interp, target, val, key);
+        return Jsi_LogError("array size too big: %d >= %u", key, interp->maxArrayList);
     }
     char unibuf[JSI_MAX_NUMBER_STRING];
     Jsi_NumberItoA10(key, unibuf, sizeof(unibuf));
-- 
2.43.0


From ac12be3410a903d60efb3fc51afe95a49521a7cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:56 +0000
Subject: [PATCH 095/226] fix: JSON.parse lost the array elements beyond
 maxArrayList without an error

---
 src/jsiJSON.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/jsiJSON.c b/src/jsiJSON.c
index 4888c4a..2c68c92 100644
--- a/src/jsiJSON.c
+++ b/src/jsiJSON.c
@@ -175,6 +175,7 @@ jsonGenArray(Jsi_Interp *interp, Jsi_JsonParser *p, const char *js, uint pos, ui
     for (i=pos+1, n=0; i<p->toknext && n<tok->size; i++, n++) {
         if (n >= nobj->arrMaxSize) {
             if (Jsi_ObjArraySizer(interp, nobj, n+1)<=0) {
+                p->errStr = "array too big";
                 break;
             }
         }
-- 
2.43.0


From d82fed7ca4415a4d160ecd5d8a46c874acefc232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:56 +0000
Subject: [PATCH 096/226] fix: String.match lost the matches beyond
 maxArrayList without an error

---
 src/jsiRegexp.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/jsiRegexp.c b/src/jsiRegexp.c
index 35091c9..2a5ca29 100644
--- a/src/jsiRegexp.c
+++ b/src/jsiRegexp.c
@@ -296,7 +296,10 @@ Jsi_RC jsi_RegExpMatches(Jsi_Interp *interp, Jsi_Value *pattern, const char *str
                 char *ostr = jsi_SubstrDup(str, -1, pos[i].rm_so, pos[i].rm_eo - pos[i].rm_so, &olen);
                 val = Jsi_ValueMakeBlob(interp, NULL, (uchar*)ostr, olen);
             }
-            Jsi_ValueInsertArray(interp, ret, num_matches, val, 0);
+            if (Jsi_ValueInsertArray(interp, ret, num_matches, val, 0) != JSI_OK) {
+                Jsi_DecrRefCount(interp, val);
+                return JSI_ERROR;
+            }
             num_matches++;
         }
         at = pos[0].rm_eo;
-- 
2.43.0


From b02cae9318efc9e54c3263628e0adca1d8180a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:26 +0000
Subject: [PATCH 097/226] fix: Object.values lost the values beyond
 maxArrayList without an error

---
 src/jsiObj.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/jsiObj.c b/src/jsiObj.c
index 5ba3a01..b73bf8e 100644
--- a/src/jsiObj.c
+++ b/src/jsiObj.c
@@ -154,8 +154,7 @@ Jsi_RC Jsi_ObjGetValues(Jsi_Interp *interp, Jsi_Obj *obj, Jsi_Value *outVal, Jsi
         }
         return JSI_OK;
     }
-    Jsi_TreeWalk(obj->tree, ObjListifyValuesCallback, Jsi_ValueGetObj(interp, outVal), 0);
-    return JSI_OK;
+    return Jsi_TreeWalk(obj->tree, ObjListifyValuesCallback, Jsi_ValueGetObj(interp, outVal), 0);
 }
 
 void Jsi_IterObjFree(Jsi_IterObj *iobj)
-- 
2.43.0


From b341641f0666c31f789e4a08dcacdeaf51b28425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:26 +0000
Subject: [PATCH 098/226] fix: String.match leaked a value when the array of
 matches is full

---
 src/jsiRegexp.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/jsiRegexp.c b/src/jsiRegexp.c
index 2a5ca29..bb4dd39 100644
--- a/src/jsiRegexp.c
+++ b/src/jsiRegexp.c
@@ -296,10 +296,11 @@ Jsi_RC jsi_RegExpMatches(Jsi_Interp *interp, Jsi_Value *pattern, const char *str
                 char *ostr = jsi_SubstrDup(str, -1, pos[i].rm_so, pos[i].rm_eo - pos[i].rm_so, &olen);
                 val = Jsi_ValueMakeBlob(interp, NULL, (uchar*)ostr, olen);
             }
-            if (Jsi_ValueInsertArray(interp, ret, num_matches, val, 0) != JSI_OK) {
-                Jsi_DecrRefCount(interp, val);
-                return JSI_ERROR;
-            }
+            Jsi_IncrRefCount(interp, val);
+            Jsi_RC rc = Jsi_ValueInsertArray(interp, ret, num_matches, val, 0);
+            Jsi_DecrRefCount(interp, val);
+            if (rc != JSI_OK)
+                return rc;
             num_matches++;
         }
         at = pos[0].rm_eo;
-- 
2.43.0


From 56a47b86da9b1612aff95d060f31b07908ec7dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:41 +0000
Subject: [PATCH 099/226] fix: an array literal longer than maxArrayList gave
 undefined without an error

---
 src/jsiEval.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/jsiEval.c b/src/jsiEval.c
index 5c80f42..355b199 100644
--- a/src/jsiEval.c
+++ b/src/jsiEval.c
@@ -1991,6 +1991,10 @@ undef_eval:
                 Assert(itemcount>=0);
                 jsiVarDeref(interp, itemcount);
                 Jsi_Obj *obj = Jsi_ObjNewArray(interp, _jsi_STACK+(fp->Sp-itemcount), itemcount, 1);
+                if (!obj) {
+                    rc = JSI_ERROR;
+                    break;
+                }
                 jsiPop(interp, itemcount - 1);
                 jsiClearStack(interp,1);
                 Jsi_ValueMakeObject(interp, &_jsi_TOP, obj);
-- 
2.43.0


From 91089505788735e33aa79f642f4b702a7ee017a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:41 +0000
Subject: [PATCH 100/226] fix: Sqlite.query lost the rows beyond maxArrayList
 without an error

---
 src/jsiSqlite.c | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/jsiSqlite.c b/src/jsiSqlite.c
index 59ad79c..dde7def 100644
--- a/src/jsiSqlite.c
+++ b/src/jsiSqlite.c
@@ -2574,6 +2574,15 @@ static void dbOutputHexBlob(Jsi_DString *dStr, const void *pBlob, int nBlob){
 
 #define FN_sqlexec JSI_INFO("\
 Return values in formatted as JSON, HTML, etc. , optionally calling function with a result object")
+/* Append v to array, freeing it if it does not fit. */
+static Jsi_RC dbArrayAdd(Jsi_Interp *interp, Jsi_Obj *obj, Jsi_Value *v)
+{
+    Jsi_IncrRefCount(interp, v);
+    Jsi_RC rc = Jsi_ObjArrayAdd(interp, obj, v);
+    Jsi_DecrRefCount(interp, v);
+    return rc;
+}
+
 static Jsi_RC SqliteQueryCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
                              Jsi_Value **ret, Jsi_Func *funcPtr)
 {
@@ -3039,7 +3048,7 @@ static Jsi_RC SqliteQueryCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_th
                 vcur = dbEvalSetColumnValue(&sEval, i, NULL);
                 Jsi_ObjInsert(interp, ocur, apColName[i], vcur, 0);
             }
-            Jsi_ObjArrayAdd(interp, oall, vrow);
+            if ((rc=dbArrayAdd(interp, oall, vrow)) != JSI_OK) break;
             cnt++;
             if (opts.limit && cnt>=opts.limit) break;
         }
@@ -3073,7 +3082,7 @@ static Jsi_RC SqliteQueryCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_th
                 vcur = dbEvalSetColumnValue(&sEval, i, NULL);
                 Jsi_ObjArrayAdd(interp, ocur, vcur);
             }
-            Jsi_ObjArrayAdd(interp, oall, vrow);
+            if ((rc=dbArrayAdd(interp, oall, vrow)) != JSI_OK) break;
             cnt++;
             if (opts.limit && cnt>=opts.limit) break;
         }
@@ -3100,10 +3109,11 @@ static Jsi_RC SqliteQueryCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_th
                     Jsi_ObjArrayAdd(interp, oall, vcur);
                 }
             }
-            for(i=0; i<nCol; i++) {
+            for(i=0; i<nCol && rc==JSI_OK; i++) {
                 vcur = dbEvalSetColumnValue(&sEval, i, NULL);
-                Jsi_ObjArrayAdd(interp, oall, vcur);
+                rc = dbArrayAdd(interp, oall, vcur);
             }
+            if (rc != JSI_OK) break;
             cnt++;
             if (opts.limit && cnt>=opts.limit) break;
         }
-- 
2.43.0


From b3e05eaf23d2423573a60e66fae018f1eddb4d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:37 +0000
Subject: [PATCH 101/226] fix: an error from busyCallback was lost when the
 next operation succeeded

---
 src/jsiEval.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/jsiEval.c b/src/jsiEval.c
index 355b199..bd5c8bb 100644
--- a/src/jsiEval.c
+++ b/src/jsiEval.c
@@ -1244,6 +1244,14 @@ Jsi_RC jsiEvalCodeSub(jsi_Pstate *ps, Jsi_OpCodes *opcodes,
                 if (Jsi_FunctionInvokeJSON(interp->parent, interp->busyCallback, Jsi_DSValue(&nStr), NULL, NULL) != JSI_OK)
                     rc = JSI_ERROR;
                 Jsi_DSFree(&nStr);
+                if (rc != JSI_OK) {
+                    rc = jsiDoThrow(interp, ps, &ip, &trylist,&scope, &currentScope, &context_id,
+                        (interp->framePtr->Sp?_jsi_TOP:NULL), "error");
+                    if (rc != JSI_OK)
+                        break;
+                    ip++;
+                    continue;
+                }
             }
         }
         ip->hit=1;
-- 
2.43.0


From 5a2f23473c077e97788e912ff95b0605b0b86d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:27 +0000
Subject: [PATCH 102/226] fix: Sqlite methods crashed on an empty statement
 such as a trailing comment

---
 src/jsiSqlite.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/jsiSqlite.c b/src/jsiSqlite.c
index dde7def..8f8af64 100644
--- a/src/jsiSqlite.c
+++ b/src/jsiSqlite.c
@@ -782,6 +782,7 @@ static Jsi_RC dbEvalStep(DbEvalContext *p) {
         if( p->pPreStmt==0 ) {
             rc = dbPrepareAndBind(p->db, p->zSql, &p->zSql, &p->pPreStmt);
             if( rc!=JSI_OK ) return rc;
+            if( p->pPreStmt==0 ) continue;  /* Only a comment or white-space. */
         }
         rc = dbEvalStepSub(p, 1, NULL);
         if (rc != JSI_BREAK)
@@ -987,7 +988,7 @@ static Jsi_RC dbPrepareAndBind(
 ) {
     if (dbPrepareStmt(db, zIn, pzOut, ppPreStmt) != JSI_OK)
         return JSI_ERROR;
-    return dbBindStmt(db, *ppPreStmt);
+    return *ppPreStmt ? dbBindStmt(db, *ppPreStmt) : JSI_OK;
 }
 #endif
 
-- 
2.43.0


From d650b224e13080f8a278ffe9b5d9306520b8ac1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:27 +0000
Subject: [PATCH 103/226] fix: the type of a Sqlite bind was also applied to
 the binds after it

---
 src/jsiSqlite.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/jsiSqlite.c b/src/jsiSqlite.c
index 8f8af64..d652ac9 100644
--- a/src/jsiSqlite.c
+++ b/src/jsiSqlite.c
@@ -809,6 +809,7 @@ static Jsi_RC dbBindStmt(Jsi_Db *db, SqlPreparedStmt *prep)
    /* Bind values to parameters that begin with @, $, :, or ? */
     for(i=1; i<=nVar; i++) {
         tname[0] = 0;
+        btype = bindArr = 0;
         int isInt = 0, isBlob = 0;
         const char *zVar = sqlite3_bind_parameter_name(pStmt, i);
         if (zVar == NULL) {
-- 
2.43.0


From abf912bdbcb770ffb963609de28fa12c768f5f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:27 +0000
Subject: [PATCH 104/226] fix: a Sqlite bool bind rejected booleans and
 accepted numbers

---
 src/jsiSqlite.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiSqlite.c b/src/jsiSqlite.c
index d652ac9..2007143 100644
--- a/src/jsiSqlite.c
+++ b/src/jsiSqlite.c
@@ -916,7 +916,7 @@ static Jsi_RC dbBindStmt(Jsi_Db *db, SqlPreparedStmt *prep)
                         if (cast)
                             Jsi_ValueToBool(interp, pv);
                         else
-                            match = Jsi_ValueIsNumber(interp, pv);
+                            match = Jsi_ValueIsBoolean(interp, pv);
                         break;
                     case JSI_OPTION_TIME_D:
                         if (cast)
-- 
2.43.0


From 3beac6285924ce720b0fde42ed9e8c901f919679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:00 +0000
Subject: [PATCH 105/226] fix: a typed Sqlite bind converted the script
 variable in place

---
 src/jsiSqlite.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/jsiSqlite.c b/src/jsiSqlite.c
index 2007143..a2a21be 100644
--- a/src/jsiSqlite.c
+++ b/src/jsiSqlite.c
@@ -802,7 +802,7 @@ static Jsi_RC dbBindStmt(Jsi_Db *db, SqlPreparedStmt *prep)
     Jsi_Number r;
     Jsi_Wide wv;
  
-    Jsi_Value *pv = NULL, *apv = NULL;
+    Jsi_Value *pv = NULL, *apv = NULL, *cv = NULL;
     int nVar = sqlite3_bind_parameter_count(pStmt);
     char tname[50];
     
@@ -887,6 +887,10 @@ static Jsi_RC dbBindStmt(Jsi_Db *db, SqlPreparedStmt *prep)
         } else {
             int match = 1, cast = (db->optPtr->typeCheck==dbTypeCheck_Cast);
             if (btype && !Jsi_ValueIsUndef(interp, pv)) {
+                if (cast) { /* Convert a copy, not the script variable. */
+                    pv = cv = Jsi_ValueDup(interp, pv);
+                    Jsi_IncrRefCount(interp, cv);
+                }
                 switch (btype) {
                     case JSI_OPTION_STRBUF:
                         isBlob = 1;
@@ -977,7 +981,12 @@ static Jsi_RC dbBindStmt(Jsi_Db *db, SqlPreparedStmt *prep)
             }
 
         }
+        if (cv)
+            Jsi_DecrRefCount(interp, cv);
+        cv = NULL;
     }
+    if (cv)
+        Jsi_DecrRefCount(interp, cv);
     return rc;
 }
 
-- 
2.43.0


From 95246efb1bfb9172ce2eda4fcae8ba986e548d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:00 +0000
Subject: [PATCH 106/226] fix: a Sqlite query run again from its own callback
 aborted

---
 src/jsiSqlite.c | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/jsiSqlite.c b/src/jsiSqlite.c
index a2a21be..88920d8 100644
--- a/src/jsiSqlite.c
+++ b/src/jsiSqlite.c
@@ -157,6 +157,7 @@ typedef struct SqlPreparedStmt SqlPreparedStmt;
 struct SqlPreparedStmt {
     Sqlite_Sig sig;
     int deleting;
+    int inUse;               /* Being stepped by an unfinished query. */
     SqlPreparedStmt *pNext;  /* Next in linked list */
     SqlPreparedStmt *pPrev;  /* Previous on the list */
     sqlite3_stmt    *pStmt;  /* The prepared statement */
@@ -619,7 +620,8 @@ static void dbReleaseStmt(
     }*/
     //pPreStmt->nParm = 0;
 
-    if( db->stmtCacheMax<=0 || discard ) {
+    pPreStmt->inUse = 0;
+    if( db->stmtCacheMax<=0 || discard || !pPreStmt->entry ) {
         /* If the cache is turned off, deallocated the statement */
         dbPrepStmtFree(db, pPreStmt);
     } else {
@@ -694,7 +696,9 @@ static Jsi_RC dbPrepareStmt(
     }
     //nSql = Jsi_Strlen(zSql);
     Jsi_HashEntry *entry = Jsi_HashEntryFind(db->stmtHash, zSql);
-    if (entry && ((pPreStmt = (SqlPreparedStmt*)Jsi_HashValueGet(entry)))) {
+    if (entry && ((pPreStmt = (SqlPreparedStmt*)Jsi_HashValueGet(entry))) && pPreStmt->inUse)
+        pPreStmt = NULL;  /* Called from within the same query: use another statement. */
+    if (pPreStmt) {
         
         if (db->debug & TMODE_PREPARE)
             JSI_DBQUERY_PRINTF( "DEBUG: prepare cache-hit: %s\n", zSql);
@@ -747,16 +751,19 @@ static Jsi_RC dbPrepareStmt(
         pPreStmt->nSql = (*pzOut - zSql);
         pPreStmt->zSql = sqlite3_sql(pStmt);
         bool isNew = 0;
-        pPreStmt->entry = Jsi_HashEntryNew(db->stmtHash, zSql, &isNew);
-        if (!isNew)
-            JSI_DBQUERY_PRINTF( "sqlite dup stmt entry");
-        Jsi_HashValueSet(pPreStmt->entry, pPreStmt);
+        if (!entry) {
+            pPreStmt->entry = Jsi_HashEntryNew(db->stmtHash, zSql, &isNew);
+            if (!isNew)
+                JSI_DBQUERY_PRINTF( "sqlite dup stmt entry");
+            Jsi_HashValueSet(pPreStmt->entry, pPreStmt);
+        }
             
         //pPreStmt->apParm = (Jsi_Value **)&pPreStmt[1];
     }
     assert( pPreStmt );
     assert( Jsi_Strlen(pPreStmt->zSql)==pPreStmt->nSql );
     assert( 0==memcmp(pPreStmt->zSql, zSql, pPreStmt->nSql) );
+    pPreStmt->inUse = 1;
     *ppPreStmt = pPreStmt;
     //pPreStmt->nParm = iParm; 
     return rc;
-- 
2.43.0


From c34949bab881c8e5f6ab4bc11539a76d3da67f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:00 +0000
Subject: [PATCH 107/226] fix: Sqlite.query with a callback ignored its errors,
 a false result and limit

---
 src/jsiSqlite.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/jsiSqlite.c b/src/jsiSqlite.c
index 88920d8..4e994d8 100644
--- a/src/jsiSqlite.c
+++ b/src/jsiSqlite.c
@@ -1980,11 +1980,17 @@ static Jsi_RC dbEvalCallCmd( DbEvalContext *p, Jsi_Interp *interp, Jsi_RC result
             Jsi_ObjInsert(interp, argso, apColName[i], nnv, 0);
         }
         Jsi_IncrRefCount(interp, varg1);
-        bool rb = Jsi_FunctionInvokeBool(interp, p->tocall, varg1, NULL);
+        Jsi_Value *vpargs = Jsi_ValueMakeObject(interp, NULL, Jsi_ObjNewArray(interp, &varg1, 1, 1));
+        Jsi_IncrRefCount(interp, vpargs);
+        Jsi_Value *ret = Jsi_ValueNew1(interp);
+        rc = Jsi_FunctionInvoke(interp, p->tocall, vpargs, &ret, NULL);
+        bool stop = (Jsi_ValueIsBoolean(interp, ret) && !Jsi_ValueIsTrue(interp, ret));
+        Jsi_DecrRefCount(interp, ret);
+        Jsi_DecrRefCount(interp, vpargs);
         Jsi_DecrRefCount(interp, varg1);
         if (Jsi_InterpGone(interp))
             return JSI_ERROR;
-        if (rb)
+        if (stop || (p->db->optPtr->limit && cnt>=p->db->optPtr->limit))
             break;
     }
     //dbEvalFinalize(p);
-- 
2.43.0


From fde5b4b63111684f77215c425107e4fdc1b1ecbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:45 +0000
Subject: [PATCH 108/226] fix: setting a smaller stmtCacheMax while a query was
 active aborted

---
 src/jsiSqlite.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiSqlite.c b/src/jsiSqlite.c
index 4e994d8..106deb8 100644
--- a/src/jsiSqlite.c
+++ b/src/jsiSqlite.c
@@ -568,7 +568,7 @@ static void dbPrepStmtFree( Jsi_Db *db, SqlPreparedStmt *prep)
 
 static void dbPrepStmtLimit( Jsi_Db *db)
 {
-    while(db->stmtCacheCnt>db->stmtCacheMax ) {
+    while((int)Jsi_ListSize(db->stmtCache)>(db->stmtCacheMax>0?db->stmtCacheMax:0)) {
         Jsi_ListEntry *l = Jsi_ListPopBack(db->stmtCache);
         dbPrepStmtFree(db, (SqlPreparedStmt*)Jsi_ListValueGet(l));
         db->stmtCacheCnt = Jsi_ListSize(db->stmtCache);
-- 
2.43.0


From 6e6ebafa31f4ef7a51186de1560887d5d6d4cb19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:45 +0000
Subject: [PATCH 109/226] fix: Sqlite.query ignored nullvalue, and mode insert
 gave an empty string for null

---
 src/jsiSqlite.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/jsiSqlite.c b/src/jsiSqlite.c
index 106deb8..7b139a4 100644
--- a/src/jsiSqlite.c
+++ b/src/jsiSqlite.c
@@ -1869,6 +1869,7 @@ static void dbEvalSetColumn(DbEvalContext *p, int iCol, Jsi_DString *dStr) {
         return;
     }
     case SQLITE_NULL: {
+        Jsi_DSAppend(dStr, p->db->optPtr->nullvalue, NULL);
         return;
     }
     }
@@ -2932,7 +2933,7 @@ static Jsi_RC SqliteQueryCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_th
                 
                 azArg = Jsi_DSValue(&vStr);
                 const char *zSep = i>0 ? ",": "";
-                if(apColType && apColType[i]==SQLITE_NULL) {
+                if(ptype==SQLITE_NULL) {
                   Jsi_DSAppend(dStr, zSep, "NULL", NULL);
                 }else if( ptype ==SQLITE_TEXT ) {
                   if( zSep[0] ) Jsi_DSAppend(dStr,zSep, NULL);
-- 
2.43.0


From ac9a9cf7abc769dbdfc4d3793dca6cef857eb75f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:45 +0000
Subject: [PATCH 110/226] fix: Sqlite.query mode insert with limit added the
 other rows as csv

---
 src/jsiSqlite.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/jsiSqlite.c b/src/jsiSqlite.c
index 7b139a4..b217ef0 100644
--- a/src/jsiSqlite.c
+++ b/src/jsiSqlite.c
@@ -2957,6 +2957,7 @@ static Jsi_RC SqliteQueryCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_th
             if (opts.limit && cnt>=opts.limit) break;
         }
         Jsi_DSFree(&vStr);
+        break;
     }
 
     case _JSI_EF_TABS:
-- 
2.43.0


From 688cf1203099ce98b7ed491eb9d9a5a5a60910f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:45 +0000
Subject: [PATCH 111/226] fix: csv output did not quote values containing a
 longer separator

---
 src/jsiSqlite.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiSqlite.c b/src/jsiSqlite.c
index b217ef0..87f6be2 100644
--- a/src/jsiSqlite.c
+++ b/src/jsiSqlite.c
@@ -2509,7 +2509,7 @@ static void dbOutputCsv(QueryOpts *p, const char *z, Jsi_DString *dStr, int bSep
         int nSep = Jsi_Strlen(p->separator);
         for(i=0; z[i]; i++) {
             if( needCsvQuote[((unsigned char*)z)[i]] || 
-                (z[i]==p->separator[0] && (nSep==1 || memcmp(z, p->separator, nSep)==0)) ) {
+                (z[i]==p->separator[0] && (nSep==1 || Jsi_Strncmp(z+i, p->separator, nSep)==0)) ) {
                 i = 0;
                 break;
             }
-- 
2.43.0


From 9ae73fa5018488162464f7045e750775dc783f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:45 +0000
Subject: [PATCH 112/226] fix: Sqlite.collate used its function after free and
 strings beyond their end

---
 src/jsiSqlite.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/jsiSqlite.c b/src/jsiSqlite.c
index 87f6be2..29d53ea 100644
--- a/src/jsiSqlite.c
+++ b/src/jsiSqlite.c
@@ -1081,6 +1081,7 @@ static void dbDeleteCmd(Jsi_Db *db)
     while( db->pCollate ) {
         SqlCollate *pCollate = db->pCollate;
         db->pCollate = pCollate->pNext;
+        Jsi_DecrRefCount(interp, pCollate->zScript);
         Jsi_Free((char*)pCollate);
     }
 
@@ -1334,9 +1335,10 @@ static int dbSqlCollate(
     Jsi_Value *vpargs, *items[3], *ret;
 
     items[0] = Jsi_ValueNewObj(interp, p->db->fobj);
-    items[1] = Jsi_ValueMakeStringDup(interp, NULL, (char*)zA);
-    items[2] = Jsi_ValueMakeStringDup(interp, NULL, (char*)zB);
+    items[1] = Jsi_ValueNewBlob(interp, (uchar*)zA, nA);
+    items[2] = Jsi_ValueNewBlob(interp, (uchar*)zB, nB);
     vpargs = Jsi_ValueMakeObject(interp, NULL, Jsi_ObjNewArray(interp, items, 3, 0));
+    Jsi_IncrRefCount(interp, vpargs);
     ret = Jsi_ValueNew1(interp);
     rc = Jsi_FunctionInvoke(interp, p->zScript, vpargs, &ret, NULL);
     if( JSI_OK!=rc ) {
@@ -2073,6 +2075,7 @@ static Jsi_RC SqliteCollateCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_
     pCollate->interp = interp;
     pCollate->pNext = db->pCollate;
     pCollate->zScript = func; /*(char*)&pCollate[1];*/
+    Jsi_IncrRefCount(interp, func);
     db->pCollate = pCollate;
 
     if( sqlite3_create_collation(db->db, zName, SQLITE_UTF8, pCollate, dbSqlCollate) )
-- 
2.43.0


From 5a01b7f65a1c9ee3cf50091c26d92e1dccd05f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:45 +0000
Subject: [PATCH 113/226] fix: SQL regexp() crashed on NULL

---
 src/jsiSqlite.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/jsiSqlite.c b/src/jsiSqlite.c
index 29d53ea..58cfd1f 100644
--- a/src/jsiSqlite.c
+++ b/src/jsiSqlite.c
@@ -1424,7 +1424,9 @@ static void jsiSqlFuncRegexp(sqlite3_context *context, int argc, sqlite3_value**
         return;
     }
     const char *str = (char *)sqlite3_value_text(argv[1]);
-    char *spat = (char *)sqlite3_value_text(argv[0]), *mod = (char *)sqlite3_value_text(argv[2]);
+    char *spat = (char *)sqlite3_value_text(argv[0]), *mod = (argc>2 ? (char *)sqlite3_value_text(argv[2]) : NULL);
+    if (!str || !spat)
+        return;  /* Result is NULL. */
     int rc = 0;
     bool isNew = 0;
     Jsi_Value *pat = NULL;
-- 
2.43.0


From 380eb796748889727437d97ad042987625290014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:45 +0000
Subject: [PATCH 114/226] fix: Sqlite.func refused functions of more than 6
 arguments

---
 src/jsiSqlite.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiSqlite.c b/src/jsiSqlite.c
index 58cfd1f..4b33a15 100644
--- a/src/jsiSqlite.c
+++ b/src/jsiSqlite.c
@@ -3317,7 +3317,7 @@ static Jsi_RC SqliteFunctionCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *
     } else {
         Jsi_FunctionArguments(interp, tocall, &nArg);
     }
-    if (nArg > SQLITE_LIMIT_FUNCTION_ARG) 
+    if (nArg > sqlite3_limit(db->db, SQLITE_LIMIT_FUNCTION_ARG, -1)) 
         return Jsi_LogErrorExt("to many args");
     /*  if( argc==6 ){
         const char *z = Jsi_GetString(objv[3]);
-- 
2.43.0


From 36353a9f98ffde2c7bc39c3a7b2d3f70a4177857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:45 +0000
Subject: [PATCH 115/226] fix: redefining a Sqlite function leaked the old one

---
 src/jsiSqlite.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/jsiSqlite.c b/src/jsiSqlite.c
index 4b33a15..883951a 100644
--- a/src/jsiSqlite.c
+++ b/src/jsiSqlite.c
@@ -3338,8 +3338,10 @@ static Jsi_RC SqliteFunctionCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *
     if( pFunc==0 ) return JSI_ERROR;
     SQLSIGASSERT(pFunc,FUNC);
 
+    Jsi_IncrRefCount(interp, tocall);
+    if (pFunc->tocall)
+        Jsi_DecrRefCount(interp, pFunc->tocall);
     pFunc->tocall = tocall;
-    Jsi_IncrRefCount(interp, pFunc->tocall);
     rc = sqlite3_create_function(db->db, zName, nArg, SQLITE_UTF8,
                                  pFunc, jsiSqlFunc, 0, 0);
                                  
-- 
2.43.0


From 6aa11d1dc4a591b484f9dd4c71116017365b2fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:34 +0000
Subject: [PATCH 116/226] fix: any Sqlite.conf call, even to read an option,
 turned off the callbacks set before

---
 src/jsiSqlite.c | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/src/jsiSqlite.c b/src/jsiSqlite.c
index 883951a..26968ef 100644
--- a/src/jsiSqlite.c
+++ b/src/jsiSqlite.c
@@ -3584,52 +3584,52 @@ void dbSetupCallbacks(Jsi_Db *db, Jsi_Db *ojdb)
 {
     if (db->interp && Jsi_InterpSafe(db->interp))
         sqlite3_set_authorizer(db->db, dbAuthCallback, db);
-    else if (db->onAuth && (!ojdb || !ojdb->onAuth) )
+    else if (db->onAuth)
         sqlite3_set_authorizer(db->db, dbAuthCallback, db);
     else
         sqlite3_set_authorizer(db->db, 0, 0);
 
-    if (db->onCommit && (!ojdb || !ojdb->onCommit) )
+    if (db->onCommit)
         sqlite3_commit_hook(db->db, dbCommitHandler, db);
     else
         sqlite3_commit_hook(db->db, 0, 0);
 
-    if (db->onBusy && (!ojdb || !ojdb->onBusy) )
+    if (db->onBusy)
         sqlite3_busy_handler(db->db, dbBusyHandler, db);
     else
-        sqlite3_busy_handler(db->db, 0, 0);
+        sqlite3_busy_timeout( db->db, db->timeout );
     
-    if (db->onTrace && (!ojdb || !ojdb->onTrace) )
+    if (db->onTrace)
         sqlite3_trace(db->db, dbTraceHandler, db);
     else
         sqlite3_trace(db->db, 0, 0);
 
-    if (db->onNeedCollate && (!ojdb || !ojdb->onNeedCollate) )
+    if (db->onNeedCollate)
         sqlite3_collation_needed(db->db, db, dbCollateNeeded);
     else
         sqlite3_collation_needed(db->db, 0, 0);
 
-    if (db->onUpdate && (!ojdb || !ojdb->onUpdate) )
+    if (db->onUpdate)
         sqlite3_update_hook(db->db, dbUpdateHandler, db);
     else
         sqlite3_update_hook(db->db, 0, 0);
 
-    if (db->onWalHook && (!ojdb || !ojdb->onWalHook) )
+    if (db->onWalHook)
         sqlite3_wal_hook(db->db, dbWalHandler, db);
     else
         sqlite3_wal_hook(db->db, 0, 0);
 
-    if (db->onRollback && (!ojdb || !ojdb->onRollback) )
+    if (db->onRollback)
         sqlite3_rollback_hook(db->db, dbRollbackHandler, db);
     else
         sqlite3_rollback_hook(db->db, 0, 0);
 
-    if (db->onProfile && (!ojdb || !ojdb->onProfile) )
+    if (db->onProfile)
         sqlite3_profile(db->db, dbProfileHandler, db);
     else
         sqlite3_profile(db->db, 0, 0);
 
-    if (db->onProgress && db->progressSteps && (!ojdb || !ojdb->onProgress || ojdb->progressSteps != db->progressSteps) )
+    if (db->onProgress && db->progressSteps)
         sqlite3_progress_handler(db->db, db->progressSteps, dbProgressHandler, db);
     else
         sqlite3_progress_handler(db->db, 0, 0, 0);
@@ -3637,9 +3637,6 @@ void dbSetupCallbacks(Jsi_Db *db, Jsi_Db *ojdb)
     if (!ojdb || db->load != ojdb->load)
         sqlite3_enable_load_extension(db->db, db->load);
 
-    if (!ojdb || db->timeout != ojdb->timeout)
-        sqlite3_busy_timeout( db->db, db->timeout );
-
 /*    if (db->onUnlock && (!ojdb || !ojdb->onUnlock) )
         sqlite3_unlock_notify(db->db, dbUnlockNotify, (void*)db);
     else
-- 
2.43.0


From c1788000a11f74edca9b6e085374acbfd9c6eb72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:34 +0000
Subject: [PATCH 117/226] fix: Sqlite onCommit and onRollback lacked their
 argument, onAuth and onWalHook aborted

---
 src/jsiSqlite.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/jsiSqlite.c b/src/jsiSqlite.c
index 26968ef..1af4035 100644
--- a/src/jsiSqlite.c
+++ b/src/jsiSqlite.c
@@ -1215,7 +1215,7 @@ static int dbCommitHandler(void *cd) {
     items[0] = Jsi_ValueNewObj(interp, db->fobj);
     vpargs = Jsi_ValueMakeObject(interp, NULL, Jsi_ObjNewArray(interp, items, 1, 0));
     Jsi_IncrRefCount(interp, vpargs);
-    if( JSI_OK!=Jsi_FunctionInvoke(interp, db->onCommit, NULL, &ret, NULL) ) {
+    if( JSI_OK!=Jsi_FunctionInvoke(interp, db->onCommit, vpargs, &ret, NULL) ) {
         db->errCnt++;
         rc = 1;
     } else
@@ -1239,7 +1239,7 @@ static int dbWalHandler( void *cd, sqlite3 *sdb, const char *zDb, int nEntry ){
     items[2] = Jsi_ValueMakeNumber(interp, NULL, (Jsi_Number)nEntry);
     vpargs = Jsi_ValueMakeObject(interp, NULL, Jsi_ObjNewArray(interp, items, 3, 0));
     Jsi_IncrRefCount(interp, vpargs);
-    ret = Jsi_ValueNew(interp);
+    ret = Jsi_ValueNew1(interp);
     rc = Jsi_FunctionInvoke(interp, db->onWalHook, vpargs, &ret, NULL);
     Jsi_DecrRefCount(interp, vpargs);
     if (rc != JSI_OK) {
@@ -1259,7 +1259,7 @@ static void dbRollbackHandler(void *cd) {
     items[0] = Jsi_ValueNewObj(interp, db->fobj);
     vpargs = Jsi_ValueMakeObject(interp, NULL, Jsi_ObjNewArray(interp, items, 1, 0));
     Jsi_IncrRefCount(interp, vpargs);
-    Jsi_FunctionInvoke(interp, db->onRollback, NULL, &ret, NULL);
+    Jsi_FunctionInvoke(interp, db->onRollback, vpargs, &ret, NULL);
     Jsi_DecrRefCount(interp, vpargs);
     Jsi_DecrRefCount(interp, ret);
 }
@@ -1660,7 +1660,7 @@ static int dbAuthCallback(
     items[i++] = Jsi_ValueMakeStringDup(interp, NULL, zArg4 ? zArg4 : "");
     vpargs = Jsi_ValueMakeObject(interp, NULL, Jsi_ObjNewArray(interp, items, i, 0));
     Jsi_IncrRefCount(interp, vpargs);
-    ret = Jsi_ValueNew(interp);
+    ret = Jsi_ValueNew1(interp);
     rc = Jsi_FunctionInvoke(interp, db->onAuth, vpargs, &ret, NULL);
     Jsi_DecrRefCount(interp, vpargs);
 
-- 
2.43.0


From ab99b3775ec05d219ffb668bc9941e13e21ce297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:34 +0000
Subject: [PATCH 118/226] fix: SQL regexp() used a cached pattern with other
 modifiers

---
 src/jsiSqlite.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/jsiSqlite.c b/src/jsiSqlite.c
index 1af4035..4f0d223 100644
--- a/src/jsiSqlite.c
+++ b/src/jsiSqlite.c
@@ -1431,24 +1431,26 @@ static void jsiSqlFuncRegexp(sqlite3_context *context, int argc, sqlite3_value**
     bool isNew = 0;
     Jsi_Value *pat = NULL;
     Jsi_HashEntry *hPtr;
-    if (db->regexpHash && ((hPtr = Jsi_HashEntryFind(db->regexpHash, spat))))
+    Jsi_DString kStr = {};
+    const char *key = Jsi_DSAppend(&kStr, mod?mod:"", "/", spat, NULL);
+    if (db->regexpHash && ((hPtr = Jsi_HashEntryFind(db->regexpHash, key))))
         pat = (Jsi_Value*)Jsi_HashValueGet(hPtr);
     if (!pat) {
         if (db->regexpHash && db->maxRegexCache>0 && (int)Jsi_HashSize(db->regexpHash)>=db->maxRegexCache) {
             Jsi_LogErrorExt("Regex hash reached max size: %d", db->maxRegexCache);
-            return;
+            goto done;
         }
         pat = Jsi_ValueNewRegExp(interp, spat, mod);
         if (!pat)
-            return;
+            goto done;
         Jsi_IncrRefCount(interp, pat);
         if (db->maxRegexCache) {
             if (!db->regexpHash)
                 db->regexpHash = Jsi_HashNew(interp, JSI_KEYS_STRING, jsiSqlfreeValueTbl);
-            hPtr = Jsi_HashEntryNew(db->regexpHash, spat, &isNew);
+            hPtr = Jsi_HashEntryNew(db->regexpHash, key, &isNew);
             if (!hPtr) {
                 Jsi_DecrRefCount(interp, pat);
-                return;
+                goto done;
             }
             Jsi_HashValueSet(hPtr, pat);
         }
@@ -1457,6 +1459,8 @@ static void jsiSqlFuncRegexp(sqlite3_context *context, int argc, sqlite3_value**
         sqlite3_result_int(context, rc);
     if (!db->maxRegexCache)
         Jsi_DecrRefCount(interp, pat);
+done:
+    Jsi_DSFree(&kStr);
 }
 
 static void jsiSqlFunc(sqlite3_context *context, int argc, sqlite3_value**argv) {
-- 
2.43.0


From 71e782df812006a63a0df4b15f9c0e006de1d07f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:34 +0000
Subject: [PATCH 119/226] fix: a null result of a Sqlite.func function became
 the string "null"

---
 src/jsiSqlite.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/jsiSqlite.c b/src/jsiSqlite.c
index 4f0d223..9b348ae 100644
--- a/src/jsiSqlite.c
+++ b/src/jsiSqlite.c
@@ -1492,6 +1492,8 @@ static void jsiSqlFunc(sqlite3_context *context, int argc, sqlite3_value**argv)
     } else if (Jsi_ValueIsBoolean(interp, ret)) {
         Jsi_GetBoolFromValue(interp, ret, &b);
         sqlite3_result_int(context, b);
+    } else if (Jsi_ValueIsNull(interp, ret) || Jsi_ValueIsUndef(interp, ret)) {
+        sqlite3_result_null(context);
     } else if (Jsi_ValueIsNumber(interp, ret)) {
         Jsi_Number d;
         // if (Jsi_GetIntFromValueBase(interp, ret, &i, 0, JSI_NO_ERRMSG);
-- 
2.43.0


From 1361090613942e90ba0c555aef3b7ba07695f5aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:51 +0000
Subject: [PATCH 120/226] fix: Sqlite.import failed on lines ending with a
 quoted field, overflowed on extra fields, freed twice on an unterminated one

---
 src/jsiSqlite.c | 63 +++++++++++++++++++++++--------------------------
 1 file changed, 30 insertions(+), 33 deletions(-)

diff --git a/src/jsiSqlite.c b/src/jsiSqlite.c
index 9b348ae..ffd1580 100644
--- a/src/jsiSqlite.c
+++ b/src/jsiSqlite.c
@@ -2152,6 +2152,7 @@ static Jsi_RC SqliteImportCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_t
     int created = 0;
     const char *zSep;
     const char *zNull;
+    Jsi_DString sStr = {};      /* Record spanning lines. */
 
     if (!(db = dbGetDbHandle(interp, _this, funcPtr))) return JSI_ERROR;
     Jsi_Value *arg = Jsi_ValueArrayIndex(interp, args, 2);
@@ -2207,7 +2208,7 @@ static Jsi_RC SqliteImportCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_t
             ze = z+zlen-1;
             Jsi_DSAppend(&cStr, (icnt?",":""), "'", NULL);
             icnt++;
-            if (opts.csv && *z=='"' && zn>z && *ze == '"')
+            if (opts.csv && *z=='"' && zlen>1 && *ze == '"')
                 Jsi_DSAppendLen(&cStr, z+1, zlen-2);
             else
                 Jsi_DSAppendLen(&cStr, z, zlen);
@@ -2240,7 +2241,7 @@ static Jsi_RC SqliteImportCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_t
     }
     sqlite3_finalize(pStmt);
     if( nCol==0 ) {
-        rc = JSI_ERROR;
+        rv = rc = JSI_ERROR;
         goto bail;
     }
     zSql = (char*)Jsi_Malloc( nByte + 50 + nCol*2 );
@@ -2285,7 +2286,7 @@ static Jsi_RC SqliteImportCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_t
         i = 0;
         lineno++;
         if (opts.limit>0 && lineno > opts.limit) {
-            Jsi_Free(zLine);
+            lineno--;
             break;
         }
         if (lineno == 1 && opts.headers) {
@@ -2295,7 +2296,6 @@ static Jsi_RC SqliteImportCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_t
         if (opts.csv && Jsi_Strchr(zLine,'"')) 
         {
             char *zn, *z = zLine;
-            Jsi_DString sStr = {};
             int qcnt = 0;
             i = -1;
             while (*z) if (*z++ == '"') qcnt++;
@@ -2315,16 +2315,15 @@ static Jsi_RC SqliteImportCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_t
                 z = Jsi_DSValue(&sStr);
             }
             if (qcnt%2) {
-                Jsi_DSFree(&sStr);
-                Jsi_Free(zLine);
-                Jsi_Close(interp, in);
                 Jsi_LogErrorExt("unterminated string at line: %d", lineno);
+                onCommit = "ROLLBACK";
                 break;
             }
             while (z) {
                 if (*z != '\"') { /* Handle un-quoted value */
                     zn = Jsi_Strstr(z, zSep);
-                    azCol[++i] = z;
+                    if (++i < nCol)
+                        azCol[i] = z;
                     if (!zn)
                         break;
                     *zn = 0;
@@ -2332,34 +2331,27 @@ static Jsi_RC SqliteImportCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_t
                     continue;
                 }
                 /* Handle quoted value */
-                zn = ++z;
-                Jsi_DString cStr = {};
-                while (1) {
-                    if (!zn)
-                        break;
+                char *zo = zn = ++z, *zNext = NULL;
+                while (*zn) {
                     if (*zn != '"')
-                        Jsi_DSAppendLen(&cStr, zn, 1);
-                    else {
-                        if (zn[1] == '"') {
-                            zn++;
-                            Jsi_DSAppendLen(&cStr, "\"", 1);
-                        } else if (zn[1] == 0) {
-                            break;
-                        } else if (Jsi_Strncmp(zn+1,zSep, nSep)==0) {
-                            *zn = 0;
-                            zn += (nSep + 1);
-                            break;
-                        } else {
-                            /* Invalid, comma should be right after close quote, so just eat quote. */
-                            Jsi_DSAppendLen(&cStr, zn, 1);
-                        }
+                        *zo++ = *zn++;
+                    else if (zn[1] == '"') {
+                        *zo++ = '"';
+                        zn += 2;
+                    } else if (zn[1] == 0) {
+                        break;
+                    } else if (Jsi_Strncmp(zn+1,zSep, nSep)==0) {
+                        zNext = zn + nSep + 1;
+                        break;
+                    } else {
+                        /* Invalid, comma should be right after close quote, so just eat quote. */
+                        *zo++ = *zn++;
                     }
-                    zn++;
                 }
-                Jsi_Strcpy(z, Jsi_DSValue(&cStr));
-                Jsi_DSFree(&cStr);
-                azCol[++i] = z;
-                z = zn;
+                *zo = 0;
+                if (++i < nCol)
+                    azCol[i] = z;
+                z = zNext;
             }
         } else {
             azCol[0] = zLine;
@@ -2394,12 +2386,17 @@ static Jsi_RC SqliteImportCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_t
         rc = sqlite3_reset(pStmt);
         if (zLine)
             Jsi_Free(zLine);
+        zLine = NULL;
+        Jsi_DSFree(&sStr);
         if( rc!=SQLITE_OK ) {
             Jsi_LogErrorExt("%s at line: %d", sqlite3_errmsg(db->db), lineno);
             onCommit = "ROLLBACK";
             break;
         }
     }
+    if (zLine)
+        Jsi_Free(zLine);
+    Jsi_DSFree(&sStr);
     Jsi_Free(azCol);
     Jsi_Close(interp, in);
     sqlite3_finalize(pStmt);
-- 
2.43.0


From 67f9a70a7b4a8b0e1ee8d8d248fda5d97bcbe9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:28 +0000
Subject: [PATCH 121/226] fix: Sqlite.transaction with a type always failed

---
 src/jsiSqlite.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jsiSqlite.c b/src/jsiSqlite.c
index ffd1580..e8ea690 100644
--- a/src/jsiSqlite.c
+++ b/src/jsiSqlite.c
@@ -3474,7 +3474,7 @@ static Jsi_RC SqliteTransactionCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Valu
     const char *zBegin = "SAVEPOINT _jsi_transaction";
 
     if( db->nTransaction==0 && argc==2 ) {
-        Jsi_Value *arg = Jsi_ValueArrayIndex(interp, args, 0);
+        Jsi_Value *arg = Jsi_ValueArrayIndex(interp, args, 1);
         static const char *TTYPE_strs[] = {
             "deferred",   "exclusive",  "immediate", 0
         };
@@ -3498,7 +3498,7 @@ static Jsi_RC SqliteTransactionCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Valu
             break;
         }
     }
-    pScript = Jsi_ValueArrayIndex(interp, args, argc-1);
+    pScript = Jsi_ValueArrayIndex(interp, args, 0);
     if(!Jsi_ValueIsFunction(interp, pScript)) 
         return Jsi_LogErrorExt("expected function");
 
-- 
2.43.0


From 0b9d1a0495ec374f359ab833969a624064b8db59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:57 +0000
Subject: [PATCH 122/226] fix: setting a verified value option such as the
 column width of Sqlite.query wrote outside the options

---
 src/jsiOptions.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/jsiOptions.c b/src/jsiOptions.c
index 1a2f903..cdfb8d9 100644
--- a/src/jsiOptions.c
+++ b/src/jsiOptions.c
@@ -1166,7 +1166,7 @@ static Jsi_RC jsi_ValueToVerify(Jsi_Interp *interp, Jsi_OptionSpec* spec, Jsi_Va
 {
     if (inStr)
         return JSI_ERROR;
-    Jsi_Value **s = (Jsi_Value**)((char*)record) + spec->offset;
+    Jsi_Value **s = (Jsi_Value**)(((char*)record) + spec->offset);
     Jsi_ValueHandlerProc *vfunc = (Jsi_ValueHandlerProc*)spec->data;
     if (!vfunc) 
         return Jsi_LogError("custom value spec did not set data: %s", spec->name);
@@ -1178,9 +1178,10 @@ static Jsi_RC jsi_ValueToVerify(Jsi_Interp *interp, Jsi_OptionSpec* spec, Jsi_Va
     }
     if (vfunc(interp, inValue, spec, record) != JSI_OK)
         return JSI_ERROR;
-    *s = inValue;
+    Jsi_IncrRefCount(interp, inValue);
     if (*s)
-        Jsi_IncrRefCount(interp, *s);
+        Jsi_DecrRefCount(interp, *s);
+    *s = inValue;
     return JSI_OK;
 }
 
-- 
2.43.0


From 77fe8cef338537212c7f884c656547d5481c83ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:28 +0000
Subject: [PATCH 123/226] fix: %v with a quote in a string or object gave bad
 or other SQL

---
 src/jsiUtils.c | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/jsiUtils.c b/src/jsiUtils.c
index c3fedde..404188b 100644
--- a/src/jsiUtils.c
+++ b/src/jsiUtils.c
@@ -537,6 +537,14 @@ bool jsi_StrInArray(Jsi_Interp* interp, Jsi_Value *arr, const char *str) {
 }
 
 /* Modify Sql to append bind fields for Object */
+/* Append str in SQL quotes. */
+static char *jsi_SqlQuote(Jsi_DString *dStr, const char *str) {
+    Jsi_DSAppend(dStr, "'", NULL);
+    for (; *str; str++)
+        Jsi_DSAppendLen(dStr, (*str=='\''?"''":str), (*str=='\''?2:1));
+    return Jsi_DSAppend(dStr, "'", NULL);
+}
+
 Jsi_RC Jsi_SqlObjBinds(Jsi_Interp* interp, Jsi_DString* zStr, Jsi_SqlObjOpts* opts) {
     const char *varName = opts->name; 
     bool addTypes = !opts->noTypes, addDefaults = !opts->defaultNull,
@@ -612,17 +620,16 @@ Jsi_RC Jsi_SqlObjBinds(Jsi_Interp* interp, Jsi_DString* zStr, Jsi_SqlObjOpts* op
                     typ = "CHARJSON";
                     if (addDefaults) {
                         Jsi_DSFree(&jStr);
-                        Jsi_DSAppend(&jStr, "'", NULL);
-                        Jsi_ValueGetDString(interp, v, &jStr, JSI_OUTPUT_JSON|JSI_JSON_STRICT);
-                        Jsi_DSAppend(&jStr, "'", NULL);
-                        dflt = Jsi_DSValue(&jStr);
+                        Jsi_DString oStr = {};
+                        dflt = jsi_SqlQuote(&jStr, Jsi_ValueGetDString(interp, v, &oStr, JSI_OUTPUT_JSON|JSI_JSON_STRICT));
+                        Jsi_DSFree(&oStr);
                     }
                 } else {
                     typ = "TEXT";
                     if (addDefaults) {
                         if ((cp=Jsi_ValueString(interp, v, NULL))) {
                             Jsi_DSFree(&jStr);
-                            dflt = Jsi_DSAppend(&jStr, "'", cp, "'", NULL);
+                            dflt = jsi_SqlQuote(&jStr, cp);
                         } else
                             dflt = "NULL";
                     }
-- 
2.43.0


From 168ab4346e6e05ca0ac2ce5c97e83cdbfbac7e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:28 +0000
Subject: [PATCH 124/226] fix: %v failed for member names needing quotes and
 ignored noDefaults

---
 src/jsiUtils.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/jsiUtils.c b/src/jsiUtils.c
index 404188b..deea4d1 100644
--- a/src/jsiUtils.c
+++ b/src/jsiUtils.c
@@ -547,7 +547,7 @@ static char *jsi_SqlQuote(Jsi_DString *dStr, const char *str) {
 
 Jsi_RC Jsi_SqlObjBinds(Jsi_Interp* interp, Jsi_DString* zStr, Jsi_SqlObjOpts* opts) {
     const char *varName = opts->name; 
-    bool addTypes = !opts->noTypes, addDefaults = !opts->defaultNull,
+    bool addTypes = !opts->noTypes, addDefaults = !opts->noDefaults,
         nullDefaults = opts->defaultNull, addCheck  = !opts->noChecks;
     Jsi_Value *v, *vnPtr = Jsi_VarLookup(interp, varName);
     if (!vnPtr || !Jsi_ValueIsObjType(interp, vnPtr, JSI_OT_OBJECT))
@@ -647,9 +647,9 @@ Jsi_RC Jsi_SqlObjBinds(Jsi_Interp* interp, Jsi_DString* zStr, Jsi_SqlObjOpts* op
             if (dflt)
                 Jsi_DSAppend(&sStr," DEFAULT ", dflt, NULL);
             if (chk) {
-                Jsi_DSPrintf(&sStr," CONSTRAINT '%s Invalid' CHECK(typeof(%s) %s", kstr, kstr, chk);
+                Jsi_DSPrintf(&sStr," CONSTRAINT '%s Invalid' CHECK(typeof([%s]) %s", kstr, kstr, chk);
                 if (chk2)
-                    Jsi_DSPrintf(&sStr," AND %s IN %s", kstr, chk2);
+                    Jsi_DSPrintf(&sStr," AND [%s] IN %s", kstr, chk2);
                 Jsi_DSAppend(&sStr,")", NULL);
             }
         }
-- 
2.43.0


From c3a1b0b6c685194e6397ddb706f8ce54246720f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:28 +0000
Subject: [PATCH 125/226] fix: Sqlite.query lost the error of a bad obj option

---
 src/jsiSqlite.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiSqlite.c b/src/jsiSqlite.c
index e8ea690..be73b71 100644
--- a/src/jsiSqlite.c
+++ b/src/jsiSqlite.c
@@ -2688,7 +2688,7 @@ static Jsi_RC SqliteQueryCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_th
         goto bail;
     }
     if (opts.obj.name) {
-        if (Jsi_SqlObjBinds(interp, &eStr, &opts.obj) != JSI_OK)
+        if ((rc = Jsi_SqlObjBinds(interp, &eStr, &opts.obj)) != JSI_OK)
             goto bail;
         zSql = Jsi_DSValue(&eStr);
     }
-- 
2.43.0


From a82aaf54d8366b6f95b2b69d6808e78842bb24b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:21 +0000
Subject: [PATCH 126/226] fix: Sqlite.query ignored its mapundef option

---
 src/jsiSqlite.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiSqlite.c b/src/jsiSqlite.c
index be73b71..f30e466 100644
--- a/src/jsiSqlite.c
+++ b/src/jsiSqlite.c
@@ -957,7 +957,7 @@ static Jsi_RC dbBindStmt(Jsi_Db *db, SqlPreparedStmt *prep)
                     sqlite3_bind_int64(pStmt, i,wv);
                 else
                     sqlite3_bind_double(pStmt, i,(double)r);
-            } else if (Jsi_ValueIsNull(interp, pv) || (Jsi_ValueIsUndef(interp, pv) && db->queryOpts.mapundef)) {
+            } else if (Jsi_ValueIsNull(interp, pv) || (Jsi_ValueIsUndef(interp, pv) && db->optPtr->mapundef)) {
                 sqlite3_bind_null(pStmt, i);
             } else if (Jsi_ValueIsString(interp, pv)) {
                 const char *sstr = Jsi_ValueGetStringLen(interp, pv, &n);
-- 
2.43.0


From 6039b2e7fbded60a179f3f8257e4d184886b5933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:02 +0000
Subject: [PATCH 127/226] fix: a typed Sqlite bind crashed when built without
 the internal header

---
 src/jsiSqlite.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/jsiSqlite.c b/src/jsiSqlite.c
index f30e466..5486165 100644
--- a/src/jsiSqlite.c
+++ b/src/jsiSqlite.c
@@ -895,8 +895,9 @@ static Jsi_RC dbBindStmt(Jsi_Db *db, SqlPreparedStmt *prep)
             int match = 1, cast = (db->optPtr->typeCheck==dbTypeCheck_Cast);
             if (btype && !Jsi_ValueIsUndef(interp, pv)) {
                 if (cast) { /* Convert a copy, not the script variable. */
-                    pv = cv = Jsi_ValueDup(interp, pv);
-                    Jsi_IncrRefCount(interp, cv);
+                    cv = Jsi_ValueNew1(interp);
+                    Jsi_ValueCopy(interp, cv, pv);
+                    pv = cv;
                 }
                 switch (btype) {
                     case JSI_OPTION_STRBUF:
-- 
2.43.0


From f7f05df88b59828dbcd43d40289ca82947e3ab42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:02 +0000
Subject: [PATCH 128/226] fix: Jsi_JSONParse lost a top-level primitive when
 not given a value, eg. in a CHARJSON column

---
 src/jsiJSON.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/jsiJSON.c b/src/jsiJSON.c
index 2c68c92..c7380ab 100644
--- a/src/jsiJSON.c
+++ b/src/jsiJSON.c
@@ -203,12 +203,12 @@ Jsi_RC Jsi_JSONParse(Jsi_Interp *interp, const char *js, Jsi_Value **ret, int fl
     if (js[0] == 0)
         return JSI_OK;
     switch (js[0]) {
-        case 't': if (Jsi_Strcmp(js,"true")==0) { if (ret) Jsi_ValueMakeBool(interp, ret, 1); return JSI_OK; } break;
-        case 'f': if (Jsi_Strcmp(js,"false")==0) { if (ret) Jsi_ValueMakeBool(interp, ret, 0); return JSI_OK; } break;
-        case 'n': if (Jsi_Strcmp(js,"null")==0) { if (ret) Jsi_ValueMakeNull(interp, ret); return JSI_OK; } break;
+        case 't': if (Jsi_Strcmp(js,"true")==0) { if (ret) *ret = Jsi_ValueMakeBool(interp, ret, 1); return JSI_OK; } break;
+        case 'f': if (Jsi_Strcmp(js,"false")==0) { if (ret) *ret = Jsi_ValueMakeBool(interp, ret, 0); return JSI_OK; } break;
+        case 'n': if (Jsi_Strcmp(js,"null")==0) { if (ret) *ret = Jsi_ValueMakeNull(interp, ret); return JSI_OK; } break;
         case '0': case '1': case '2': case '3': case '4': case '5': 
         case '6': case '7': case '8': case '9': case '-':
-            if (Jsi_GetDouble(interp, js, &d) == JSI_OK) { if (ret) Jsi_ValueMakeNumber(interp, ret, d); return JSI_OK; } break;
+            if (Jsi_GetDouble(interp, js, &d) == JSI_OK) { if (ret) *ret = Jsi_ValueMakeNumber(interp, ret, d); return JSI_OK; } break;
     }
     JSI_JSON_DECLARE(pp, tokens, 0);
     Jsi_JsonParser *p = &pp;
-- 
2.43.0


From 335c67b9b346d3281abcf2a3237fe1dce76f07f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:02 +0000
Subject: [PATCH 129/226] fix: an empty blob in a Sqlite column was returned as
 null

---
 src/jsiSqlite.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/jsiSqlite.c b/src/jsiSqlite.c
index 5486165..e55cb1a 100644
--- a/src/jsiSqlite.c
+++ b/src/jsiSqlite.c
@@ -1901,10 +1901,11 @@ static Jsi_Value* dbEvalSetColumnValue(DbEvalContext *p, int iCol, Jsi_Value **v
     case SQLITE_BLOB: {
         int bytes = sqlite3_column_bytes(pStmt, iCol);
         const char *zBlob = (char*)sqlite3_column_blob(pStmt, iCol);
-        if( !zBlob )
+        if( !zBlob && bytes>0 )
             return Jsi_ValueMakeNull(interp, val);
         unsigned char *uptr = (unsigned char*)Jsi_Malloc(bytes+1);
-        memcpy(uptr, zBlob, bytes);
+        if (bytes>0)
+            memcpy(uptr, zBlob, bytes);
         uptr[bytes] = 0;
         return Jsi_ValueMakeBlob(interp, val, uptr, bytes);
         break;
-- 
2.43.0


From a6f024810f60b4b86ffa59bf2df0dbb18ca9ddff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:02 +0000
Subject: [PATCH 130/226] fix: Sqlite.onecolumn of a CHARJSON column gave
 undefined

---
 src/jsiSqlite.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/jsiSqlite.c b/src/jsiSqlite.c
index e55cb1a..fb002ad 100644
--- a/src/jsiSqlite.c
+++ b/src/jsiSqlite.c
@@ -3202,8 +3202,11 @@ static Jsi_RC SqliteOnecolumnCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value
     if( JSI_OK==(rc = dbEvalStep(&sEval)) ) {
         sqlite3_stmt *pStmt = sEval.pPreStmt->pStmt;
         int nCol = sqlite3_column_count(pStmt);
-        if (nCol>0)
-            dbEvalSetColumnValue(&sEval, 0, ret);
+        if (nCol>0) {
+            Jsi_Value *v = dbEvalSetColumnValue(&sEval, 0, ret);
+            if (v != *ret) /* CHARJSON. */
+                Jsi_ValueReplace(interp, ret, v);
+        }
         cnt++;
     }
     dbEvalFinalize(&sEval);
-- 
2.43.0


From e5e2dbcf46d4f37680861dafb795440b2c938fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:35 +0000
Subject: [PATCH 131/226] fix: csv output did not quote a value ending like a
 longer separator starts

---
 src/jsiSqlite.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiSqlite.c b/src/jsiSqlite.c
index fb002ad..0aff86b 100644
--- a/src/jsiSqlite.c
+++ b/src/jsiSqlite.c
@@ -2519,7 +2519,7 @@ static void dbOutputCsv(QueryOpts *p, const char *z, Jsi_DString *dStr, int bSep
         int nSep = Jsi_Strlen(p->separator);
         for(i=0; z[i]; i++) {
             if( needCsvQuote[((unsigned char*)z)[i]] || 
-                (z[i]==p->separator[0] && (nSep==1 || Jsi_Strncmp(z+i, p->separator, nSep)==0)) ) {
+                (nSep && z[i]==p->separator[0]) ) {
                 i = 0;
                 break;
             }
-- 
2.43.0


From 0c3b1533e1a51502ddaf1a88a7ed57e9c3b12538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:33 +0000
Subject: [PATCH 132/226] fix: a hash with string keys lost or could not delete
 entries after growing

---
 src/jsiHash.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/jsiHash.c b/src/jsiHash.c
index 6f09d95..f5bc9fc 100644
--- a/src/jsiHash.c
+++ b/src/jsiHash.c
@@ -371,7 +371,7 @@ RebuildTable(Jsi_Hash *tablePtr)
     tablePtr->mask = tablePtr->numBuckets - 1;
 
  
-    if (tablePtr->keyType == JSI_KEYS_ONEWORD) {
+    if (tablePtr->keyType == JSI_KEYS_ONEWORD || tablePtr->keyType == JSI_KEYS_STRINGKEY) {
 
         for (oldChainPtr = oldBuckets; oldChainPtr < endPtr; oldChainPtr++) {
             for (hPtr = *oldChainPtr; hPtr != NULL; hPtr = nextPtr) {
@@ -459,8 +459,8 @@ Jsi_HashEntryDelete(Jsi_HashEntry *entryPtr)
 #endif
     if (tablePtr->opts.lockHashProc && (*tablePtr->opts.lockHashProc)(tablePtr, 1) != JSI_OK)
         return 0;
-    if (tablePtr->keyType == JSI_KEYS_ONEWORD) {
-        hindex = RANDOM_INDEX(tablePtr, (const void *)entryPtr->hval);
+    if (tablePtr->keyType == JSI_KEYS_ONEWORD || tablePtr->keyType == JSI_KEYS_STRINGKEY) {
+        hindex = RANDOM_INDEX(tablePtr, entryPtr->key.oneWordValue);
     } else {
         hindex = (entryPtr->hval & tablePtr->mask);
     }
-- 
2.43.0


From 6edd331b3111f943b9a4700599630fceebb6ba24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:33 +0000
Subject: [PATCH 133/226] fix: Jsi_HashClear left a table that could not be
 used again

---
 src/jsiHash.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/jsiHash.c b/src/jsiHash.c
index f5bc9fc..12f4016 100644
--- a/src/jsiHash.c
+++ b/src/jsiHash.c
@@ -513,7 +513,14 @@ Jsi_HashClear(Jsi_Hash *tablePtr)
     
     if (tablePtr->buckets != tablePtr->staticBuckets) {
         Jsi_Free(tablePtr->buckets);
+        tablePtr->buckets = tablePtr->staticBuckets;
+        memset(tablePtr->staticBuckets, 0, sizeof(tablePtr->staticBuckets));
+        tablePtr->numBuckets = JSI_SMALL_HASH_TABLE;
+        tablePtr->rebuildSize = JSI_SMALL_HASH_TABLE * REBUILD_MULTIPLIER;
+        tablePtr->downShift = DOWNSHIFT_START;
+        tablePtr->mask = (jsi_Hash)(tablePtr->numBuckets - 1);
     }
+    tablePtr->numEntries = 0;
     if (tablePtr->opts.lockHashProc)
         (*tablePtr->opts.lockHashProc)(tablePtr, 0);
 }
-- 
2.43.0


From aeba3c5b1e7d05a6fc135a816e4e50b6cc4c59dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:33 +0000
Subject: [PATCH 134/226] fix: trees with word keys confused keys that differ
 by 2^32 or more

---
 src/jsiTree.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiTree.c b/src/jsiTree.c
index ba250f7..22ce4ba 100644
--- a/src/jsiTree.c
+++ b/src/jsiTree.c
@@ -270,7 +270,7 @@ static int StringCompare(Jsi_Tree *treePtr, const void *key1, const void *key2)
 
 static int OneWordCompare(Jsi_Tree *treePtr, const void *key1, const void *key2)
 {
-    return ((uintptr_t )key1 - (uintptr_t)key2);
+    return ((uintptr_t)key1 < (uintptr_t)key2 ? -1 : (uintptr_t)key1 > (uintptr_t)key2);
 }
 
 static int TreeArrayCompare(Jsi_Tree *treePtr, const void *key1, const void *key2)
-- 
2.43.0


From 2557cf12f2e685e06ebd55eab97f87ed8bb8545b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:33 +0000
Subject: [PATCH 135/226] fix: deleting an inner entry of a tree with struct
 keys damaged the tree

---
 src/jsiTree.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/jsiTree.c b/src/jsiTree.c
index 22ce4ba..2822c9b 100644
--- a/src/jsiTree.c
+++ b/src/jsiTree.c
@@ -622,6 +622,8 @@ int Jsi_TreeEntryDelete (Jsi_TreeEntry *entryPtr)
                 *cd = *cs;
                 *cs = ct;
             }
+            n = pred;
+            break;
         }
                 
         }
-- 
2.43.0


From da96ffe5be3ffff2ef8c3385bbd3e50826fc2709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:33 +0000
Subject: [PATCH 136/226] fix: Jsi_TreeClear rebalanced the tree it walked and
 lost entries

---
 src/jsiTree.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/jsiTree.c b/src/jsiTree.c
index 2822c9b..d5c34e2 100644
--- a/src/jsiTree.c
+++ b/src/jsiTree.c
@@ -501,8 +501,11 @@ void Jsi_TreeClear (Jsi_Tree *treePtr)
     SIGASSERTV(treePtr, TREE);
     if (treePtr->opts.lockTreeProc && (*treePtr->opts.lockTreeProc)(treePtr, 1) != JSI_OK)
         return;
+    treePtr->flags.destroyed = 1; /* No balancing while nodes go. */
     destroy_node(treePtr->opts.interp, treePtr->root);
+    treePtr->flags.destroyed = 0;
     treePtr->root = NULL;
+    treePtr->epoch++;
     if (treePtr->opts.lockTreeProc)
         (*treePtr->opts.lockTreeProc)(treePtr, 0);
 }
-- 
2.43.0


From fb2be48031653e47f6aa7ef5b7f13727df4433fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:33 +0000
Subject: [PATCH 137/226] fix: tree searches in pre-order and level order
 missed entries

---
 src/jsi.h     | 2 +-
 src/jsiTree.c | 9 +++++----
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/jsi.h b/src/jsi.h
index bfe25a0..ccc8419 100644
--- a/src/jsi.h
+++ b/src/jsi.h
@@ -181,7 +181,7 @@ typedef enum {
     
     JSI_TREE_ORDER_IN=0, JSI_TREE_ORDER_PRE=0x10, JSI_TREE_ORDER_POST=0x20, // Jsi_TreeSearchFirst()
     JSI_TREE_ORDER_LEVEL=0x30, JSI_TREE_ORDER_MASK=0x30,
-    JSI_TREE_SEARCH_KEY=0x10, // Use key even if NULL
+    JSI_TREE_SEARCH_KEY=0x40, // Use key even if NULL
     JSI_TREE_USERFLAG_MASK=0x7f,
     JSI_LIST_REVERSE=0x8, // Jsi_ListSearchFirst
     JSI_MUTEX_RECURSIVE=2,
diff --git a/src/jsiTree.c b/src/jsiTree.c
index d5c34e2..ded3399 100644
--- a/src/jsiTree.c
+++ b/src/jsiTree.c
@@ -650,8 +650,10 @@ static void searchSpace(Jsi_TreeSearch *searchPtr, int n)
     if ((searchPtr->top+n) >= searchPtr->max) {
         int i, cnt = (searchPtr->max *= 2);
         if (searchPtr->Ptrs == searchPtr->staticPtrs)
+        {
             searchPtr->Ptrs = (Jsi_TreeEntry**)Jsi_Calloc(cnt, sizeof(Jsi_TreeEntry*));
-        else
+            memcpy(searchPtr->Ptrs, searchPtr->staticPtrs, searchPtr->top*sizeof(Jsi_TreeEntry*));
+        } else
             searchPtr->Ptrs = (Jsi_TreeEntry**)Jsi_Realloc(searchPtr->Ptrs, cnt* sizeof(Jsi_TreeEntry*));
         for (i=0; i<cnt; i++)
             SIGINIT((searchPtr->Ptrs[i]),TREEENTRY);
@@ -713,10 +715,9 @@ static Jsi_TreeEntry *searchAdd(Jsi_TreeSearch *searchPtr,  Jsi_TreeEntry *hPtr)
                 if (searchPtr->top<=0) return NULL;
                 hPtr = searchPtr->Ptrs[--searchPtr->top];
             }
-            searchPtr->Ptrs[searchPtr->top++] = hPtr;
             if (hPtr->left) searchPtr->Ptrs[searchPtr->top++] = hPtr->left;
             if (hPtr->right) searchPtr->Ptrs[searchPtr->top++] = hPtr->right;
-            break;
+            return hPtr;
             
         case JSI_TREE_ORDER_IN:
             while (1) {
@@ -755,7 +756,7 @@ Jsi_TreeEntry *Jsi_TreeSearchFirst (Jsi_Tree *treePtr, Jsi_TreeSearch *searchPtr
     searchPtr->max = sizeof(searchPtr->staticPtrs)/sizeof(searchPtr->staticPtrs[0]);
     searchPtr->epoch = treePtr->epoch;
     if (startKey || (flags & JSI_TREE_SEARCH_KEY))
-        hPtr2 = Jsi_TreeEntryFind(treePtr, startKey);;
+        hPtr2 = Jsi_TreeEntryFind(treePtr, startKey);
     searchPtr->current = treePtr->root;
     hPtr = searchAdd(searchPtr, treePtr->root);
     if (hPtr2 && hPtr && hPtr2 != hPtr)
-- 
2.43.0


From ac2d46e11bc614c4b432a3051c30270fca0f2cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:33 +0000
Subject: [PATCH 138/226] fix: Jsi_ListPop of the first entry and deleting the
 only entry left stale pointers in the list

---
 src/jsiUtils.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/jsiUtils.c b/src/jsiUtils.c
index deea4d1..9b3aa80 100644
--- a/src/jsiUtils.c
+++ b/src/jsiUtils.c
@@ -1531,6 +1531,7 @@ void Jsi_ListClear(Jsi_List *list) {
             (list->opts.freeListProc)(list->opts.interp, l, l->value);
         Jsi_ListEntryDelete(l);
     }
+    list->tail = NULL;
     list->numEntries = 0;
 }
  
@@ -1580,8 +1581,10 @@ Jsi_ListEntry* Jsi_ListPop(Jsi_List *list, Jsi_ListEntry *item)
     if (item == list->head) {
         if (list->head == list->tail)
             list->head = list->tail = NULL;
-        else
+        else {
             list->head = list->head->next;
+            list->head->prev = NULL;
+        }
     }
     else if (item == list->tail) {
         list->tail = list->tail->prev;
@@ -1593,6 +1596,7 @@ Jsi_ListEntry* Jsi_ListPop(Jsi_List *list, Jsi_ListEntry *item)
     }
     list->numEntries--;
     item->next = item->prev = NULL;
+    item->list = NULL;
     return item;
 }
 
@@ -1609,7 +1613,7 @@ Jsi_ListEntry *Jsi_ListEntryNew(Jsi_List* list, const void *value, Jsi_ListEntry
 
 int Jsi_ListEntryDelete(Jsi_ListEntry *l) {
     SIGASSERT(l, LISTENTRY);
-    if (l->next || l->prev)
+    if (l->next || l->prev || (l->list && l->list->head == l))
         Jsi_ListPop(l->list, l);
     Jsi_Free(l);
     return 1;
-- 
2.43.0


From c9b5bd521271b783dd6613ff307a21a6f23ab3c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:33 +0000
Subject: [PATCH 139/226] fix: Jsi_DSPrintf lost output longer than its buffer

---
 src/jsiDString.c | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/jsiDString.c b/src/jsiDString.c
index 7335fe7..ff48935 100644
--- a/src/jsiDString.c
+++ b/src/jsiDString.c
@@ -159,28 +159,32 @@ Jsi_DSPrintf(Jsi_DString *dsPtr, const char *fmt, ...)
     }
     va_start(argList, fmt);
     n = vsnprintf(bPtr, bsiz, fmt, argList);
+    va_end(argList);
     if ((n+len)>JSI_MAX_ALLOC_BUF) {
         LogError("vsnprintf error: rc=%d, len=%d", n, len);
-        va_end(argList);
+        if (!needAppend) dstr[len] = 0;
         return dstr;
     }
     if (n >= bsiz) {
         uint m = len+n+1;
+        if (!needAppend) dstr[len] = 0;
         if (Jsi_DSSetLength(dsPtr, m) < m) {
-            va_end(argList);
             return jsi_DSValue(dsPtr);
         }
         dstr = jsi_DSValue(dsPtr);
-        m = vsnprintf(dstr+len, len+1, fmt, argList);
+        va_start(argList, fmt);
+        m = vsnprintf(dstr+len, n+1, fmt, argList);
+        va_end(argList);
         if (m != n) {
             LogError("len mismatch: %d != %d",  m, n);
-            va_end(argList);
+            dstr[len] = 0;
             return dstr;
         }
-    } else if (needAppend) {
+        dsPtr->len = len+n;
+    } else if (needAppend)
         Jsi_DSAppendLen(dsPtr, buf, n);
-    }
-    va_end(argList);
+    else
+        dsPtr->len = len+n;
     return jsi_DSValue(dsPtr);
 }
 
-- 
2.43.0


From 577050538a328ece42b009f0b88b54cb049270a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:55 +0000
Subject: [PATCH 140/226] fix: a search of a wide tree crashed when its queue
 grew

---
 src/jsiTree.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/jsiTree.c b/src/jsiTree.c
index ded3399..bb14fa4 100644
--- a/src/jsiTree.c
+++ b/src/jsiTree.c
@@ -648,16 +648,13 @@ dodel:
 static void searchSpace(Jsi_TreeSearch *searchPtr, int n)
 {
     if ((searchPtr->top+n) >= searchPtr->max) {
-        int i, cnt = (searchPtr->max *= 2);
+        int cnt = (searchPtr->max *= 2);
         if (searchPtr->Ptrs == searchPtr->staticPtrs)
         {
             searchPtr->Ptrs = (Jsi_TreeEntry**)Jsi_Calloc(cnt, sizeof(Jsi_TreeEntry*));
             memcpy(searchPtr->Ptrs, searchPtr->staticPtrs, searchPtr->top*sizeof(Jsi_TreeEntry*));
         } else
             searchPtr->Ptrs = (Jsi_TreeEntry**)Jsi_Realloc(searchPtr->Ptrs, cnt* sizeof(Jsi_TreeEntry*));
-        for (i=0; i<cnt; i++)
-            SIGINIT((searchPtr->Ptrs[i]),TREEENTRY);
-
     }
 }
 
-- 
2.43.0


From d85146fc9058fc8f4759ffbc229cb53d2975a1c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:07 +0000
Subject: [PATCH 141/226] fix: the dictionary order had cycles, so trees with
 string keys lost entries

---
 src/jsiChar.c | 21 +++++----------------
 1 file changed, 5 insertions(+), 16 deletions(-)

diff --git a/src/jsiChar.c b/src/jsiChar.c
index 75f91ab..0fde74c 100644
--- a/src/jsiChar.c
+++ b/src/jsiChar.c
@@ -250,23 +250,12 @@ Jsi_DictionaryCompare( const char *left, const char *right)
     }
     diff = UCHAR(*left) - UCHAR(*right);
     if (diff) {
-      if (isupper(UCHAR(*left)) && islower(UCHAR(*right))) {
-        diff = UCHAR(tolower(*left)) - UCHAR(*right);
-        if (diff) {
-          return diff;
-        } else if (secondaryDiff == 0) {
-          secondaryDiff = -1;
-        }
-      } else if (isupper(UCHAR(*right)) && islower(UCHAR(*left))) {
-        diff = UCHAR(*left) - UCHAR(tolower(UCHAR(*right)));
-        if (diff) {
-          return diff;
-        } else if (secondaryDiff == 0) {
-          secondaryDiff = 1;
-        }
-      } else {
+      /* Lower case for all: else the order has cycles such as "_a" < "a" < "Aa" < "_a". */
+      diff = tolower(UCHAR(*left)) - tolower(UCHAR(*right));
+      if (diff)
         return diff;
-      }
+      if (secondaryDiff == 0)
+        secondaryDiff = (isupper(UCHAR(*left)) ? -1 : 1);
     }
     if (*left == 0) {
       break;
-- 
2.43.0


From 7a0c112159b3e0b9d8568e9b3f47763e37b81d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:07 +0000
Subject: [PATCH 142/226] fix: keys that differ only in commas of numbers were
 the same key of a tree

---
 src/jsiChar.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/jsiChar.c b/src/jsiChar.c
index 0fde74c..a9e5bf4 100644
--- a/src/jsiChar.c
+++ b/src/jsiChar.c
@@ -183,6 +183,7 @@ Jsi_DictionaryCompare( const char *left, const char *right)
 {
   int diff, zeros;
   int secondaryDiff = 0;
+  const char *oleft = left, *oright = right;
 
   while (1) {
     if (isdigit(UCHAR(*right)) && isdigit(UCHAR(*left))) {
@@ -263,9 +264,10 @@ Jsi_DictionaryCompare( const char *left, const char *right)
     left++;
     right++;
   }
-  if (diff == 0) {
+  if (diff == 0)
     diff = secondaryDiff;
-  }
+  if (diff == 0) /* Differ only in the ignored commas. */
+    diff = strcmp(oleft, oright);
   return diff;
 }
 
-- 
2.43.0


From ae05d5d712d6b0b3975b9526b120981fb4e7c055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:45 +0000
Subject: [PATCH 143/226] fix: reserving space in an empty dynamic string left
 its value unterminated

---
 src/jsiDString.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiDString.c b/src/jsiDString.c
index ff48935..a0cd05b 100644
--- a/src/jsiDString.c
+++ b/src/jsiDString.c
@@ -211,7 +211,7 @@ uint Jsi_DSSetLength(Jsi_DString *dsPtr, uint length)
                 LogError("malloc failed %d", dsPtr->spaceAvl+1);
                 return -1;
             }
-            if (isStatic && dsPtr->len>0)
+            if (isStatic)
                 memcpy(newString, dsPtr->Str, (size_t) (dsPtr->len+1));
             dsPtr->strA = newString;
         }
-- 
2.43.0


From 4ac3f0c0884ab3f2a748e030e1c950ced4ef8bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:02 +0000
Subject: [PATCH 144/226] fix: Zvfs.deflate of an empty string gave no data,
 and Zvfs.inflate took truncated data

---
 src/jsiZvfs.c | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/jsiZvfs.c b/src/jsiZvfs.c
index cd81f21..7d7dd57 100644
--- a/src/jsiZvfs.c
+++ b/src/jsiZvfs.c
@@ -2273,7 +2273,7 @@ static Jsi_RC ZvfsDeflateCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_th
     Jsi_Value **ret, Jsi_Func *funcPtr)
 {
     Jsi_DString dStr = {};
-    int sz, toOut, err, flag=0;
+    int sz, toOut, err;
     char buf[JSI_BUFSIZ];
     z_stream stream = {};
     const char *str = Jsi_ValueArrayIndexToStr(interp, args, 0, &sz);
@@ -2286,21 +2286,18 @@ static Jsi_RC ZvfsDeflateCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_th
         goto bail;
     
     while (1) {
-        err = deflate(&stream, flag);
+        err = deflate(&stream, Z_FINISH);
         if (err!=Z_OK && err!= Z_STREAM_END) {
             deflateEnd(&stream);
             goto bail;
         }
         toOut = sizeof(buf) - stream.avail_out;
-        if( toOut<=0)
-            break;
-        Jsi_DSAppendLen(&dStr, buf, toOut);
+        if (toOut>0)
+            Jsi_DSAppendLen(&dStr, buf, toOut);
         if (err== Z_STREAM_END)
             break;
         stream.avail_out = sizeof(buf);
         stream.next_out = (uchar*)buf;
-        if (!stream.avail_in)
-            flag = Z_FINISH;
     }
     err = deflateEnd(&stream);
     if (err!=Z_OK)
@@ -2335,13 +2332,17 @@ static Jsi_RC ZvfsInflateCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_th
             goto bail;
         }
         toOut = sizeof(buf) - stream.avail_out;
-        if( toOut<=0)
-            break;
-        Jsi_DSAppendLen(&dStr, buf, toOut);
+        if (toOut>0)
+            Jsi_DSAppendLen(&dStr, buf, toOut);
         stream.avail_out = sizeof(buf);
         stream.next_out = (uchar*)buf;
         if (err== Z_STREAM_END)
             break;
+        if (toOut<=0 && !stream.avail_in) { /* Truncated. */
+            err = Z_BUF_ERROR;
+            inflateEnd(&stream);
+            goto bail;
+        }
     }
     err = inflateEnd(&stream);
     if (err!=Z_OK)
-- 
2.43.0


From bb666edeb988f21423676df98acf8d374607cbe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:02 +0000
Subject: [PATCH 145/226] fix: zip entries that deflate does not shrink were
 marked as stored

---
 src/jsiZvfs.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/jsiZvfs.c b/src/jsiZvfs.c
index 7d7dd57..3c9b546 100644
--- a/src/jsiZvfs.c
+++ b/src/jsiZvfs.c
@@ -96,6 +96,7 @@ typedef struct ZFile {
     int iCRC;            /* Cyclic Redundancy Check of the data */
     int permissions;     /* File permissions. */
     int flags;            /* Deletion = bit 0. */
+    int method;          /* Compression method. */
     struct ZFile *pNext;        /* Next file in the same archive */
 } ZFile;
 
@@ -351,7 +352,7 @@ static Jsi_RC ZvfsReadTOCStart(
         p->dosTime = INT16(zBuf, 12);
         p->nByteCompr = INT32(zBuf, 20);
         p->nByte = INT32(zBuf, 24);
-        p->nExtra = INT32(zBuf, 28);
+        p->method = INT16(zBuf, 10);
         p->iCRC = INT32(zBuf, 16);
 
         if (nFile < 0)
@@ -1723,7 +1724,8 @@ static Jsi_RC writeFile(
     put32(&zHdr[0], 0x04034b50);
     put16(&zHdr[4], 0x0014);
     put16(&zHdr[6], 0);
-    put16(&zHdr[8], 8);
+    p->method = (isdir ? 0 : 8);
+    put16(&zHdr[8], p->method);
     put16(&zHdr[10], p->dosTime);
     put16(&zHdr[12], p->dosDate);
     put16(&zHdr[26], nameLen);
@@ -1899,7 +1901,7 @@ static void writeTOC(Jsi_Interp *interp, Jsi_Channel chan, ZFile *pList) {
         put16(&zBuf[4], 0x0317);
         put16(&zBuf[6], 0x0014);
         put16(&zBuf[8], 0);
-        put16(&zBuf[10], pList->nByte>pList->nByteCompr ? 0x0008 : 0x0000);
+        put16(&zBuf[10], pList->method);
         put16(&zBuf[12], pList->dosTime);
         put16(&zBuf[14], pList->dosDate);
         put32(&zBuf[16], pList->iCRC);
-- 
2.43.0


From ac28f73e8b59a799bf84b409080b93570416959f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:02 +0000
Subject: [PATCH 146/226] fix: Zvfs.append lost the offsets, permissions and
 directories of existing entries

---
 src/jsiZvfs.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/jsiZvfs.c b/src/jsiZvfs.c
index 3c9b546..63a64d6 100644
--- a/src/jsiZvfs.c
+++ b/src/jsiZvfs.c
@@ -354,6 +354,8 @@ static Jsi_RC ZvfsReadTOCStart(
         p->nByte = INT32(zBuf, 24);
         p->method = INT16(zBuf, 10);
         p->iCRC = INT32(zBuf, 16);
+        p->iOffset = iData;
+        p->permissions = (0xffff&(INT32(zBuf, 38) >> 16));
 
         if (nFile < 0)
             break;
@@ -1896,7 +1898,6 @@ static void writeTOC(Jsi_Interp *interp, Jsi_Channel chan, ZFile *pList) {
 
     iTocStart = Jsi_Tell(interp, chan);
     for(; pList; pList=pList->pNext) {
-        if( pList->isSpecial ) continue;
         put32(&zBuf[0], 0x02014b50);
         put16(&zBuf[4], 0x0317);
         put16(&zBuf[6], 0x0014);
-- 
2.43.0


From c623a21eafe66daae0c6387785c80616257cc513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:02 +0000
Subject: [PATCH 147/226] fix: Zvfs.list had no heading for the date and showed
 wrong minutes and seconds

---
 src/jsiZvfs.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/jsiZvfs.c b/src/jsiZvfs.c
index 63a64d6..e7b6b3d 100644
--- a/src/jsiZvfs.c
+++ b/src/jsiZvfs.c
@@ -1597,7 +1597,7 @@ static void put32(char *z, int v) {
 static void translateDosTimeDate(char *zStr, int zsiz, int dosDate, int dosTime) {
     static const char *zMonth[] = { "nil",
                               "Jan", "Feb", "Mar", "Apr", "May", "Jun",
-                              "Jul", "Aug", "Sep", "Oct", "Nov", "Dec",
+                              "Jul", "Aug", "Sep", "Oct", "Nov", "Dec", "nil", "nil", "nil"
                             };
 
     snprintf(zStr, zsiz, "%02d-%s-%d %02d:%02d:%02d",
@@ -1605,8 +1605,8 @@ static void translateDosTimeDate(char *zStr, int zsiz, int dosDate, int dosTime)
             zMonth[ ((dosDate&0x1e0)>>5) ],
             ((dosDate&0xfe00)>>9) + 1980,
             (dosTime&0xf800)>>11,
-            (dosTime&0x7e)>>5,
-            dosTime&0x1f
+            (dosTime&0x7e0)>>5,
+            (dosTime&0x1f)*2
            );
 }
 
@@ -1615,7 +1615,7 @@ static void translateDosTimeDate(char *zStr, int zsiz, int dosDate, int dosTime)
 Return contents of zip directory as an array of arrays. The first element \
 contains the labels, ie: \
 \n\
-[ 'Name', 'Special', 'Offset', 'Bytes', 'BytesCompressed' ] \
+[ 'Name', 'Date', 'Special', 'Offset', 'Bytes', 'BytesCompressed', 'CRC' ] \
 ")
 static Jsi_RC ZvfsListCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
     Jsi_Value **ret, Jsi_Func *funcPtr)
@@ -1642,7 +1642,7 @@ static Jsi_RC ZvfsListCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
     Jsi_ValueMakeArrayObject(interp, ret, nobj);
     sobj = Jsi_ObjNew(interp);
     sval = Jsi_ValueMakeArrayObject(interp, NULL, sobj);
-    static const char *keys[] = {"Name", "Special", "Offset", "Bytes", "BytesCompressed", "CRC", 0 };
+    static const char *keys[] = {"Name", "Date", "Special", "Offset", "Bytes", "BytesCompressed", "CRC", 0 };
     int i;
     for (i=0; keys[i]; i++)
         Jsi_ObjArrayAdd(interp, sobj, Jsi_ValueNewStringKey(interp, keys[i]));
-- 
2.43.0


From b65f739336d1da6b2fecfc38d24f29c6c8e69be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:02 +0000
Subject: [PATCH 148/226] fix: times of files in zip archives were a month off

---
 src/jsiZvfs.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/jsiZvfs.c b/src/jsiZvfs.c
index e7b6b3d..0c41528 100644
--- a/src/jsiZvfs.c
+++ b/src/jsiZvfs.c
@@ -168,7 +168,7 @@ static void deleteZFileList(ZFile *pList) {
 /* Convert DOS time to unix time. */
 static void UnixTimeDate(struct tm *tm, int *dosDate, int *dosTime) {
     *dosDate = ((((tm->tm_year-80)<<9)&0xfe00) | (((tm->tm_mon+1)<<5)&0x1e0) | (tm->tm_mday&0x1f));
-    *dosTime = (((tm->tm_hour<<11)&0xf800) | ((tm->tm_min<<5)&0x7e0) | (tm->tm_sec&0x1f));
+    *dosTime = (((tm->tm_hour<<11)&0xf800) | ((tm->tm_min<<5)&0x7e0) | ((tm->tm_sec>>1)&0x1f));
 }
 
 /* Convert DOS time to unix time. */
@@ -178,11 +178,12 @@ static time_t DosTimeDate(int dosDate, int dosTime) {
     now=time(NULL);
     tm = localtime(&now);
     tm->tm_year=(((dosDate&0xfe00)>>9) + 80);
-    tm->tm_mon=((dosDate&0x1e0)>>5);
+    tm->tm_mon=((dosDate&0x1e0)>>5)-1;
     tm->tm_mday=(dosDate & 0x1f);
     tm->tm_hour=(dosTime&0xf800)>>11;
     tm->tm_min=(dosTime&0x7e0)>>5;
-    tm->tm_sec=(dosTime&0x1f);
+    tm->tm_sec=(dosTime&0x1f)*2;
+    tm->tm_isdst=-1;
     return mktime(tm);
 }
 
-- 
2.43.0


From cf45c7c1e6b0f924ef65efeb765ac125bbf0c79e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:02 +0000
Subject: [PATCH 149/226] fix: Zvfs.truncate ignored a file without archive by
 default and gave no offset

---
 src/jsiZvfs.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/jsiZvfs.c b/src/jsiZvfs.c
index 0c41528..e577187 100644
--- a/src/jsiZvfs.c
+++ b/src/jsiZvfs.c
@@ -2135,7 +2135,7 @@ static Jsi_RC ZvfsTruncateCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_t
     Jsi_Channel chan;
     ZFile *pList = NULL;
     int rc = JSI_OK;
-    bool noerror = 1; 
+    bool noerror = 0; 
     int zipStart;
 
     Jsi_Value *Archive = Jsi_ValueArrayIndex(interp, args, 0);
@@ -2155,8 +2155,10 @@ static Jsi_RC ZvfsTruncateCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_t
     if( rc!=JSI_OK ) {
         deleteZFileList(pList);
         Jsi_Close(interp, chan);
-        if (noerror)
+        if (noerror) {
+            Jsi_ValueMakeNumber(interp, ret, 0.0);
             return JSI_OK;
+        }
         return Jsi_LogError("not an archive");
     }
 
-- 
2.43.0


From cda2ee8c50dee965896eca120697fdf51a5c0086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:02 +0000
Subject: [PATCH 150/226] fix: puts to a compressed channel went to stdout

---
 src/jsiFilesys.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/jsiFilesys.c b/src/jsiFilesys.c
index f653c4b..4998a46 100644
--- a/src/jsiFilesys.c
+++ b/src/jsiFilesys.c
@@ -1020,7 +1020,19 @@ int Jsi_Printf(Jsi_Interp *interp, Jsi_Channel chan, const char *fmt, ...)
     int n;
     FILE *fp = (chan && chan->fp ? chan->fp : stdout);
     va_start(va,fmt);
-    n = vfprintf(fp, fmt, va);
+    if (chan && !chan->fp && chan->fsPtr && chan->fsPtr->writeProc) {
+        va_list vb;
+        va_copy(vb, va);
+        n = vsnprintf(NULL, 0, fmt, vb);
+        va_end(vb);
+        if (n >= 0) {
+            char *buf = (char*)Jsi_Malloc(n+1);
+            vsnprintf(buf, n+1, fmt, va);
+            n = Jsi_Write(interp, chan, buf, n);
+            Jsi_Free(buf);
+        }
+    } else
+        n = vfprintf(fp, fmt, va);
     va_end(va);
     return n;
 }
-- 
2.43.0


From 33813022c3e611787ab579c61abc19dd48c754a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:02 +0000
Subject: [PATCH 151/226] fix: writing more than a buffer to a compressed
 channel corrupted it, and flush ended it

---
 src/jsiZvfs.c | 113 ++++++++++++++++++++++++++------------------------
 1 file changed, 58 insertions(+), 55 deletions(-)

diff --git a/src/jsiZvfs.c b/src/jsiZvfs.c
index e577187..c7d4fd5 100644
--- a/src/jsiZvfs.c
+++ b/src/jsiZvfs.c
@@ -1021,68 +1021,71 @@ static Jsi_Channel Jfz_FSOpenProc (Jsi_Interp *interp, Jsi_Value *path, const ch
     return chan;
 }
 
-static int Jfz_FSWriteProc(Jsi_Channel chan, const char *buf, int size) {
-    ZvfsChannelInfo *pInfo = (ZvfsChannelInfo*)chan->data;
+static int jfzDeflate(ZvfsChannelInfo *pInfo, const char *buf, int size, int flush) {
     Jsi_Interp *interp = pInfo->interp;
-    ZVFSSIGASSERT(pInfo, PINFO);
     char obuf[COMPR_BUF_SIZE];
-    if (size<0) size = 0;
-    int n, cnt = size;
-    if (!buf) size = 0;
+    int status, out;
     z_stream *stream = &pInfo->stream;
-    stream->next_out = (unsigned char*)obuf;
-    stream->avail_out = sizeof(obuf);
+    if (pInfo->emuGzip && pInfo->readSoFar == 0) { /* Add gzip header */
+        if (Jsi_Write(interp, pInfo->chan, "\37\213\10\0\0\0\0\0\0\3", 10) != 10)
+            goto writefail;
+        pInfo->readSoFar = 10;
+    }
     stream->next_in = (unsigned char*)buf;
-    stream->avail_in = n = size;
-    while (stream->avail_in > 0 || buf == NULL) {
-        stream->total_out = 0;
-        int status = deflate(stream, (buf?(size==0?Z_FULL_FLUSH:0):Z_FINISH));
-        int out = stream->total_out;
-        if (pInfo->emuGzip && buf && (status == Z_STREAM_END || status == Z_OK))
-            pInfo->iCRC = crc32(pInfo->iCRC, (unsigned char*)buf, size - stream->avail_in);
-        if ((status == Z_STREAM_END || status == Z_OK) && out>0)
-        {
-            if (pInfo->emuGzip && pInfo->readSoFar == 0 && /* Add gzip header */
-                Jsi_Write(interp, pInfo->chan, "\37\213\10\0\0\0\0\0\0\3", 10) != 10)
-                goto writefail;
-            if (out != Jsi_Write(interp, pInfo->chan, obuf, out)) {
-writefail:
-                Jsi_LogError("write failed");
-                cnt = -1;
-                break;
-            }
-            cnt += out;
-            pInfo->curPos = (pInfo->readSoFar += cnt);
-            stream->next_out = (unsigned char*)(obuf+cnt);
-            stream->avail_out = sizeof(obuf);
-            if (pInfo->emuGzip && !buf) { /* Add gzip size and crc. */
-                char psp[8];
-                put32(psp, pInfo->iCRC);
-                put32(psp+4, pInfo->nByte);
-                if (Jsi_Write(interp, pInfo->chan, (char*)psp, 8) != 8)
-                    goto writefail;
-            }
-            //cnt += out;
-        }
-        pInfo->nByte += (size - stream->avail_in);
-        if (status == Z_STREAM_END)
-            break;
-        if (status != Z_OK) {
-            Jsi_LogError("unzip failed: %s", stream->msg);
-            cnt = -1;
-            break;
+    stream->avail_in = size;
+    do {
+        stream->next_out = (unsigned char*)obuf;
+        stream->avail_out = sizeof(obuf);
+        status = deflate(stream, flush);
+        if (status != Z_OK && status != Z_STREAM_END && status != Z_BUF_ERROR) {
+            Jsi_LogError("deflate failed: %s", stream->msg?stream->msg:"");
+            return -1;
         }
-        if (!buf)
-            break;
-    }
-    return cnt;
-    
+        out = sizeof(obuf) - stream->avail_out;
+        if (out>0 && out != Jsi_Write(interp, pInfo->chan, obuf, out))
+            goto writefail;
+        pInfo->readSoFar += out;
+    } while (status == Z_OK && (stream->avail_in > 0 || stream->avail_out == 0 || flush == Z_FINISH));
+    return size;
+writefail:
+    Jsi_LogError("write failed");
+    return -1;
+}
+
+static int Jfz_FSWriteProc(Jsi_Channel chan, const char *buf, int size) {
+    ZvfsChannelInfo *pInfo = (ZvfsChannelInfo*)chan->data;
+    ZVFSSIGASSERT(pInfo, PINFO);
+    if (size<=0 || !buf) return 0;
+    if (!(chan->flags & JSI_FS_WRITEONLY)) return -1;
+    if (jfzDeflate(pInfo, buf, size, Z_NO_FLUSH) != size)
+        return -1;
+    if (pInfo->emuGzip)
+        pInfo->iCRC = crc32(pInfo->iCRC, (unsigned char*)buf, size);
+    pInfo->nByte += size;
+    pInfo->curPos += size;
+    return size;
+}
+
+/* Finish the compressed data, with the gzip crc and size. */
+static int jfzFinish(ZvfsChannelInfo *pInfo) {
+    Jsi_Interp *interp = pInfo->interp;
+    char psp[8];
+    if (jfzDeflate(pInfo, "", 0, Z_FINISH) < 0)
+        return -1;
+    if (!pInfo->emuGzip)
+        return 0;
+    put32(psp, pInfo->iCRC);
+    put32(psp+4, pInfo->nByte);
+    return (Jsi_Write(interp, pInfo->chan, (char*)psp, 8) == 8 ? 0 : -1);
 }
 
 static int Jfz_FSFlushProc(Jsi_Channel chan) {
-    ZVFSSIGASSERT((ZvfsChannelInfo*)chan->data, PINFO);
-    Jfz_FSWriteProc(chan, NULL, 0);
-    return 0;
+    ZvfsChannelInfo *pInfo = (ZvfsChannelInfo*)chan->data;
+    ZVFSSIGASSERT(pInfo, PINFO);
+    if (!(chan->flags & JSI_FS_WRITEONLY)) return 0;
+    if (jfzDeflate(pInfo, "", 0, Z_SYNC_FLUSH) < 0)
+        return -1;
+    return Jsi_Flush(pInfo->interp, pInfo->chan);
 }
 
 static int Jfz_FSStatProc(Jsi_Interp *interp, Jsi_Value *path, Jsi_StatBuf *buf) {
@@ -1182,7 +1185,7 @@ static int Jfz_FSCloseProc(Jsi_Channel chan) {
           return -1;
         }
     } else {
-        Jfz_FSWriteProc(chan, NULL, 0);
+        jfzFinish(pInfo);
         if (deflateEnd(&pInfo->stream) != Z_OK)
         {
           fprintf(stderr, "deflateEnd() failed!\n");
-- 
2.43.0


From cd0da9a0f7ff1f5ee540ab557b08f1aaad377c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:02 +0000
Subject: [PATCH 152/226] fix: reading a compressed channel failed beyond its
 buffers, in zlib mode and by lines

---
 src/jsiZvfs.c | 155 +++++++++++++++++++++++++++-----------------------
 1 file changed, 85 insertions(+), 70 deletions(-)

diff --git a/src/jsiZvfs.c b/src/jsiZvfs.c
index c7d4fd5..3ebb35f 100644
--- a/src/jsiZvfs.c
+++ b/src/jsiZvfs.c
@@ -124,6 +124,8 @@ typedef struct ZvfsChannelInfo {
     char buf[COMPR_BUF_SIZE];
     int iCRC;            /* Cyclic Redundancy Check of the data */
     char emuGzip;
+    char member;         /* 0 before, 1 inside and 2 after the compressed data. */
+    char atEof;          /* The raw file was read to its end. */
     char useGzip;
     Jsi_Interp *interp;
 } ZvfsChannelInfo;
@@ -990,9 +992,6 @@ static Jsi_Channel Jfz_FSOpenProc (Jsi_Interp *interp, Jsi_Value *path, const ch
     z_stream *stream = &pInfo->stream;
     if (mode & JSI_FS_READONLY) {
         stream->next_in = (unsigned char *)pInfo->buf;
-        Jsi_Seek(interp, achan, 0, SEEK_END);
-        pInfo->nByte = Jsi_Tell(interp, achan);
-        Jsi_Seek(interp, achan, 0, SEEK_SET);
         if (!winBits)
             rc = inflateInit(stream);
         else
@@ -1101,75 +1100,100 @@ static int Jfz_FSTellProc(Jsi_Channel chan) {
     return pInfo->curPos;
 }
 
+/* Number of raw bytes in the input buffer, which is filled when empty. */
+static int jfzFill(ZvfsChannelInfo *pInfo) {
+    z_stream *stream = &pInfo->stream;
+    if (!stream->avail_in && !pInfo->atEof) {
+        int n = Jsi_Read(pInfo->interp, pInfo->chan, pInfo->buf, sizeof(pInfo->buf));
+        if (n <= 0)
+            pInfo->atEof = 1;
+        else {
+            stream->next_in = (unsigned char*)pInfo->buf;
+            stream->avail_in = n;
+        }
+    }
+    return stream->avail_in;
+}
+
+static int jfzByte(ZvfsChannelInfo *pInfo) {
+    if (!jfzFill(pInfo)) return -1;
+    pInfo->stream.avail_in--;
+    return *pInfo->stream.next_in++;
+}
+
+/* Skip a gzip header: returns 0 if there is none. */
+static int jfzGzipHeader(ZvfsChannelInfo *pInfo) {
+    int i, n, flags = 0;
+    static const int magic[] = { 0x1f, 0x8b, 8 };
+    for (i=0; i<10; i++) {
+        n = jfzByte(pInfo);
+        if (n < 0 || (i<3 && n != magic[i]))
+            return 0;
+        if (i == 3) flags = n;
+    }
+    if (flags & 4) {        /* Extra data. */
+        n = jfzByte(pInfo);
+        n += jfzByte(pInfo)<<8;
+        while (n-- > 0)
+            if (jfzByte(pInfo)<0) return 0;
+    }
+    for (i=8; i<=16; i<<=1) /* Name and comment. */
+        if (flags & i)
+            while ((n = jfzByte(pInfo)))
+                if (n<0) return 0;
+    if (flags & 2) {        /* Header crc. */
+        jfzByte(pInfo);
+        jfzByte(pInfo);
+    }
+    return 1;
+}
+
 static int Jfz_FSReadProc(Jsi_Channel chan, char *s, int size) {
     ZvfsChannelInfo *pInfo = (ZvfsChannelInfo*)chan->data;
     Jsi_Interp *interp = pInfo->interp;
     ZVFSSIGASSERT(pInfo, PINFO);
     z_stream *stream = &pInfo->stream;
-    int cnt = 0;
-    *s = 0;
-    int rem = (pInfo->nByte - pInfo->readSoFar);
-    int bsize = sizeof(pInfo->buf);
-    stream->next_out = (unsigned char*)s;
-    int oaout = stream->avail_out = size;
-    if (rem <= 0)
+    int n, cnt = 0;
+    if (size <= 0)
         return 0;
-    
-    while (cnt<size)
+    if (!(chan->flags & JSI_FS_READONLY))
+        return -1;
+    *s = 0;
+    while (cnt<size && pInfo->member < 2)
     {
-      int status;
-      if (!stream->avail_in)
-      {
-        // Input buffer is empty, so read more bytes from input file.
-        int n = (rem<bsize? rem : bsize);
-
-        if (pInfo->emuGzip && pInfo->readSoFar == 0) { /* Strip gzip header */
-            if (Jsi_Read(interp, pInfo->chan, pInfo->buf, 10) != 10)
-                goto readFail;
-            n -= 10;
-            const char *cp = pInfo->buf;
-            if (cp[0] != '\37' || cp[1] != '\213' || cp[2] != '\10') {
+        if (pInfo->member == 0) {
+            if (!jfzFill(pInfo))
+                break;
+            if (pInfo->emuGzip && !jfzGzipHeader(pInfo)) {
                 Jsi_LogError("not a gzip file");
                 return -1;
             }
+            pInfo->member = 1;
         }
-            
-        if (Jsi_Read(interp, pInfo->chan, pInfo->buf, n) != n)
-        {
-readFail:
-            Jsi_LogError("Failed reading from input file!");
-            return -1;
-        }
-        pInfo->curPos = (pInfo->readSoFar += n);
-
-        stream->next_in = (unsigned char*)pInfo->buf;
-        stream->avail_in = n;
-
-        rem -= n;
-      }
-
-      status = inflate(stream, Z_SYNC_FLUSH);
-
-      if ((status == Z_STREAM_END) || (!stream->avail_out))
-      {
-        uint n = oaout - stream->avail_out;
-        cnt += n;
+        int avail = jfzFill(pInfo);
         stream->next_out = (unsigned char*)(s+cnt);
-        stream->avail_out = (size-cnt);
-      }
-
-      if (status == Z_STREAM_END)
-        break;
-      else if (status != Z_OK)
-      {
-        Jsi_LogError("inflate failed: %s", stream->msg);
-        return -1;
-      }
+        stream->avail_out = size-cnt;
+        int status = inflate(stream, Z_SYNC_FLUSH);
+        n = (size-cnt) - stream->avail_out;
+        cnt += n;
+        pInfo->curPos += n;
+        if (status == Z_STREAM_END) {
+            pInfo->member = 2;
+            break;
+        } else if ((status != Z_OK && status != Z_BUF_ERROR) || (n == 0 && !avail)) {
+            Jsi_LogError("inflate failed: %s", stream->msg?stream->msg:"");
+            return (cnt>0 ? cnt : -1);
+        }
     }
-
     return cnt;
 }
 
+static int Jfz_FSEofProc(Jsi_Channel chan) {
+    ZvfsChannelInfo *pInfo = (ZvfsChannelInfo*)chan->data;
+    if (!(chan->flags & JSI_FS_READONLY)) return 0;
+    return (pInfo->member == 2 || (pInfo->member == 0 && !jfzFill(pInfo)));
+}
+
 
 static int Jfz_FSCloseProc(Jsi_Channel chan) {
     ZvfsChannelInfo *pInfo = (ZvfsChannelInfo*)chan->data;
@@ -1200,25 +1224,16 @@ static int Jfz_FSCloseProc(Jsi_Channel chan) {
 
 
 static char * Jfz_FSGetsProc(Jsi_Channel chan, char *s, int size) {
-    ZvfsChannelInfo *pInfo = (ZvfsChannelInfo*)chan->data;
-    char *cp = s;
     int n = 0;
     *s = 0;
     while (n<(size-1)) {
-        int m = Jfz_FSReadProc(chan, pInfo->buf, 1);
-        if (m <= 0)
+        if (Jfz_FSReadProc(chan, s+n, 1) <= 0)
             break;
-        *cp = pInfo->buf[0];
-        if (*cp == '\n') {
-            n++;
+        if (s[n++] == '\n')
             break;
-        }
-        n++;
-        cp++;
     }
-    if (n>0)
-        s[n]=0;
-    return s;
+    s[n]=0;
+    return (n>0 ? s : NULL);
 }
 
 /************** Zip Archive filesystem ******************/
@@ -2260,7 +2275,7 @@ static Jsi_Filesystem Jfz_Filesystem = {
     .flushProc=Jfz_FSFlushProc,
     .seekProc=0,
     .tellProc=Jfz_FSTellProc,
-    .eofProc=0,
+    .eofProc=Jfz_FSEofProc,
     .truncateProc=0,
     .rewindProc=0,
     .closeProc=Jfz_FSCloseProc,
-- 
2.43.0


From d65c89848dfea51f8e2780350a8754ef2624918e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:02 +0000
Subject: [PATCH 153/226] fix: seek, tell and eof in a file of a mounted
 archive used positions of the archive

---
 src/jsiZvfs.c | 44 +++++++++++++++++++++-----------------------
 1 file changed, 21 insertions(+), 23 deletions(-)

diff --git a/src/jsiZvfs.c b/src/jsiZvfs.c
index 3ebb35f..736cda4 100644
--- a/src/jsiZvfs.c
+++ b/src/jsiZvfs.c
@@ -880,6 +880,11 @@ static int vfsInput (
     return toRead;
 }
 
+/* Position of the next byte that is read. */
+static int vfsTell(ZvfsChannelInfo* pInfo) {
+    return pInfo->readSoFar - (pInfo->bsiz>pInfo->bpos ? pInfo->bsiz - pInfo->bpos : 0);
+}
+
 /*
 ** Move the file pointer so that the next byte read will be "offset".
 */
@@ -889,26 +894,17 @@ static int vfsSeek(
     int mode,                   /* One of SEEK_CUR, SEEK_SET or SEEK_END */
     int *pErrorCode             /* Write the error code here */
 ) {
-    Jsi_Interp *interp = pInfo->interp;
-    Jsi_Seek(interp, pInfo->chan, pInfo->curPos, SEEK_SET);
-    switch( mode ) {
-    case SEEK_CUR: {
-        offset += pInfo->readSoFar;
-        break;
-    }
-    case SEEK_END: {
-        offset += pInfo->readSoFar + pInfo->nByte;
-        break;
-    }
-    default: {
-        /* Do nothing */
-        break;
-    }
-    }
+    long size = (long)pInfo->readSoFar + pInfo->nByte;
+    if (mode == SEEK_CUR)
+        offset += vfsTell(pInfo);
+    else if (mode == SEEK_END)
+        offset += size;
     if (offset < 0) offset = 0;
+    if (offset > size) offset = size;
+    pInfo->bpos = pInfo->bsiz = 0;
     if( !pInfo->isCompressed ) {
-        Jsi_Seek(interp, pInfo->chan, offset + pInfo->startOfData, SEEK_SET);
-        pInfo->nByte = pInfo->nData;
+        pInfo->curPos = offset + pInfo->startOfData;
+        pInfo->nByte = size - offset;
         pInfo->readSoFar = offset;
     } else {
         if( offset<pInfo->readSoFar ) {
@@ -922,7 +918,7 @@ static int vfsSeek(
             pInfo->zBuf[0] = 0x78;
             pInfo->zBuf[1] = 0x01;
             inflateInit(&pInfo->stream);
-            Jsi_Seek(interp, pInfo->chan, pInfo->startOfData, SEEK_SET);
+            pInfo->curPos = pInfo->startOfData;
             pInfo->nByte += pInfo->readSoFar;
             pInfo->nByteCompr = pInfo->nData;
             pInfo->readSoFar = 0;
@@ -932,10 +928,12 @@ static int vfsSeek(
             char zDiscard[100];
             toRead = offset - pInfo->readSoFar;
             if( toRead>(int)sizeof(zDiscard) ) toRead = (int)sizeof(zDiscard);
-            vfsInput(pInfo, zDiscard, toRead, &errCode);
+            if (vfsInput(pInfo, zDiscard, toRead, &errCode) <= 0) {
+                *pErrorCode = -1;
+                break;
+            }
         }
     }
-    pInfo->curPos = Jsi_Tell(interp, pInfo->chan);
     return pInfo->readSoFar;
 }
 
@@ -1497,12 +1495,12 @@ static int Jaz_FSFlushProc(Jsi_Channel chan) {
 
 static int Jaz_FSTellProc(Jsi_Channel chan) {
     ZvfsChannelInfo *pInfo = (ZvfsChannelInfo*)chan->data;
-    return pInfo->curPos;
+    return vfsTell(pInfo);
 }
 
 static int Jaz_FSEofProc(Jsi_Channel chan) {
     ZvfsChannelInfo *pInfo = (ZvfsChannelInfo*)chan->data;
-    return (pInfo->curPos >= pInfo->pFile->nByte);
+    return (vfsTell(pInfo) >= pInfo->pFile->nByte);
 }
 
 static int Jaz_FSRewindProc(Jsi_Channel chan) {
-- 
2.43.0


From 4df10aedac5d07f5c3efcdf5b3d8d8330b243358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:02 +0000
Subject: [PATCH 154/226] fix: reading a damaged file of an archive returned
 garbage, and gets lost the last line

---
 src/jsiZvfs.c | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/jsiZvfs.c b/src/jsiZvfs.c
index 736cda4..2c557f8 100644
--- a/src/jsiZvfs.c
+++ b/src/jsiZvfs.c
@@ -1526,10 +1526,13 @@ static int Jaz_FSReadProc(Jsi_Channel chan, char *s, int size) {
     *s = 0;
     while (n<size) {
         if (pInfo->bpos >= pInfo->bsiz) {
-            if (!(pInfo->bsiz = vfsInput(pInfo, pInfo->buf, sizeof(pInfo->buf), &rc))) {
+            pInfo->bpos = 0;
+            if ((pInfo->bsiz = vfsInput(pInfo, pInfo->buf, sizeof(pInfo->buf), &rc))<=0) {
+                if (pInfo->bsiz<0 && n==0)
+                    n = -1;
+                pInfo->bsiz = 0;
                 break;
             }
-            pInfo->bpos = 0;
         }
         *cp = pInfo->buf[pInfo->bpos++];
         n++;
@@ -1544,12 +1547,13 @@ static int Jaz_FSGetcProc(Jsi_Channel chan) {
     ZvfsChannelInfo *pInfo = (ZvfsChannelInfo*)chan->data;
     int rc = 0;
     if (pInfo->bpos >= pInfo->bsiz) {
-        if (!(pInfo->bsiz = vfsInput(pInfo, pInfo->buf, sizeof(pInfo->buf), &rc))) {
-            return 0;
-        }
         pInfo->bpos = 0;
+        if ((pInfo->bsiz = vfsInput(pInfo, pInfo->buf, sizeof(pInfo->buf), &rc))<=0) {
+            pInfo->bsiz = 0;
+            return -1;
+        }
     }
-    return pInfo->buf[pInfo->bpos++];
+    return (unsigned char)pInfo->buf[pInfo->bpos++];
 }
 
 static int Jaz_FSUngetcProc(Jsi_Channel chan, int ch) {
@@ -1570,14 +1574,13 @@ static char * Jaz_FSGetsProc(Jsi_Channel chan, char *s, int size) {
     *s = 0;
     while (n<(size-1)) {
         if (pInfo->bpos >= pInfo->bsiz) {
-            if ((int)pInfo->stream.total_out >= pInfo->pFile->nByte)
-                return NULL;
+            pInfo->bpos = 0;
             if ((pInfo->bsiz = vfsInput(pInfo, pInfo->buf, sizeof(pInfo->buf), &rc))<=0) {
+                pInfo->bsiz = 0;
                 if (n==0)
                     return NULL;
                 break;
             }
-            pInfo->bpos = 0;
         }
         *cp = pInfo->buf[pInfo->bpos++];
         if (*cp == '\n') {
-- 
2.43.0


From 76032b8682fbeb1f67a067a43015e80cb311641f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:02 +0000
Subject: [PATCH 155/226] fix: a failed mount left entries of a closed archive,
 and unmounting leaked its files

---
 src/jsiZvfs.c | 57 +++++++++++++++++++++++++++++++--------------------
 1 file changed, 35 insertions(+), 22 deletions(-)

diff --git a/src/jsiZvfs.c b/src/jsiZvfs.c
index 2c557f8..9d97f08 100644
--- a/src/jsiZvfs.c
+++ b/src/jsiZvfs.c
@@ -449,6 +449,8 @@ static Jsi_RC ZvfsNamesCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this
     return rc;
 }
 
+static void zvfsFreeArchive(Jsi_Interp *interp, ZvfsArchive *pArchive);
+
 #define FN_mount JSI_INFO("\
 Read a ZIP archive and make entries in the virutal file hash table for all \
 files contained therein.")
@@ -458,7 +460,7 @@ Jsi_RC Zvfs_Mount( Jsi_Interp *interp, Jsi_Value *archive, Jsi_Value *mount, Jsi
     char *zArchiveName = 0;    /* A copy of zArchive */
     int nFile;                 /* Number of files in the archive */
     int iPos;                  /* Current position in the archive file */
-    ZvfsArchive *pArchive;     /* The ZIP archive being mounted */
+    ZvfsArchive *pArchive, *pNew = NULL;     /* The ZIP archive being mounted */
     Jsi_HashEntry *pEntry;     /* Hash table entry */
     bool isNew;                 /* Flag to tell use when a hash entry is new */
     unsigned char zBuf[100];   /* Space into which to read from the ZIP archive */
@@ -519,7 +521,9 @@ Jsi_RC Zvfs_Mount( Jsi_Interp *interp, Jsi_Value *archive, Jsi_Value *mount, Jsi
     } else if (zMountPoint != mbuf) {
         zMountPoint = Jsi_ValueNormalPath(interp, mount, &mStr);
     }
-    pArchive = (ZvfsArchive*)Jsi_Calloc(1, sizeof(*pArchive));
+    pNew = pArchive = (ZvfsArchive*)Jsi_Calloc(1, sizeof(*pArchive));
+    pArchive->chan = chan;
+    interp->mountCnt++;
     pArchive->Name = Jsi_ValueNewStringDup(interp, zArchiveName);
     Jsi_IncrRefCount(interp, pArchive->Name);
     Jsi_DSFree(&pStr);
@@ -559,8 +563,7 @@ Jsi_RC Zvfs_Mount( Jsi_Interp *interp, Jsi_Value *archive, Jsi_Value *mount, Jsi
         ** the size of the "extra" information, and the offset into the archive
         ** file of the file data.
         */
-        Jsi_Read(interp, chan, (char*)zBuf, 46);
-        if (memcmp(zBuf, "\120\113\01\02", 4)) {
+        if (Jsi_Read(interp, chan, (char*)zBuf, 46) != 46 || memcmp(zBuf, "\120\113\01\02", 4)) {
             Jsi_LogError("ill-formed central directory entry");
             //TODO: cleanup.
             goto bail;
@@ -638,18 +641,19 @@ skip:
         */
         Jsi_Seek(interp, chan, lenExtra, SEEK_CUR);
     }
-    pArchive->chan = chan;
-
     if (ret && *ret)
         Jsi_ValueMakeStringDup(interp, ret, zMountPoint);
     Jsi_DSFree(&mStr);
     Jsi_DSFree(&pStr);
-    interp->mountCnt++;
 //done:
     return JSI_OK;
 
 bail:
-    if (chan)
+    Jsi_DSFree(&mStr);
+    Jsi_DSFree(&pStr);
+    if (pNew)
+        zvfsFreeArchive(interp, pNew);
+    else if (chan)
         Jsi_Close(interp, chan);
     return JSI_ERROR;
 }
@@ -682,22 +686,11 @@ static ZvfsFile *ZvfsLookup(Jsi_Interp *interp, Jsi_Value *path) {
 }
 
 /*
-** Unmount zip given its mount point.
+** Free an archive and its files.
 */
-static Jsi_RC Zvfs_Unmount(Jsi_Interp *interp, Jsi_Value *path) {
-    char *zPath;
-    ZvfsArchive *pArchive;
+static void zvfsFreeArchive(Jsi_Interp *interp, ZvfsArchive *pArchive) {
     ZvfsFile *pZvfs, *pNextFile, *pDel = NULL;
     Jsi_HashEntry *pEntry;
-    Jsi_DString pStr = {};
-    Jsi_RC rc = JSI_OK;
-    // TODO: use jsiMain interp for mount/unmount.
-    // TODO: if pwd in mount, change it.
-    zPath = Jsi_ValueNormalPath(interp, path, &pStr);
-    pArchive = ZvfsLookupMount(interp, zPath);
-    Jsi_DSFree(&pStr);
-    if (!pArchive)
-        return JSI_ERROR;
     if (pArchive->pEntry) {
         pArchive->pEntry->clientData = NULL;
         Jsi_HashEntryDelete(pArchive->pEntry);
@@ -720,16 +713,36 @@ static Jsi_RC Zvfs_Unmount(Jsi_Interp *interp, Jsi_Value *path) {
                 pDel = (typeof(pDel))Jsi_HashValueGet(pEntry); // TODO: Needs rework.
                 Jsi_HashValueSet(pEntry, pZvfs->pNextName);
             } else {
+                Jsi_HashValueSet(pEntry, NULL);
                 Jsi_HashEntryDelete(pEntry);
             }
         }
         Jsi_Free(zName);
+        if (pZvfs != pDel)
+            Jsi_Free(pZvfs);
     }
     if (pDel)
         Jsi_Free(pDel);
     Jsi_Free(pArchive);
     interp->mountCnt--;
-    return rc;
+}
+
+/*
+** Unmount zip given its mount point.
+*/
+static Jsi_RC Zvfs_Unmount(Jsi_Interp *interp, Jsi_Value *path) {
+    char *zPath;
+    ZvfsArchive *pArchive;
+    Jsi_DString pStr = {};
+    // TODO: use jsiMain interp for mount/unmount.
+    // TODO: if pwd in mount, change it.
+    zPath = Jsi_ValueNormalPath(interp, path, &pStr);
+    pArchive = ZvfsLookupMount(interp, zPath);
+    Jsi_DSFree(&pStr);
+    if (!pArchive)
+        return JSI_ERROR;
+    zvfsFreeArchive(interp, pArchive);
+    return JSI_OK;
 }
 
 /*
-- 
2.43.0


From 0b0875364fe10bf806cb37af573acea7230e6ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:02 +0000
Subject: [PATCH 156/226] fix: damaged archives were read through uninitialised
 memory and sizes

---
 src/jsiZvfs.c | 32 +++++++++++++-------------------
 1 file changed, 13 insertions(+), 19 deletions(-)

diff --git a/src/jsiZvfs.c b/src/jsiZvfs.c
index 9d97f08..6e9f03b 100644
--- a/src/jsiZvfs.c
+++ b/src/jsiZvfs.c
@@ -301,8 +301,7 @@ static Jsi_RC ZvfsReadTOCStart(
     */
     Jsi_Seek(interp, chan, -22, SEEK_END);
     iPos = Jsi_Tell(interp, chan);
-    Jsi_Read(interp, chan, (char*)zBuf, 22);
-    if (memcmp(zBuf, "\120\113\05\06", 4)) {
+    if (Jsi_Read(interp, chan, (char*)zBuf, 22) != 22 || memcmp(zBuf, "\120\113\05\06", 4)) {
         /* Jsi_LogError("not a ZIP archive"); */
         return JSI_BREAK;
     }
@@ -333,8 +332,7 @@ static Jsi_RC ZvfsReadTOCStart(
         ** the size of the "extra" information, and the offset into the archive
         ** file of the file data.
         */
-        Jsi_Read(interp, chan, (char*)zBuf, 46);
-        if (memcmp(zBuf, "\120\113\01\02", 4)) 
+        if (Jsi_Read(interp, chan, (char*)zBuf, 46) != 46 || memcmp(zBuf, "\120\113\01\02", 4)) 
             return Jsi_LogError("ill-formed central directory entry");
         lenName = INT16(zBuf,28);
         lenExtra = INT16(zBuf,30) + INT16(zBuf,32);
@@ -498,8 +496,7 @@ Jsi_RC Zvfs_Mount( Jsi_Interp *interp, Jsi_Value *archive, Jsi_Value *mount, Jsi
         goto bail;
     }
     iPos = Jsi_Tell(interp, chan);
-    Jsi_Read(interp, chan, (char*)zBuf, 22);
-    if (memcmp(zBuf, "\120\113\05\06", 4)) {
+    if (Jsi_Read(interp, chan, (char*)zBuf, 22) != 22 || memcmp(zBuf, "\120\113\05\06", 4)) {
         if (ret && *ret)
             Jsi_LogError("not a ZIP archive");
         goto bail;
@@ -1286,14 +1283,14 @@ static Jsi_Channel Jaz_FSOpenProc (Jsi_Interp *interp, Jsi_Value *path, const ch
         return NULL;
     }
     Jsi_Seek(interp, achan, pFile->iOffset, SEEK_SET);
-    Jsi_Read(interp, achan, (char*)zBuf, 30);
-    if( memcmp(zBuf, "\120\113\03\04", 4) ) {
+    if( Jsi_Read(interp, achan, (char*)zBuf, 30) != 30 || memcmp(zBuf, "\120\113\03\04", 4) ) {
         Jsi_LogError("local header mismatch: ");
         return NULL;
     }
     pInfo = (ZvfsChannelInfo*)Jsi_Calloc(1, sizeof(*pInfo) );
     pInfo->pFile = pFile;
     pInfo->chan = achan;
+    pInfo->interp = interp;
     //Jsi_CreateExitHandler(vfsExit, pInfo);
     pInfo->isCompressed = INT16(zBuf, 8);
     if( pInfo->isCompressed ) {
@@ -1307,12 +1304,8 @@ static Jsi_Channel Jaz_FSOpenProc (Jsi_Interp *interp, Jsi_Value *path, const ch
     } else {
         pInfo->zBuf = 0;
     }
-    pInfo->nByte = INT32(zBuf,22);
-    pInfo->nByteCompr = INT32(zBuf,18);
-    if (pFile && (!pInfo->nByte || !pInfo->nByteCompr)) {
-        pInfo->nByte  = pFile->nByte;
-        pInfo->nByteCompr  = pFile->nByteCompr;
-    }
+    pInfo->nByte  = (pFile->nByte<0 ? 0 : pFile->nByte);
+    pInfo->nByteCompr  = (pFile->nByteCompr<0 ? 0 : pFile->nByteCompr);
     pInfo->nData = pInfo->nByteCompr;
     pInfo->readSoFar = 0;
     Jsi_Seek(interp, achan, INT16(zBuf,26)+INT16(zBuf,28), SEEK_CUR);
@@ -1372,10 +1365,10 @@ static int Jaz_FSScandirProc(Jsi_Interp *interp, Jsi_Value *dirpath, Jsi_Dirent
     Jsi_HashEntry *pEntry;
     Jsi_HashSearch sSearch;
     int len, n = 0, rc = JSI_OK, deSpace = 0;
-    Jsi_Dirent *de, dd;
+    Jsi_Dirent *de, dd = {};
     Jsi_Dirent **dep = NULL;
     *namelist = NULL;
-    Jsi_DString pStr;
+    Jsi_DString pStr = {};
 
     const char *zp=Jsi_ValueNormalPath(interp, dirpath, &pStr);
     len = Jsi_Strlen(zp);
@@ -1395,14 +1388,15 @@ static int Jaz_FSScandirProc(Jsi_Interp *interp, Jsi_Value *dirpath, Jsi_Dirent
 #ifndef __WIN32
         dd.d_type = (pFile->isdir ? DT_DIR : DT_REG);
 #endif
-        Jsi_Strncpy(dd.d_name,  z, sizeof(dd.d_name));
+        Jsi_Strncpy(dd.d_name,  z, sizeof(dd.d_name)-1);
+        dd.d_name[sizeof(dd.d_name)-1] = 0;
         if (filter && !(filter)(&dd))
             continue;
         if (n >= deSpace) {
             deSpace += 50;
             dep = (Jsi_Dirent**)Jsi_Realloc(dep, deSpace * sizeof(Jsi_Dirent*));
         }
-        de = dep[n] = (Jsi_Dirent*)Jsi_Calloc(deSpace, sizeof(Jsi_Dirent));
+        de = dep[n] = (Jsi_Dirent*)Jsi_Calloc(1, sizeof(Jsi_Dirent));
         *de = dd;
         n++;
     }
@@ -2423,7 +2417,7 @@ static Jsi_RC freeArchiveHashTbl(Jsi_Interp *interp, Jsi_HashEntry *hPtr, void *
     if (!ptr) return JSI_OK;
     ZvfsArchive *pArchive = (ZvfsArchive*)ptr;
     pArchive->pEntry = NULL;
-    Zvfs_Unmount(interp, pArchive->MountPoint);
+    zvfsFreeArchive(interp, pArchive);
     return JSI_OK;
 }
 
-- 
2.43.0


From 2bb0551eaca92be2e900de3b09fab978a59ed92e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:22 +0000
Subject: [PATCH 157/226] fix: Zvfs.append lost the flags of existing entries,
 such as that of utf8 names

---
 src/jsiZvfs.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/jsiZvfs.c b/src/jsiZvfs.c
index 6e9f03b..a98075b 100644
--- a/src/jsiZvfs.c
+++ b/src/jsiZvfs.c
@@ -97,6 +97,7 @@ typedef struct ZFile {
     int permissions;     /* File permissions. */
     int flags;            /* Deletion = bit 0. */
     int method;          /* Compression method. */
+    int gflags;          /* General flags. */
     struct ZFile *pNext;        /* Next file in the same archive */
 } ZFile;
 
@@ -354,6 +355,7 @@ static Jsi_RC ZvfsReadTOCStart(
         p->nByteCompr = INT32(zBuf, 20);
         p->nByte = INT32(zBuf, 24);
         p->method = INT16(zBuf, 10);
+        p->gflags = INT16(zBuf, 8);
         p->iCRC = INT32(zBuf, 16);
         p->iOffset = iData;
         p->permissions = (0xffff&(INT32(zBuf, 38) >> 16));
@@ -1928,7 +1930,7 @@ static void writeTOC(Jsi_Interp *interp, Jsi_Channel chan, ZFile *pList) {
         put32(&zBuf[0], 0x02014b50);
         put16(&zBuf[4], 0x0317);
         put16(&zBuf[6], 0x0014);
-        put16(&zBuf[8], 0);
+        put16(&zBuf[8], pList->gflags);
         put16(&zBuf[10], pList->method);
         put16(&zBuf[12], pList->dosTime);
         put16(&zBuf[14], pList->dosDate);
-- 
2.43.0


From dcd1a2d0559028b2fd743936eb209bfd3bd86277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:23 +0000
Subject: [PATCH 158/226] fix: compressed files of archives could not be read
 across a window of 32768 bytes

---
 src/jsiZvfs.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/jsiZvfs.c b/src/jsiZvfs.c
index a98075b..1178ad6 100644
--- a/src/jsiZvfs.c
+++ b/src/jsiZvfs.c
@@ -867,7 +867,10 @@ static int vfsInput (
                 stream->next_in = pInfo->zBuf;
                 stream->avail_in = len;
             }
+            uint oout = stream->avail_out;
             err = inflate(stream, Z_NO_FLUSH);
+            if (err == Z_BUF_ERROR && (stream->avail_out < oout || pInfo->nByteCompr>0))
+                err = Z_OK; /* Just needs more input or space. */
             if (err) break;
         }
         if (err == Z_STREAM_END) {
-- 
2.43.0


From d4b71482fdf0223f93a62425ef089f15b6fe1685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:17 +0000
Subject: [PATCH 159/226] fix: inflating damaged data with an incomplete code
 never ended

---
 miniz/miniz.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/miniz/miniz.c b/miniz/miniz.c
index 2be15d8..b99ebea 100644
--- a/miniz/miniz.c
+++ b/miniz/miniz.c
@@ -1423,7 +1423,8 @@ const char *mz_error(int err)
     code_len = temp >> 9, temp &= 511; \
   else { \
     code_len = TINFL_FAST_LOOKUP_BITS; do { temp = (pHuff)->m_tree[~temp + ((bit_buf >> code_len++) & 1)]; } while (temp < 0); \
-  } sym = temp; bit_buf >>= code_len; num_bits -= code_len; } MZ_MACRO_END
+  } sym = temp; bit_buf >>= code_len; num_bits -= code_len; \
+  if (!code_len) { TINFL_CR_RETURN_FOREVER(state_index + 100, TINFL_STATUS_FAILED); } } MZ_MACRO_END
 
 tinfl_status tinfl_decompress(tinfl_decompressor *r, const mz_uint8 *pIn_buf_next, size_t *pIn_buf_size, mz_uint8 *pOut_buf_start, mz_uint8 *pOut_buf_next, size_t *pOut_buf_size, const mz_uint32 decomp_flags)
 {
@@ -1579,6 +1580,7 @@ tinfl_status tinfl_decompress(tinfl_decompressor *r, const mz_uint8 *pIn_buf_nex
             {
               code_len = TINFL_FAST_LOOKUP_BITS; do { sym2 = r->m_tables[0].m_tree[~sym2 + ((bit_buf >> code_len++) & 1)]; } while (sym2 < 0);
             }
+            if (!code_len) { TINFL_CR_RETURN_FOREVER(100, TINFL_STATUS_FAILED); }
             counter = sym2; bit_buf >>= code_len; num_bits -= code_len;
             if (counter & 256)
               break;
-- 
2.43.0


From 5afeb335ea76af4e82a4aabd3b7723730a0f1e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:18 +0000
Subject: [PATCH 160/226] fix: Zvfs.truncate of a damaged archive could grow it
 to gigabytes

---
 src/jsiZvfs.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/jsiZvfs.c b/src/jsiZvfs.c
index 1178ad6..d201cac 100644
--- a/src/jsiZvfs.c
+++ b/src/jsiZvfs.c
@@ -338,6 +338,8 @@ static Jsi_RC ZvfsReadTOCStart(
         lenName = INT16(zBuf,28);
         lenExtra = INT16(zBuf,30) + INT16(zBuf,32);
         iData = INT32(zBuf,42);
+        if (iData<0)
+            return Jsi_LogError("ill-formed central directory entry");
         if (iData<zipStart) {
             zipStart = iData;
         }
-- 
2.43.0


From e78a59871a90a8765f21cdea9a25f41156fada91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:51 +0000
Subject: [PATCH 161/226] fix: Info.error() gave line 0 for every error that
 was caught

---
 src/jsiUtils.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/jsiUtils.c b/src/jsiUtils.c
index 9b3aa80..99f3897 100644
--- a/src/jsiUtils.c
+++ b/src/jsiUtils.c
@@ -216,6 +216,7 @@ Jsi_RC Jsi_LogMsg(Jsi_Interp *interp, Jsi_PkgOpts* popts, uint code, const char
                 
                 vsnprintf(interp->errMsgBuf, sizeof(interp->errMsgBuf), format, va);
                 //interp->errMsgBuf[sizeof(interp->errMsgBuf)-1] = 0;
+                jsi_GetLineOfs(interp, fp, &line, &lofs, &curFile);
                 interp->errFile =  curFile;
                 interp->errLine = line;
                 emsg = interp->errMsgBuf;
-- 
2.43.0


From 342091218005ad9d0fe1a9aed6429debf522be92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:12 +0000
Subject: [PATCH 162/226] fix: update(ms) returned up to a second early when
 the second of the clock changed

---
 src/jsiCmds.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiCmds.c b/src/jsiCmds.c
index 8cc96cc..94645a9 100644
--- a/src/jsiCmds.c
+++ b/src/jsiCmds.c
@@ -424,7 +424,7 @@ static Jsi_RC SysUpdateCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this
         if (cur_sec == start_sec)
             diftime = (long long)(cur_ms-start_ms);
         else
-            diftime = (cur_sec-start_sec)*1000LL + cur_ms + (1000-start_ms);
+            diftime = (cur_sec-start_sec)*1000LL + cur_ms - start_ms;
         if (udata.minTime>0 && diftime >= (long long)udata.minTime)
             break;
         if (udata.maxPasses && ++lcnt >= udata.maxPasses)
-- 
2.43.0


From 081287bb34db51645dee3ed8574008d6dd12dbec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:12 +0000
Subject: [PATCH 163/226] fix: a timer due at a full second of the clock was
 called at once

---
 src/jsiCmds.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/jsiCmds.c b/src/jsiCmds.c
index 94645a9..e54d2bf 100644
--- a/src/jsiCmds.c
+++ b/src/jsiCmds.c
@@ -269,10 +269,8 @@ int Jsi_EventProcess(Jsi_Interp *interp, int maxEvents)
 #endif
             break;
         case JSI_EVENT_TIMER:
-            if (cur_sec <= evPtr->when_sec && (cur_sec != evPtr->when_sec || cur_ms < evPtr-> when_ms)) {
-                if (evPtr->when_sec && evPtr->when_ms)
-                    continue;
-            }
+            if (cur_sec <= evPtr->when_sec && (cur_sec != evPtr->when_sec || cur_ms < evPtr-> when_ms))
+                continue;
             cnt++;
             evPtr->count++;
             break;
-- 
2.43.0


From 634fa998e937bf279c17ac02307c9fe5ea1e7536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:12 +0000
Subject: [PATCH 164/226] fix: the option maxEvents of update had no effect

---
 src/jsiCmds.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/jsiCmds.c b/src/jsiCmds.c
index e54d2bf..61e01fc 100644
--- a/src/jsiCmds.c
+++ b/src/jsiCmds.c
@@ -383,7 +383,7 @@ A positive mintime will result in sleeps between event checks.")
 static Jsi_RC SysUpdateCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
     Jsi_Value **ret, Jsi_Func *funcPtr)
 {
-    int maxEvents = -1, hasopts = 0;
+    int hasopts = 0;
     int cnt = 0, lcnt = 0;
     Jsi_RC rc = JSI_OK;
     Jsi_Value *opts = Jsi_ValueArrayIndex(interp, args, 0);
@@ -392,6 +392,7 @@ static Jsi_RC SysUpdateCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this
     jsiGetTime(&start_sec, &start_ms);
     jsiUpdateData udata = {};
     udata.sleep = 1;
+    udata.maxEvents = -1;
        
     if (opts != NULL) {
         Jsi_Number dms = 0;
@@ -410,12 +411,14 @@ static Jsi_RC SysUpdateCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this
         long long diftime;
         if (!interp->EventHdlId && (interp->interpStrEvents || Jsi_DSLength(&interp->interpEvalQ)))
             jsi_AddEventHandler(interp); 
-        int ne = Jsi_EventProcess(interp, maxEvents);
+        int ne = Jsi_EventProcess(interp, (udata.maxEvents<0?-1:udata.maxEvents-cnt));
         if (ne<0)
             break;
         cnt += ne;
         if (Jsi_InterpGone(interp))
             return JSI_ERROR;
+        if (udata.maxEvents>=0 && cnt>=udata.maxEvents)
+            break;
         if (udata.minTime==0)
             break;
         jsiGetTime(&cur_sec, &cur_ms);
-- 
2.43.0


From cba2a9be514e008ac3ae93190ce418fe04809892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:12 +0000
Subject: [PATCH 165/226] fix: an event cleared by its own callback, or by that
 of another, was used after it was freed

---
 src/jsiCmds.c | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/src/jsiCmds.c b/src/jsiCmds.c
index 61e01fc..a544fdd 100644
--- a/src/jsiCmds.c
+++ b/src/jsiCmds.c
@@ -242,7 +242,9 @@ int Jsi_EventProcess(Jsi_Interp *interp, int maxEvents)
     Jsi_Event *evPtr;
     Jsi_HashEntry *hPtr;
     Jsi_HashSearch search;
-    Jsi_Value* nret = NULL;
+    Jsi_Value* nret = NULL, *funcVal;
+    uintptr_t id, *ids;
+    uint i, num = 0;
     Jsi_RC rc;
     int cnt = 0, newIdx = interp->eventIdx;
     long cur_sec, cur_ms;
@@ -252,10 +254,16 @@ int Jsi_EventProcess(Jsi_Interp *interp, int maxEvents)
     /*if (Jsi_MutexLock(interp, interp->Mutex) != JSI_OK)
         return JSI_ERROR;*/
 
+    /* Handlers may add or delete any event, so the table can not be searched while calling them. */
+    ids = (uintptr_t*)Jsi_Calloc(Jsi_HashSize(interp->eventTbl)+1, sizeof(*ids));
     for (hPtr = Jsi_HashSearchFirst(interp->eventTbl, &search);
-            hPtr != NULL; hPtr = Jsi_HashSearchNext(&search)) {
+            hPtr != NULL; hPtr = Jsi_HashSearchNext(&search))
+        ids[num++] = (uintptr_t)Jsi_HashKeyGet(hPtr);
 
-        if (!(evPtr = (Jsi_Event*)Jsi_HashValueGet(hPtr)))
+    for (i=0; i<num; i++) {
+        id = ids[i];
+        hPtr = Jsi_HashEntryFind(interp->eventTbl, (void*)id);
+        if (!hPtr || !(evPtr = (Jsi_Event*)Jsi_HashValueGet(hPtr)))
             continue;
         SIGASSERT(evPtr,EVENT);
         if ((int)evPtr->id > newIdx) /* Avoid infinite loop of event creating events. */
@@ -291,9 +299,11 @@ int Jsi_EventProcess(Jsi_Interp *interp, int maxEvents)
             }
             if (!nret)
                 nret = Jsi_ValueNew1(interp);
-            rc = Jsi_FunctionInvoke(interp, evPtr->funcVal, vpargs, &nret, NULL);
+            funcVal = evPtr->funcVal;
+            Jsi_IncrRefCount(interp, funcVal);
+            rc = Jsi_FunctionInvoke(interp, funcVal, vpargs, &nret, NULL);
+            Jsi_DecrRefCount(interp, funcVal);
         }
-        evPtr->busy = 0;
         if (interp->deleting) {
             cnt = -1;
             goto bail;
@@ -305,7 +315,13 @@ int Jsi_EventProcess(Jsi_Interp *interp, int maxEvents)
             }
             Jsi_LogError("event function call failure");
         }
-        if (evPtr->once) {
+        hPtr = Jsi_HashEntryFind(interp->eventTbl, (void*)id);
+        if (!hPtr || !(evPtr = (Jsi_Event*)Jsi_HashValueGet(hPtr))) // It was cleared by the handler.
+            evPtr = NULL;
+        else
+            evPtr->busy = 0;
+        if (!evPtr) {
+        } else if (evPtr->once) {
             Jsi_EventFree(interp, evPtr);
         } else {
             evPtr->when_sec = cur_sec + evPtr->initialms / 1000;
@@ -319,6 +335,7 @@ int Jsi_EventProcess(Jsi_Interp *interp, int maxEvents)
             break;
     }
 bail:
+    Jsi_Free(ids);
     if (vpargs)
         Jsi_DecrRefCount(interp, vpargs);
     if (nret)
-- 
2.43.0


From e91318e06d7b7be440c8589370d3c62d558a1187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:12 +0000
Subject: [PATCH 166/226] fix: update counted events that were not called, and
 not those of signals

---
 src/jsiCmds.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/jsiCmds.c b/src/jsiCmds.c
index a544fdd..b92bca2 100644
--- a/src/jsiCmds.c
+++ b/src/jsiCmds.c
@@ -268,6 +268,8 @@ int Jsi_EventProcess(Jsi_Interp *interp, int maxEvents)
         SIGASSERT(evPtr,EVENT);
         if ((int)evPtr->id > newIdx) /* Avoid infinite loop of event creating events. */
             continue;
+        if (evPtr->busy)
+            continue;
         switch (evPtr->evType) {
         case JSI_EVENT_SIGNAL:
 #ifndef JSI_OMIT_SIGNAL   /* TODO: win signals? */
@@ -275,6 +277,8 @@ int Jsi_EventProcess(Jsi_Interp *interp, int maxEvents)
                 continue;
             jsi_SignalClear(interp, evPtr->sigNum);
 #endif
+            cnt++;
+            evPtr->count++;
             break;
         case JSI_EVENT_TIMER:
             if (cur_sec <= evPtr->when_sec && (cur_sec != evPtr->when_sec || cur_ms < evPtr-> when_ms))
@@ -287,8 +291,6 @@ int Jsi_EventProcess(Jsi_Interp *interp, int maxEvents)
         default:
             assert(0);
         }
-        if (evPtr->busy)
-            continue;
         evPtr->busy = 1;
         if (evPtr->handler) {
             rc = evPtr->handler(interp, evPtr->data);
-- 
2.43.0


From d90b5133696095d03e5d260ff51884c5d2e8db9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:48 +0000
Subject: [PATCH 167/226] fix: matchObj() looked for its 4th argument when
 given a 3rd

---
 src/jsiCmds.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jsiCmds.c b/src/jsiCmds.c
index b92bca2..76c718a 100644
--- a/src/jsiCmds.c
+++ b/src/jsiCmds.c
@@ -4086,7 +4086,7 @@ static Jsi_RC SysMatchObjCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_th
     Jsi_Value **ret, Jsi_Func *funcPtr)
 {
     char *sp, *cp, *cs, *ss, *ce, *cc;
-    bool ok = 1, partial=0, noerror;
+    bool ok = 1, partial=0, noerror=0;
     Jsi_Value *arg1 = Jsi_ValueArrayIndex(interp, args, 0);
     if (!arg1 || !Jsi_ValueIsObjType(interp, arg1, JSI_OT_OBJECT))
         return Jsi_LogError("arg 1: exected object");
@@ -4113,7 +4113,7 @@ static Jsi_RC SysMatchObjCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_th
         rc = Jsi_LogError("expected bool 'partial'");
         goto done;
     }
-    if (arg3 && Jsi_GetBoolFromValue(interp, arg4, &noerror) != JSI_OK) {
+    if (arg4 && Jsi_GetBoolFromValue(interp, arg4, &noerror) != JSI_OK) {
         rc = Jsi_LogError("expected bool 'noerror'");
         goto done;
     }
-- 
2.43.0


From 968bf6aff326933926f164c5bfd218fa60882d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:48 +0000
Subject: [PATCH 168/226] fix: matchObj() read past the end of a type string
 with a space at its end

---
 src/jsiCmds.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiCmds.c b/src/jsiCmds.c
index 76c718a..d06d98f 100644
--- a/src/jsiCmds.c
+++ b/src/jsiCmds.c
@@ -4124,7 +4124,7 @@ static Jsi_RC SysMatchObjCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_th
         char *tp = Jsi_DSValue(&sStr), *ep = tp;
         while (*tp) {
             while (isspace(*tp)) tp++;
-            *ep++ = *tp++;
+            if (*tp) *ep++ = *tp++;
         }
         *ep = 0;
         sp = Jsi_DSValue(&sStr);
-- 
2.43.0


From e0a56862641cbdc5bab31f942da657a4fcc5def6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:30 +0000
Subject: [PATCH 169/226] fix: moduleRun() with a function took its arguments
 for a version

---
 src/jsiCmds.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiCmds.c b/src/jsiCmds.c
index d06d98f..1b0e2b8 100644
--- a/src/jsiCmds.c
+++ b/src/jsiCmds.c
@@ -1155,7 +1155,7 @@ pkg:
     if (!name) 
         rc = Jsi_LogError("invalid or missing package name");
     else {
-        Jsi_Value *v = Jsi_ValueArrayIndex(interp, args, 1);
+        Jsi_Value *v = (isInt ? NULL : Jsi_ValueArrayIndex(interp, args, 1)); // moduleRun(): arg 2 is "args".
         if (v && jsi_GetVerFromVal(interp, v, &n, 1) != JSI_OK)
             return JSI_ERROR;
         if (rc == JSI_OK) {
-- 
2.43.0


From 4812f84cb7f77fe188a1bbd1a9b786fa1f470c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:32 +0000
Subject: [PATCH 170/226] fix: module() with a name failed with "unknown
 command"

---
 src/jsiCmds.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/jsiCmds.c b/src/jsiCmds.c
index 1b0e2b8..a32f140 100644
--- a/src/jsiCmds.c
+++ b/src/jsiCmds.c
@@ -4709,7 +4709,8 @@ static Jsi_RC SysModuleCmd_(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_thi
        if (!isrun || Jsi_ValueIsObjType(interp, v1, JSI_OT_FUNCTION)) {
             if (/*!interp->framePtr->Sp &&*/ SysProvideCmdInt(interp, args, _this, ret, funcPtr, (isrun?1:0)) != JSI_OK)
                 return JSI_ERROR;
-            cmd = v1;
+            if (!Jsi_ValueIsString(interp, v1))
+                cmd = v1;
         }
     }
     if (!v2 && isMain)
-- 
2.43.0


From b8ea192349679c631f647c2c8055cbdade3b17ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:32 +0000
Subject: [PATCH 171/226] fix: Util.verConvert() with zeroTrim dropped a patch
 number after a zero

---
 src/jsiCmds.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/jsiCmds.c b/src/jsiCmds.c
index a32f140..c2281d5 100644
--- a/src/jsiCmds.c
+++ b/src/jsiCmds.c
@@ -4041,8 +4041,9 @@ static Jsi_RC SysVerConvertCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_
         if (trunc) {
             int len = Jsi_Strlen(buf)-1;
             while (trunc>0 && len>1) {
-                if (buf[len] == '0' && buf[len-1] == '.')
-                    buf[len-1] = 0;
+                if (buf[len] != '0' || buf[len-1] != '.')
+                    break;
+                buf[len-1] = 0;
                 len -= 2;
                 trunc--;
             }
-- 
2.43.0


From 7f069d89de926d5cb472eb24659b623cb5ecb21c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:24 +0000
Subject: [PATCH 172/226] fix: values on the stack of code left by an error
 were lost, and never freed

---
 src/jsiEval.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/jsiEval.c b/src/jsiEval.c
index bd5c8bb..b3a4595 100644
--- a/src/jsiEval.c
+++ b/src/jsiEval.c
@@ -2317,6 +2317,8 @@ Jsi_RC jsi_evalcode(jsi_Pstate *ps, Jsi_Func *func, Jsi_OpCodes *opcodes,
     Jsi_IncrRefCount(interp, fargs);
     rc = jsiEvalCodeSub(ps, opcodes, scope, fargs, _this, *vret);
     Jsi_DecrRefCount(interp, fargs);
+    if (rc != JSI_OK && !interp->exited && frame.Sp > frame.parent->Sp)
+        jsiPop(interp, frame.Sp - frame.parent->Sp);
     if (interp->didReturn == 0 && !interp->exited && rc == JSI_OK) {
         if ((interp->evalFlags&JSI_EVAL_RETURN)==0)
             Jsi_ValueMakeUndef(interp, vret);
-- 
2.43.0


From f50a70e2ce16ad11f3b93769e4c092632f62271c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:31 +0000
Subject: [PATCH 173/226] fix: File.glob() with dirFilter leaked the path given
 to it

---
 src/jsiFileCmds.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/jsiFileCmds.c b/src/jsiFileCmds.c
index bde8ec3..af28ee7 100644
--- a/src/jsiFileCmds.c
+++ b/src/jsiFileCmds.c
@@ -1035,19 +1035,25 @@ static Jsi_RC SubGlobsDirectory(Jsi_Interp *interp, Jsi_Obj* obj, Jsi_Value *reg
                 Jsi_DString sStr = {};
                 Jsi_DSAppend(&sStr, spath, (spath[0]?"/":""),  z, NULL);
                 if (opts->dirFilter && Jsi_ValueIsFunction(interp, opts->dirFilter)) {
-                    bres=Jsi_FunctionInvokeBool(interp, opts->dirFilter,
-                        Jsi_ValueNewStringDup(interp, Jsi_DSValue(&sStr)), _this);
+                    Jsi_Value *dv = Jsi_ValueNewStringDup(interp, Jsi_DSValue(&sStr));
+                    Jsi_IncrRefCount(interp, dv);
+                    bres=Jsi_FunctionInvokeBool(interp, opts->dirFilter, dv, _this);
                     if (Jsi_InterpGone(interp)) {
+                        Jsi_DSFree(&sStr);
                         rc = JSI_ERROR;
                         goto done;
                     }
-                    if (!bres)
+                    Jsi_DecrRefCount(interp, dv);
+                    if (!bres) {
+                        Jsi_DSFree(&sStr);
                         continue;
-                    else if (bres!=0 && bres!=1)
+                    } else if (bres!=0 && bres!=1)
                         rc = JSI_ERROR;
                 }
-                if (opts->types && Jsi_Strchr(opts->types, 'd'))
+                if (opts->types && Jsi_Strchr(opts->types, 'd')) {
+                    Jsi_DSFree(&sStr);
                     goto dumpit;
+                }
                 zz = Jsi_DSValue(&sStr);
                 rc = SubGlobsDirectory(interp, obj, reg, zPattern, zz, opts, deep+1, cnt+1, _this);
                 Jsi_DSFree(&sStr);
-- 
2.43.0


From fe0749cf3715bbd1bbcad2ba7484b5b09826211b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:02 +0000
Subject: [PATCH 174/226] fix: JSON.stringify() leaked its output when refused

---
 src/jsiJSON.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/jsiJSON.c b/src/jsiJSON.c
index c7380ab..6d9b99c 100644
--- a/src/jsiJSON.c
+++ b/src/jsiJSON.c
@@ -487,8 +487,10 @@ static Jsi_RC JSONStringifyCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_
     if (fmt) quote|=JSI_JSON_FORMAT;
     Jsi_DString dStr = {};
     Jsi_Value *arg = Jsi_ValueArrayIndex(interp, args, 0);
-    if (!jsiValueGetDString(interp, arg, &dStr, quote, indent))
+    if (!jsiValueGetDString(interp, arg, &dStr, quote, indent)) {
+        Jsi_DSFree(&dStr);
         return JSI_ERROR;
+    }
     Jsi_ValueFromDS(interp, &dStr, ret);
     return JSI_OK;
 }
-- 
2.43.0


From cde2e5827a0fa2c21018a121b352a990a3ed2de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:02 +0000
Subject: [PATCH 175/226] fix: File.tempfile() leaked the name it was refused

---
 src/jsiFileCmds.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiFileCmds.c b/src/jsiFileCmds.c
index af28ee7..ab3e129 100644
--- a/src/jsiFileCmds.c
+++ b/src/jsiFileCmds.c
@@ -324,7 +324,6 @@ static Jsi_RC FileTempfileCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_t
     if (vt && (tp = Jsi_ValueString(interp, vt, NULL))) {
         templ = tp;
     }
-    filename = Jsi_Strdup(templ);
     if (Jsi_InterpSafe(interp)) {
         Jsi_Value *fname = Jsi_ValueNewStringConst(interp, templ, -1);
         Jsi_IncrRefCount(interp, fname);
@@ -333,6 +332,7 @@ static Jsi_RC FileTempfileCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_t
         if (rc != JSI_OK)
             return rc;
     }
+    filename = Jsi_Strdup(templ);
     int fd = mkstemp(filename);
     if (fd < 0)
         goto fail;
-- 
2.43.0


From 270c484b1f25991bdaead7b977b38805ec0e836d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:17 +0000
Subject: [PATCH 176/226] fix: code of the cases of a switch was not freed
 after a syntax error

---
 src/jsiCode.c | 10 +++++++++-
 src/parser.y  |  2 +-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/jsiCode.c b/src/jsiCode.c
index b20a9db..eac2e27 100644
--- a/src/jsiCode.c
+++ b/src/jsiCode.c
@@ -567,12 +567,20 @@ static jsi_CaseList *caselist_insert(jsi_Pstate *pstate, jsi_CaseList *a, jsi_Ca
     return a;
 }
 
+static void exprstat_free(jsi_CaseExprStat *es)
+{
+    if (!es) return;
+    jsi_FreeOpcodes(es->expr);
+    jsi_FreeOpcodes(es->stat);
+    Jsi_Free(es);
+}
+
 static void caselist_free(jsi_CaseList *c)
 {
     jsi_CaseList *a = c;
     while (a) {
         a = c->next;
-        if (c->es) Jsi_Free(c->es);
+        exprstat_free(c->es);
         Jsi_Free(c);
         c = a;
     }
diff --git a/src/parser.y b/src/parser.y
index 3ca6e7c..a04c4b3 100644
--- a/src/parser.y
+++ b/src/parser.y
@@ -33,7 +33,7 @@
 %destructor { Jsi_Free($$); } <num>
 %destructor { jsi_ScopeStrsFree(pstate->interp, $$); } <scopes>
 %destructor { jsi_FreeOpcodes($$); } <opcodes>
-%destructor { Jsi_Free($$); } <caseitem>
+%destructor { exprstat_free($$); } <caseitem>
 %destructor { caselist_free($$);} <caselist>
 //%destructor { Jsi_RegExpFree($$); } <regex>
 /*
-- 
2.43.0


From ba0357206092783b5b1b748ebe5a5995c16cdc85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:07 +0000
Subject: [PATCH 177/226] fix: Sqlite leaked a database that could not be
 opened

---
 src/jsiSqlite.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/jsiSqlite.c b/src/jsiSqlite.c
index 0aff86b..ce2123b 100644
--- a/src/jsiSqlite.c
+++ b/src/jsiSqlite.c
@@ -3871,6 +3871,8 @@ static Jsi_RC SqliteConstructor(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *
     
 bail:
     if (rc != JSI_OK) {
+        if (db->db)
+            DbClose(db->db);
         if (db->hasOpts)
             Jsi_OptionsFree(interp, SqlOptions, db, 0);
         db->_->activeCnt--;
-- 
2.43.0


From c7c9695ca91fd901c1849854e8e7eb4eee8fe920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:07 +0000
Subject: [PATCH 178/226] fix: a refused Interp.call() leaked its arguments and
 left the queue locked

---
 src/jsiInterp.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/jsiInterp.c b/src/jsiInterp.c
index c3d44ad..cc068db 100644
--- a/src/jsiInterp.c
+++ b/src/jsiInterp.c
@@ -2522,8 +2522,10 @@ static Jsi_RC InterpCallCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_thi
         Jsi_DString dStr = {};
         if (cp == NULL)
             cp = (char*)Jsi_ValueGetDString(interp, arg, &dStr, JSI_OUTPUT_JSON);
-        if (!cp)
+        if (!cp) {
+            Jsi_DSFree(&dStr);
             return JSI_ERROR;
+        }
         if (interp->subOpts.mutexUnlock) Jsi_MutexUnlock(interp, interp->Mutex);
         if (Jsi_MutexLock(interp, sinterp->Mutex) != JSI_OK) {
             if (interp->subOpts.mutexUnlock) Jsi_MutexLock(interp, interp->Mutex);
@@ -2556,7 +2558,9 @@ static Jsi_RC InterpCallCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_thi
     Jsi_DSInit(&s->data);
     if (!cp) {
         if (!Jsi_ValueGetDString(interp, arg, &s->data, JSI_OUTPUT_JSON)) {
+            Jsi_DSFree(&s->data);
             Jsi_Free(s);
+            Jsi_MutexUnlock(interp, sinterp->QMutex);
             return JSI_ERROR;
         }
     } else {
-- 
2.43.0


From e649e47c964fcea63507ba6e40414156ab69ace5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:27 +0000
Subject: [PATCH 179/226] fix: a refused call of an alias leaked its arguments
 and left the queue locked

---
 src/jsiInterp.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/jsiInterp.c b/src/jsiInterp.c
index cc068db..4a9add4 100644
--- a/src/jsiInterp.c
+++ b/src/jsiInterp.c
@@ -294,8 +294,10 @@ Jsi_RC jsi_AliasInvoke(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
      else if (argc) {
         if (dinterp == interp)
             Jsi_ValueCopy(interp, nrPtr, args);
-        else if (Jsi_CleanValue(interp, dinterp, args, &nrPtr) != JSI_OK)
+        else if (Jsi_CleanValue(interp, dinterp, args, &nrPtr) != JSI_OK) {
+            Jsi_DecrRefCount(dinterp, nrPtr);
             return JSI_ERROR;
+        }
         if (ac->args && Jsi_ValueGetLength(dinterp, ac->args)) {
             nargs = Jsi_ValueArrayConcat(dinterp, ac->args, nrPtr);
             Jsi_IncrRefCount(dinterp, nargs);
@@ -315,7 +317,12 @@ Jsi_RC jsi_AliasInvoke(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
         // TODO: is s->data inited?
         Jsi_DSInit(&s->data);
         if (!Jsi_ValueGetDString(interp, nargs, &s->data, JSI_OUTPUT_JSON)) {
+            Jsi_DSFree(&s->data);
             Jsi_Free(s);
+            if (inc)
+                Jsi_DecrRefCount(dinterp, nargs);
+            Jsi_DecrRefCount(dinterp, nrPtr);
+            Jsi_MutexUnlock(interp, dinterp->QMutex);
             return JSI_ERROR;
         }
         if (inc)
-- 
2.43.0


From 43b6c9b1734e18ed5bb62316f19e714edd7cef07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:32 +0000
Subject: [PATCH 180/226] fix: String.replace() and File.glob() leaked when the
 interp ended in their callback

---
 src/jsiFileCmds.c | 2 ++
 src/jsiString.c   | 8 +-------
 2 files changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/jsiFileCmds.c b/src/jsiFileCmds.c
index ab3e129..d65c9be 100644
--- a/src/jsiFileCmds.c
+++ b/src/jsiFileCmds.c
@@ -1039,6 +1039,7 @@ static Jsi_RC SubGlobsDirectory(Jsi_Interp *interp, Jsi_Obj* obj, Jsi_Value *reg
                     Jsi_IncrRefCount(interp, dv);
                     bres=Jsi_FunctionInvokeBool(interp, opts->dirFilter, dv, _this);
                     if (Jsi_InterpGone(interp)) {
+                        Jsi_DecrRefCount(interp, dv);
                         Jsi_DSFree(&sStr);
                         rc = JSI_ERROR;
                         goto done;
@@ -1123,6 +1124,7 @@ static Jsi_RC SubGlobsDirectory(Jsi_Interp *interp, Jsi_Obj* obj, Jsi_Value *reg
             Jsi_IncrRefCount(interp, nval);
             bres=Jsi_FunctionInvokeBool(interp, opts->filter, nval, _this);
             if (Jsi_InterpGone(interp)) {
+                Jsi_DecrRefCount(interp, nval);
                 rc = JSI_ERROR;
                 goto done;
             }
diff --git a/src/jsiString.c b/src/jsiString.c
index 79492c3..161ace8 100644
--- a/src/jsiString.c
+++ b/src/jsiString.c
@@ -704,8 +704,6 @@ static Jsi_RC StringReplaceCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_
                 vpargs = Jsi_ValueMakeObject(interp, NULL, Jsi_ObjNewArray(interp, items, icnt, 0));
                 Jsi_IncrRefCount(interp, vpargs);
                 Jsi_RC rc = Jsi_FunctionInvoke(interp, repVal, vpargs, &ret, _this);
-                if (Jsi_InterpGone(interp))
-                    return JSI_ERROR;
                 Jsi_DecrRefCount(interp, vpargs);
                 if (rc == JSI_OK)
                     Jsi_DSAppend(&dStr, Jsi_ValueToString(interp, ret, NULL), NULL);
@@ -804,9 +802,7 @@ static Jsi_RC StringReplaceCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_
             Jsi_IncrRefCount(interp, inStr);
             if (maxArgs==1) {
                 Jsi_RC rc = Jsi_FunctionInvokeString(interp, repVal, inStr, &dStr, _this);
-                if (Jsi_InterpGone(interp))
-                    return JSI_ERROR;
-                if (rc != JSI_OK) {
+                if (rc != JSI_OK || Jsi_InterpGone(interp)) {
                     Jsi_DSFree(&dStr);
                     Jsi_DecrRefCount(interp, inStr);
                     return JSI_ERROR;
@@ -829,8 +825,6 @@ static Jsi_RC StringReplaceCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_
                 Jsi_IncrRefCount(interp, vpargs);
                 ret = Jsi_ValueNew1(interp);
                 rc = Jsi_FunctionInvoke(interp, repVal, vpargs, &ret, _this);
-                if (Jsi_InterpGone(interp))
-                    return JSI_ERROR;
                 Jsi_DecrRefCount(interp, vpargs);
                 if (rc == JSI_OK)
                     Jsi_DSAppend(&dStr, Jsi_ValueToString(interp, ret, NULL), NULL);
-- 
2.43.0


From 588f85307ce13e7e1ae628b8de84ab9de8994aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:43 +0000
Subject: [PATCH 181/226] fix: toString() and Object.keys() leaked when refused

---
 src/jsiProto.c | 4 +++-
 src/jsiValue.c | 2 ++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/jsiProto.c b/src/jsiProto.c
index af639ea..2e3ad2b 100644
--- a/src/jsiProto.c
+++ b/src/jsiProto.c
@@ -436,8 +436,10 @@ Jsi_RC jsi_ObjectToStringCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_th
     }    
     int quote = JSI_OUTPUT_QUOTE;
     Jsi_DString dStr = {};
-    if (!Jsi_ValueGetDString(interp, _this, &dStr, quote))
+    if (!Jsi_ValueGetDString(interp, _this, &dStr, quote)) {
+        Jsi_DSFree(&dStr);
         return JSI_ERROR;
+    }
     Jsi_ValueMakeStringDup(interp, ret, Jsi_DSValue(&dStr));
     Jsi_DSFree(&dStr);
     return JSI_OK;
diff --git a/src/jsiValue.c b/src/jsiValue.c
index 550ca77..7fe3d57 100644
--- a/src/jsiValue.c
+++ b/src/jsiValue.c
@@ -1211,6 +1211,8 @@ Jsi_RC Jsi_ValueGetKeys(Jsi_Interp *interp, Jsi_Value *target, Jsi_Value *ret)
     Jsi_IterGetKeys(interp, target, io, 0);
     if (Jsi_ObjArraySizer(interp, r, io->count) <= 0) {
         Jsi_LogError("too long");
+        io->count = 0;
+        Jsi_IterObjFree(io);
         Jsi_ValueMakeUndef(interp, &ret);
         return JSI_ERROR;
     }
-- 
2.43.0


From 42c9434264522936e2803f4c5dced0c0d1264d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:24 +0000
Subject: [PATCH 182/226] fix: parseInt() skipped a 0b prefix in base 2 and a
 second 0x in base 16

---
 src/jsiCmds.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/jsiCmds.c b/src/jsiCmds.c
index c2281d5..8c53057 100644
--- a/src/jsiCmds.c
+++ b/src/jsiCmds.c
@@ -599,7 +599,10 @@ static Jsi_RC parseIntCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
         if (!isalnum((uchar)*str))
             goto nanval;
         errno = 0;
-        d = (Jsi_Number)strtoll(str, &eptr, base);
+        if (str[0] == '0' && ((base == 2 && tolower((uchar)str[1]) == 'b') || (base == 16 && tolower((uchar)str[1]) == 'x')))
+            eptr = str+1; // strtoll would skip another prefix.
+        else
+            d = (Jsi_Number)strtoll(str, &eptr, base);
         if (eptr == str)
             goto nanval;
         if (errno == ERANGE) {
-- 
2.43.0


From 12a5efae8afb402af981adf6aaffc37393672078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:09 +0000
Subject: [PATCH 183/226] fix: exec() with input for a command that does not
 read it killed the process

---
 src/jsiCmds.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/jsiCmds.c b/src/jsiCmds.c
index 8c53057..4af2fb3 100644
--- a/src/jsiCmds.c
+++ b/src/jsiCmds.c
@@ -1631,11 +1631,19 @@ Jsi_RC jsi_SysExecCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
         if (!fp) 
             exitCode = errno;
         else {
+#ifndef __WIN32
+            void (*osig)(int) = SIG_ERR;
+#endif
             if (edata.inputStr) {
                 edata.retCode = 1;
                 edata.retval = 0;
+#ifndef __WIN32
+                osig = signal(SIGPIPE, SIG_IGN); // The command may end without reading its input.
+#endif
+                setvbuf(fp, NULL, _IONBF, 0); // pclose() should have nothing to write.
                 cp2 = Jsi_ValueString(interp, edata.inputStr, &sLen2);
                 while ((n=fwrite(cp2, 1, sLen2, fp))>0) {
+                    cp2 += n;
                     sLen2 -= n;
                 }
             } else {
@@ -1647,6 +1655,10 @@ Jsi_RC jsi_SysExecCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
                 exitCode = ((ec=pclose(fp))>>8);
             else
                 exitCode = ((ec=jsi_pclose(fp, cpid))>>8);
+#ifndef __WIN32
+            if (osig != SIG_ERR)
+                signal(SIGPIPE, osig);
+#endif
         }
     }
     if (exitCode && edata.noError==0 && edata.retCode==0 && edata.retAll==0) {
-- 
2.43.0


From fb562c2a88c70c75975457b0766ed8aa2a678ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:09 +0000
Subject: [PATCH 184/226] fix: Util.setenv() without a value failed instead of
 giving the value

---
 src/jsiCmds.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/jsiCmds.c b/src/jsiCmds.c
index 4af2fb3..9c65137 100644
--- a/src/jsiCmds.c
+++ b/src/jsiCmds.c
@@ -1378,12 +1378,15 @@ static Jsi_RC SysSetEnvCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this
 #ifndef __WIN32
         if (fval)
             rc = setenv(fnam, fval, 1);
-        else
+        else {
             cp = getenv(fnam);
+            rc = 0;
+        }
 #else  /* TODO: win setenv */
-        if (!fval)
+        if (!fval) {
             cp = getenv(fnam);
-        else {
+            rc = 0;
+        } else {
             char ebuf[JSI_BUFSIZ];
             snprintf(ebuf, sizeof(ebuf), "%s=%s", fnam, fval);
             rc = _putenv(ebuf);
-- 
2.43.0


From ad82cbef557a70a2ae0b3eb8daea975b46f6deff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:56 +0000
Subject: [PATCH 185/226] fix: a hexadecimal literal of more than 16 digits had
 the value 2^64

---
 src/jsiLexer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiLexer.c b/src/jsiLexer.c
index 63dcd83..0b97bf5 100644
--- a/src/jsiLexer.c
+++ b/src/jsiLexer.c
@@ -471,7 +471,7 @@ static int jsi_yylex (YYSTYPE *yylvalp, YYLTYPE *yyllocp, jsi_Lexer *lex)
 
         if (word[0] == '0' && isdigit(word[1]) && base!=16)
             fval = (Jsi_Number)strtoll(word, &eptr, 8);
-        else if (base==16 && digCnt+1 == wi)
+        else if (base==16 && digCnt+1 == wi && wi <= 2+16)
             fval = (Jsi_Number)strtoull(word, &eptr, base);
         else
             fval = (Jsi_Number)strtod(word, &eptr);
-- 
2.43.0


From 36b4bc5459850eae2117c6dbbba0f68abc70f376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:08 +0000
Subject: [PATCH 186/226] fix: shifts and ~ of values outside 32 bits did not
 work modulo 2^32

---
 src/jsiEval.c  | 17 +++++++++++++----
 src/jsiValue.c |  2 +-
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/jsiEval.c b/src/jsiEval.c
index b3a4595..bd8b760 100644
--- a/src/jsiEval.c
+++ b/src/jsiEval.c
@@ -226,6 +226,15 @@ static void jsiVarDeref(Jsi_Interp* interp, int n) {
     jsiPop(interp, 1);                                          \
 }
 
+/* Number modulo 2^32 as a signed value: the operand of a shift or ~. */
+static int jsi_Int32(Jsi_Number n)
+{
+    if (!isfinite(n)) return 0;
+    n = fmod(trunc(n), 4294967296.0);
+    if (n < 0) n += 4294967296.0;
+    return (int)(unsigned int)n;
+}
+
 #define common_bitwise_opr(opr) {                       \
     Jsi_UWide a, b;                                       \
     jsiVarDeref(interp,2);                                     \
@@ -1493,7 +1502,7 @@ Jsi_RC jsiEvalCodeSub(jsi_Pstate *ps, Jsi_OpCodes *opcodes,
                 jsiVarDeref(interp,1);
                 jsi_ValueToOInt32(interp, _jsi_TOP);
                 rc = _jsi_StrictChk(_jsi_TOP);
-                _jsi_TOP->d.num = (Jsi_Number)(~((int)_jsi_TOP->d.num));
+                _jsi_TOP->d.num = (Jsi_Number)(~jsi_Int32(_jsi_TOP->d.num));
                 break;
             }
             case OP_ADD: {
@@ -1665,8 +1674,8 @@ Jsi_RC jsiEvalCodeSub(jsi_Pstate *ps, Jsi_OpCodes *opcodes,
                 jsiVarDeref(interp,2);
                 jsi_ValueToOInt32(interp, _jsi_TOQ);
                 jsi_ValueToOInt32(interp, _jsi_TOP);
-                int t1 = (int)_jsi_TOQ->d.num;
-                int t2 = ((unsigned int)_jsi_TOP->d.num) & 0x1f;
+                int t1 = jsi_Int32(_jsi_TOQ->d.num);
+                int t2 = jsi_Int32(_jsi_TOP->d.num) & 0x1f;
                 if (ip->data) {                 /* shift right */
                     if ((uintptr_t)ip->data == 2) {   /* unsigned shift */
                         unsigned int t3 = (unsigned int)t1;
@@ -1677,7 +1686,7 @@ Jsi_RC jsiEvalCodeSub(jsi_Pstate *ps, Jsi_OpCodes *opcodes,
                         Jsi_ValueMakeNumber(interp, &_jsi_TOQ, t1);
                     }
                 } else {
-                    t1 <<= t2;
+                    t1 = (int)((unsigned int)t1 << t2);
                     Jsi_ValueMakeNumber(interp, &_jsi_TOQ, t1);
                 }
                 jsiPop(interp,1);
diff --git a/src/jsiValue.c b/src/jsiValue.c
index 7fe3d57..bd65b40 100644
--- a/src/jsiValue.c
+++ b/src/jsiValue.c
@@ -625,7 +625,7 @@ donum:
             return Jsi_LogError("Convert a unknown type: 0x%x to number", v->vt);
     }
     if (isInt && Jsi_NumberIsNormal(a))
-        a = (Jsi_Number)((int64_t)(a));
+        a = trunc(a) + 0.0;
     *nPtr = a;
     return JSI_OK;
 }
-- 
2.43.0


From 10ebe754287a7dcf9e4385a28895e357aec28175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:53 +0000
Subject: [PATCH 187/226] fix: exec() with bg of a command that ends in & ran
 nothing

---
 src/jsiCmds.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiCmds.c b/src/jsiCmds.c
index 9c65137..8bb2066 100644
--- a/src/jsiCmds.c
+++ b/src/jsiCmds.c
@@ -1593,7 +1593,7 @@ Jsi_RC jsi_SysExecCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
             goto done;        
         }
     }
-    if (edata.bg || (isbg=((sLen>1 && cp[sLen-1] == '&')))) {
+    if ((isbg=((sLen>1 && cp[sLen-1] == '&'))) || edata.bg) {
         if (edata.inputStr) {
             rc = Jsi_LogError("input string may not used with bg");
             goto done;
-- 
2.43.0


From 292aa0beab094db9780d6814f34bdbe3b00f4a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:40 +0000
Subject: [PATCH 188/226] fix: Info.data() listed the functions too

---
 src/jsiCmds.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/jsiCmds.c b/src/jsiCmds.c
index 8bb2066..344cd00 100644
--- a/src/jsiCmds.c
+++ b/src/jsiCmds.c
@@ -2505,8 +2505,14 @@ dumpobj:
     for (hPtr = Jsi_HashSearchFirst(interp->varTbl, &search);
         hPtr != NULL; hPtr = Jsi_HashSearchNext(&search)) {
         key = (char*)Jsi_HashKeyGet(hPtr);
-        if (!isfunc)
+        if (!isfunc) {
+            if (Jsi_HashValueGet(hPtr))
+                continue;
+            val = Jsi_VarLookup(interp, key);
+            if (val && Jsi_ValueIsFunction(interp, val))
+                continue;
             goto doreg;
+        }
         if (!(fobj = (Jsi_Obj*)Jsi_HashValueGet(hPtr)))
             continue;
         if (isfunc && name && isreg==0 && isglob==0) {
-- 
2.43.0


From 798a3a7eb6497cc72c62685c80f506866bb41554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:40 +0000
Subject: [PATCH 189/226] fix: the locals of Info.funcs() were the names of the
 arguments

---
 src/jsiCmds.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/jsiCmds.c b/src/jsiCmds.c
index 344cd00..a40322a 100644
--- a/src/jsiCmds.c
+++ b/src/jsiCmds.c
@@ -2551,8 +2551,9 @@ dumpfunc:
     Jsi_ValueMakeObject(interp, ret, nobj);
     func = fo->func;
     sstrs = func->argnames;
-    int sscnt = (sstrs?sstrs->count:0);
-    const char *strs[sscnt+1];
+    Jsi_ScopeStrs *lstrs = func->localnames;
+    int sscnt = (sstrs?sstrs->count:0), lscnt = (lstrs?lstrs->count:0);
+    const char *strs[(sscnt>lscnt?sscnt:lscnt)+1];
     int i;
     for (i=0; i<sscnt; i++)
         strs[i] = sstrs->args[i].name;
@@ -2560,8 +2561,9 @@ dumpfunc:
     Jsi_DSInit(&dStr);
     Jsi_Value *aval = Jsi_ValueNewArray(interp, strs, sscnt);
     Jsi_ObjInsert(interp, nobj, "argList", aval, 0);
-    sstrs = func->localnames;
-    Jsi_Value *lval = Jsi_ValueNewArray(interp, strs, sscnt);
+    for (i=0; i<lscnt; i++)
+        strs[i] = lstrs->args[i].name;
+    Jsi_Value *lval = Jsi_ValueNewArray(interp, strs, lscnt);
     Jsi_ObjInsert(interp, nobj, "locals", lval, 0);
     jsi_FuncArgsToString(interp, func, &dStr, 1);
     lval = Jsi_ValueNewStringDup(interp, Jsi_DSValue(&dStr));
-- 
2.43.0


From 93cfce60c48057702bb443f6f4545e70d59aada8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:40 +0000
Subject: [PATCH 190/226] fix: Info.keywords() did not know the SQL keywords
 with an underscore

---
 src/jsiCmds.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiCmds.c b/src/jsiCmds.c
index a40322a..9658095 100644
--- a/src/jsiCmds.c
+++ b/src/jsiCmds.c
@@ -2741,7 +2741,7 @@ static int jsi_SqlIsKeyword(const char *str) {
     kbuf[0]=',';
     for (i=0; str[i]; i++) {
         if (i>20) return 0;
-        if (!isalpha(str[i])) return 0;
+        if (!isalpha(str[i]) && str[i] != '_') return 0;
         kbuf[i+1] = toupper(str[i]);
     }
     kbuf[++i] = ',';
-- 
2.43.0


From 46245391896b47c4dae800b32addb7b3433b89e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:28 +0000
Subject: [PATCH 191/226] fix: Info.methods() dropped functions when a command
 matched too

---
 src/jsiCmds.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiCmds.c b/src/jsiCmds.c
index 9658095..8612c13 100644
--- a/src/jsiCmds.c
+++ b/src/jsiCmds.c
@@ -3499,7 +3499,7 @@ static Jsi_RC InfoCmdsCmdSub(Jsi_Interp *interp, Jsi_Value *arg, Jsi_Value *_thi
 {
     const char *key, *name = NULL, *cp;
     int tail = (add&2);
-    int curlen = 0, icnt = 0, isglob = 0, dots = 0, gotFirst = 0, ninc;
+    int curlen = (nobj?nobj->arrCnt:0), icnt = 0, isglob = 0, dots = 0, gotFirst = 0, ninc;
     Jsi_MapEntry *hPtr = NULL;
     Jsi_MapSearch search;
     Jsi_CmdSpecItem *csi = NULL;
-- 
2.43.0


From 8b376e1a220de6d51683c4f7ecc95f7308a76c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:40 +0000
Subject: [PATCH 192/226] fix: in test mode a line with a regexp literal first
 was taken for one that throws

---
 src/jsiEval.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiEval.c b/src/jsiEval.c
index bd8b760..8108d53 100644
--- a/src/jsiEval.c
+++ b/src/jsiEval.c
@@ -2388,7 +2388,7 @@ static Jsi_RC jsiJsPreprocessLine(Jsi_Interp* interp, char *buf, size_t bsiz, ui
                 Jsi_DSFree(&kStr);
                 if (rcs != JSI_OK)
                     return Jsi_LogError("failure in debugOpts.testFmtCallback");
-            } else if (ilen>3 && ubuf[0]=='/' && ubuf[0]=='/') {
+            } else if (ilen>3 && ubuf[0]=='/' && ubuf[1]=='/') {
                 char *ecp = ubuf+2;
                 while (*ecp && isspace(*ecp)) ecp++;
                 snprintf(buf, bsiz, "printf(`%%s ==>`, \"%s\"); try { %s; puts('\\n[FAIL]!: expected a throw\\n'); } "
-- 
2.43.0


From 35a5392c8823e56bc7cfefeb884dc28845e71d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:40 +0000
Subject: [PATCH 193/226] fix: in test mode a line that throws could not
 contain a double quote

---
 src/jsiEval.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiEval.c b/src/jsiEval.c
index 8108d53..faddfc5 100644
--- a/src/jsiEval.c
+++ b/src/jsiEval.c
@@ -2391,7 +2391,7 @@ static Jsi_RC jsiJsPreprocessLine(Jsi_Interp* interp, char *buf, size_t bsiz, ui
             } else if (ilen>3 && ubuf[0]=='/' && ubuf[1]=='/') {
                 char *ecp = ubuf+2;
                 while (*ecp && isspace(*ecp)) ecp++;
-                snprintf(buf, bsiz, "printf(`%%s ==>`, \"%s\"); try { %s; puts('\\n[FAIL]!: expected a throw\\n'); } "
+                snprintf(buf, bsiz, "printf(`%%s ==>`, `%s`); try { %s; puts('\\n[FAIL]!: expected a throw\\n'); } "
                     "catch(err) { puts('\\n[PASS]!: err =',err); }\n", ecp, ecp);
             } else {
                 snprintf(buf, bsiz, "printf(`%%s ==> `,`%s`),puts(%s);\n", ucp, ucp);
-- 
2.43.0


From 99d4b6f357a72c9b309af81d91a36288dcf4f64c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:19 +0000
Subject: [PATCH 194/226] fix: the exit status was 0 after exit(n) in
 interactive mode and after a bad --I or --E

---
 src/jsiInterp.c | 7 +++++--
 src/main.c      | 2 +-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/jsiInterp.c b/src/jsiInterp.c
index 4a9add4..faca793 100644
--- a/src/jsiInterp.c
+++ b/src/jsiInterp.c
@@ -728,8 +728,11 @@ Jsi_Interp* Jsi_Main(Jsi_InterpOpts *opts)
     }
     if (!interp)
         interp = Jsi_InterpNew(opts);
-    if (!interp)
+    if (!interp) {
+        if (opts)
+            opts->exitCode = 1;
         return NULL;
+    }
     Jsi_InterpOnDelete(interp, &jsi_InterpDelete, (void*)&jsi_InterpDelete);
     argc -= interp->iskips;
     argv += interp->iskips;
@@ -971,7 +974,7 @@ helpout:
 done:
     if (rc == JSI_EXIT) {
         if (opts)
-            opts->exitCode = jsi_exitCode;
+            opts->exitCode = ((jsi_exitCode<0 || jsi_exitCode>127) ? 127 : jsi_exitCode);
         return NULL;
     }
     if (jsi_deleted == 0 && interp->opts.auto_delete) {
diff --git a/src/main.c b/src/main.c
index 62f4082..69f478c 100644
--- a/src/main.c
+++ b/src/main.c
@@ -48,7 +48,7 @@ int jsi_main(int argc, char **argv)
     if (interp)
         Jsi_InterpDelete(interp);
     Jsi_DSFree(&sStr);
-    exit(0);
+    exit(opts.exitCode);
 }
 
 #if JSI__MAIN
-- 
2.43.0


From d487d59f881213278198bddbe999cf4c82830e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:19 +0000
Subject: [PATCH 195/226] fix: options after --T were not recognized

---
 src/jsiInterp.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/jsiInterp.c b/src/jsiInterp.c
index faca793..08de5ec 100644
--- a/src/jsiInterp.c
+++ b/src/jsiInterp.c
@@ -1208,6 +1208,7 @@ static Jsi_Interp* jsi_InterpNew(Jsi_Interp *parent, Jsi_Value *opts, Jsi_Interp
                 case 'E':
                     continue;
                 case 'T':
+                    iocnt--;
                     continue;
                 case 'I': {
                     const char *aio2 = argv[iocnt+1];
@@ -1285,6 +1286,7 @@ static Jsi_Interp* jsi_InterpNew(Jsi_Interp *parent, Jsi_Value *opts, Jsi_Interp
                 case 'T': {
                     interp->testMode=1;
                     interp->iskips+=1;
+                    iocnt--;
                     continue;
                 }
                 case 'I':  {
-- 
2.43.0


From 31fc5d5911045af85c1671ed08f0fca957b35267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:43 +0000
Subject: [PATCH 196/226] fix: exit() in the code of --E used the interp after
 it was freed

---
 src/jsiInterp.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/jsiInterp.c b/src/jsiInterp.c
index 08de5ec..f32720d 100644
--- a/src/jsiInterp.c
+++ b/src/jsiInterp.c
@@ -1582,7 +1582,11 @@ static Jsi_Interp* jsi_InterpNew(Jsi_Interp *parent, Jsi_Value *opts, Jsi_Interp
 #endif
     Jsi_PkgProvide(interp, "Jsi", JSI_VERSION, NULL);
     if (Jsi_DSLength(&interp->interpEvalQ)) {
+        interp->level++;
         rc = Jsi_EvalString(interp, Jsi_DSValue(&interp->interpEvalQ), 0);
+        interp->level--;
+        if (interp->exited)
+            return jsi_DoExit(interp, interp->exitCode);
         Jsi_DSSetLength(&interp->interpEvalQ, 0);
         if (JSI_OK != rc) {
             Jsi_InterpDelete(interp);
-- 
2.43.0


From f47c83e3b348ed28b83f85f8c56430ae95a9897b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:20 +0000
Subject: [PATCH 197/226] fix: input with a quote or bracket inside of a string
 was taken as incomplete

---
 src/jsiUtils.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/jsiUtils.c b/src/jsiUtils.c
index 99f3897..ab9c931 100644
--- a/src/jsiUtils.c
+++ b/src/jsiUtils.c
@@ -957,9 +957,14 @@ char* jsi_KeyFind(Jsi_Interp *interp, const char *str, int nocreate, int *isKey)
 }
 
 bool jsi_StrIsBalanced(char *str) {
-    int cnt = 0, quote = 0;
+    int cnt = 0, quote = 0; /* quote is that of the string cp is in, or 0 */
     char *cp = str;
     while (*cp) {
+        if (quote && *cp != '\\') {
+            if (*cp++ == quote)
+                quote = 0;
+            continue;
+        }
         switch (*cp) {
         case '\\':
             cp++;
@@ -968,7 +973,7 @@ bool jsi_StrIsBalanced(char *str) {
             cnt++;
             break;
         case '\'': case '\"':
-            quote++;
+            quote = *cp;
             break;
         case '}': case ')': case ']':
             cnt--;
@@ -978,7 +983,7 @@ bool jsi_StrIsBalanced(char *str) {
             break;
         cp++;
     }
-    return ((quote%2) == 0 && cnt <= 0);
+    return (quote == 0 && cnt <= 0);
 }
 
 static char *get_inputline(Jsi_Interp *interp, int istty, const char *prompt)
-- 
2.43.0


From 342d937fb6ce52dcf34fe68551cb68a8eef95407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:42 +0000
Subject: [PATCH 198/226] fix: input with a quote or bracket in a comment was
 taken as incomplete

---
 src/jsiUtils.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/jsiUtils.c b/src/jsiUtils.c
index ab9c931..e40d0f1 100644
--- a/src/jsiUtils.c
+++ b/src/jsiUtils.c
@@ -975,6 +975,16 @@ bool jsi_StrIsBalanced(char *str) {
         case '\'': case '\"':
             quote = *cp;
             break;
+        case '/':
+            if (cp[1] == '/') {
+                while (cp[1] && cp[1] != '\n') cp++;
+            } else if (cp[1] == '*') {
+                cp = Jsi_Strstr(cp+2, "*/");
+                if (!cp)
+                    return 0;
+                cp++;
+            }
+            break;
         case '}': case ')': case ']':
             cnt--;
             break;
-- 
2.43.0


From d2968cf2b17f4c0afb2aa98b2b9b3e4a4cb1c75c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:42 +0000
Subject: [PATCH 199/226] fix: an input line that fills the buffer was joined
 with the next, or lost at the end of input

---
 src/jsiUtils.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/jsiUtils.c b/src/jsiUtils.c
index e40d0f1..ecd52b9 100644
--- a/src/jsiUtils.c
+++ b/src/jsiUtils.c
@@ -1014,10 +1014,13 @@ static char *get_inputline(Jsi_Interp *interp, int istty, const char *prompt)
     fflush(stdout);
     while (!done) { /* Read a line. */
         bbuf[0] = 0;
-        if (fgets(bbuf, sizeof(bbuf), stdin) == NULL)
+        if (fgets(bbuf, sizeof(bbuf), stdin) == NULL) {
+            if (Jsi_DSLength(&dStr))
+                break;
             return NULL;
+        }
         Jsi_DSAppend(&dStr, bbuf, NULL);
-        if (Jsi_Strlen(bbuf) < (sizeof(bbuf)-1) || bbuf[sizeof(bbuf)-1] == '\n')
+        if (Jsi_Strlen(bbuf) < (sizeof(bbuf)-1) || bbuf[sizeof(bbuf)-2] == '\n')
             break;
     }
     res = Jsi_Strdup(Jsi_DSValue(&dStr));
-- 
2.43.0


From 001090dfbe1db941fadc8434031e78bea5d8c645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:02 +0000
Subject: [PATCH 200/226] fix: test runner stopped at a test whose output is
 longer than expected

---
 lib/Testing.jsi | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Testing.jsi b/lib/Testing.jsi
index e34a4c8..f1df48e 100644
--- a/lib/Testing.jsi
+++ b/lib/Testing.jsi
@@ -255,7 +255,7 @@ function Testing(fileargs:array, conf:object=void):number {
                     for (var j = i-self.context; j<i+self.context; j++) {
                         if (j<0 || j>=rlst.length) continue;
                         if (j!==i) { puts('',rlst[j]); continue; }
-                        puts('-'+elst[i]);
+                        if (i<elen) puts('-'+elst[i]);
                         puts('+'+rlst[i]);
                     }
                     puts('====================DIFFEND');
-- 
2.43.0


From 946078b7505b01ec756b82076e460c45579fb4cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:41 +0000
Subject: [PATCH 201/226] fix: an option name which is also a prefix of other
 names is not ambiguous

---
 src/jsiOptions.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/jsiOptions.c b/src/jsiOptions.c
index cdfb8d9..5addeaf 100644
--- a/src/jsiOptions.c
+++ b/src/jsiOptions.c
@@ -179,7 +179,7 @@ Jsi_OptionsFind(Jsi_Interp *interp, Jsi_OptionSpec *specs, const char *name, Jsi
     char c;      /* First character of current argument. */
     Jsi_OptionSpec *matchPtr; /* Matching spec, or NULL. */
     size_t length;
-    const char *matStr = NULL;
+    const char *matStr = NULL, *mat2Str = NULL;
     
     if (name == NULL) {
         Jsi_LogError("Null name for option");
@@ -198,13 +198,18 @@ Jsi_OptionsFind(Jsi_Interp *interp, Jsi_OptionSpec *specs, const char *name, Jsi
             return specPtr;   /* Stop on a perfect match. */
         }
         if (matchPtr != NULL) {
-            Jsi_LogError("ambiguous option \"%s\" matches both \"%s\" and \"%s\"", name, matStr, specPtr->name);
-            return (Jsi_OptionSpec *) NULL;
+            if (!mat2Str)
+                mat2Str = specPtr->name;
+            continue;  /* A later name may still match perfectly. */
         }
         matchPtr = specPtr;
         matStr = specPtr->name;
     }
 
+    if (mat2Str) {
+        Jsi_LogError("ambiguous option \"%s\" matches both \"%s\" and \"%s\"", name, matStr, mat2Str);
+        return (Jsi_OptionSpec *) NULL;
+    }
     if (matchPtr == NULL) {
         Jsi_DString dStr = {};
         Jsi_DSAppend(&dStr, "unknown option \"", name, "\" not one of: ", NULL);
-- 
2.43.0


From 5e53938d84a50e18fc41337cd4ca987cf5232ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:41 +0000
Subject: [PATCH 202/226] fix: an enum name which is also a prefix of an
 earlier name is not ambiguous

---
 src/jsiUtils.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/jsiUtils.c b/src/jsiUtils.c
index ecd52b9..efd2962 100644
--- a/src/jsiUtils.c
+++ b/src/jsiUtils.c
@@ -2167,14 +2167,23 @@ Jsi_GetIndex( Jsi_Interp *interp, const char *str,
   i = -1;
   dup = 0;
   index = -1;
+  while (*cp != 0) {
+    i++;
+    c = *cp;
+    if (c[0] == str[0] && Jsi_Strcmp(c, str) == 0) {
+      *indexPtr = i;    /* A whole name is not ambiguous. */
+      return JSI_OK;
+    }
+    cp++;
+  }
+  cp = (char**)tablePtr;
+  i = -1;
   while (*cp != 0) {
     i++;
     c = *cp;
     if (c[0] == str[0] && Jsi_Strncmp(c,str, slen) == 0) {
       if (index<0) {
         index = i;
-        if (slen == (int)Jsi_Strlen(c))
-            break;
       } else {
         if (interp != NULL) {
           msg2 = "ambiguous ";
-- 
2.43.0


From ab33d9f70e836400bf8fcdc8cd3ec3a87627e1ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:41 +0000
Subject: [PATCH 203/226] fix: a TIME_W option given a number stored the bits
 of the double

---
 src/jsiOptions.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/jsiOptions.c b/src/jsiOptions.c
index 5addeaf..8f3d2b3 100644
--- a/src/jsiOptions.c
+++ b/src/jsiOptions.c
@@ -457,11 +457,12 @@ jsi_SetOption_(Jsi_Interp *interp, Jsi_OptionSpec *specPtr, const char *string /
     case JSI_OPTION_TIME_W: {
        if (argValue)
         {
+            Jsi_Number num;
             if (Jsi_ValueIsNumber(interp, argValue)) {
-                Jsi_GetNumberFromValue(interp, argValue, (Jsi_Number*)ptr);
+                Jsi_GetNumberFromValue(interp, argValue, &num);
+                *(Jsi_Wide*)ptr = (Jsi_Wide)num;
             } else {
                 const char *scp;
-                Jsi_Number num;
                 if (Jsi_GetStringFromValue(interp, argValue, &scp, NULL) != JSI_OK) {
                     goto bail;
                 }
-- 
2.43.0


From 0b87a6061259c321f74a79e3c9aeefadebc24b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:41 +0000
Subject: [PATCH 204/226] fix: reading a DSTRING option emptied it, and setting
 it again leaked the old string

---
 src/jsiOptions.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/jsiOptions.c b/src/jsiOptions.c
index 8f3d2b3..e28a23c 100644
--- a/src/jsiOptions.c
+++ b/src/jsiOptions.c
@@ -422,14 +422,18 @@ jsi_SetOption_(Jsi_Interp *interp, Jsi_OptionSpec *specPtr, const char *string /
         break;
         
     case JSI_OPTION_DSTRING:
-        Jsi_DSInit((Jsi_DString *)ptr);
         if (argValue && !Jsi_ValueIsNull(interp, argValue))
         {
             int sLen;
             const char *scp = Jsi_ValueString(interp, argValue, &sLen);
             if (!scp)
                 goto bail;
+            Jsi_DSFree((Jsi_DString *)ptr);
+            Jsi_DSInit((Jsi_DString *)ptr);
             Jsi_DSAppendLen((Jsi_DString *)ptr, scp, sLen);
+        } else {
+            Jsi_DSFree((Jsi_DString *)ptr);
+            Jsi_DSInit((Jsi_DString *)ptr);
         }
         break;
     
@@ -741,7 +745,7 @@ jsi_GetOption(Jsi_Interp *interp, Jsi_OptionSpec *specPtr, void* record, const c
         break;
         
     case JSI_OPTION_DSTRING:
-        Jsi_ValueFromDS(interp, (Jsi_DString*)ptr, valuePtr);
+        jsi_ValueMakeBlobDup(interp, valuePtr, (uchar*)Jsi_DSValue((Jsi_DString*)ptr), Jsi_DSLength((Jsi_DString*)ptr));
         break;
     
     case JSI_OPTION_TIME_W: {
-- 
2.43.0


From 1a930d9060146bcbf10a312cbf954edbf2f3123a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:41 +0000
Subject: [PATCH 205/226] fix: an index past the end of an array option read or
 wrote outside of the array

---
 src/jsiOptions.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/jsiOptions.c b/src/jsiOptions.c
index e28a23c..d6216c3 100644
--- a/src/jsiOptions.c
+++ b/src/jsiOptions.c
@@ -638,6 +638,8 @@ bail:
         int isize, size = specPtr->arrSize;
         if (!subSpec || size<=0 || (isize=subSpec->size)<=0)
             goto bail;
+        if (ul >= size)
+            return Jsi_LogError("array index out of range: %s", option);
         isize = isize/size;
         uchar *s = (((uchar*)rec)+specPtr->offset + isize*ul);
         if (ce[1] != '.' || !subSpec->data) {
@@ -868,6 +870,8 @@ bail:
         int isize, size = specPtr->arrSize;
         if (!subSpec || size<=0 || (isize=subSpec->size)<=0)
             goto bail;
+        if (ul >= size)
+            return Jsi_LogError("array index out of range: %s", option);
         isize = isize/size;
         uchar *s = (((uchar*)rec)+specPtr->offset + isize*ul);
         if (ce[1] != '.' || !subSpec->data) {
-- 
2.43.0


From 9e178807da92cdbfe8e0efaec5af2eb5d238d039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:41 +0000
Subject: [PATCH 206/226] fix: a number option rejected NaN only after storing
 it

---
 src/jsiOptions.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jsiOptions.c b/src/jsiOptions.c
index d6216c3..e372838 100644
--- a/src/jsiOptions.c
+++ b/src/jsiOptions.c
@@ -353,8 +353,8 @@ jsi_SetOption_(Jsi_Interp *interp, Jsi_OptionSpec *specPtr, const char *string /
             
         switch (specPtr->id) {
 #define _JSI_OPTSETNTYP(typ, n, ptr) if (!argValue) *(typ*)ptr = 0; else { if (isIncr) n += *((typ *)ptr); \
-            interp->cdataIncrVal = *((typ *)ptr) = (typ)(n); \
-            if (!interp->noCheck && Jsi_NumberIsNaN((Jsi_Number)(*((typ *)ptr)))) return Jsi_LogError("not a number"); }
+            if (!interp->noCheck && Jsi_NumberIsNaN((Jsi_Number)(typ)(n))) return Jsi_LogError("not a number"); \
+            interp->cdataIncrVal = *((typ *)ptr) = (typ)(n); }
 
             case JSI_OPTION_NUMBER: _JSI_OPTSETNTYP(Jsi_Number, nv, ptr); break;
             case JSI_OPTION_LDOUBLE: _JSI_OPTSETNTYP(ldouble, nv, ptr); break;
-- 
2.43.0


From 4d7138abfa1a82ae60f7e43aad0516a3be44fcee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:41 +0000
Subject: [PATCH 207/226] fix: integer options took NaN, infinities and
 negative values for 64-bit unsigned types

---
 src/jsiOptions.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/jsiOptions.c b/src/jsiOptions.c
index e372838..9fce3cb 100644
--- a/src/jsiOptions.c
+++ b/src/jsiOptions.c
@@ -305,6 +305,11 @@ jsi_SetOption_(Jsi_Interp *interp, Jsi_OptionSpec *specPtr, const char *string /
             if (!Jsi_ValueIsNumber(interp, argValue))
                 goto bail;
 
+            if (Jsi_GetNumberFromValue(interp, argValue, &nv) != JSI_OK) {
+                return JSI_ERROR;
+            }
+            if (!interp->noCheck && !(nv >= -9223372036854775808.0 && nv < 9223372036854775808.0))
+                return Jsi_LogType("not an integer");
             if (Jsi_GetWideFromValue(interp, argValue, &wcount) != JSI_OK) {
                 return JSI_ERROR;
             }
@@ -312,7 +317,7 @@ jsi_SetOption_(Jsi_Interp *interp, Jsi_OptionSpec *specPtr, const char *string /
         }
         switch (specPtr->id) {
 #define _JSI_OPTSETTYP(typ, n, ptr) if (isIncr) n += *((typ *)ptr); \
-    if (isIncr || ((Jsi_Wide)(typ)(n)) == (n)) interp->cdataIncrVal = *((typ *)ptr) = (typ)(n); else expType = #typ;
+    if (isIncr || (((Jsi_Wide)(typ)(n)) == (n) && ((n)>=0 || (typ)-1<(typ)1))) interp->cdataIncrVal = *((typ *)ptr) = (typ)(n); else expType = #typ;
             case JSI_OPTION_INT:    _JSI_OPTSETTYP(int, wcount, ptr); break;
             case JSI_OPTION_UINT:   _JSI_OPTSETTYP(uint, wcount, ptr); break;
             case JSI_OPTION_INTPTR_T: _JSI_OPTSETTYP(intptr_t, wcount, ptr); break;
-- 
2.43.0


From 2c3838b9984a3526cd1b49d7f932ebff917ee136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:41 +0000
Subject: [PATCH 208/226] fix: clearing options with null: bool got a random
 value, enum failed and array crashed

---
 src/jsiOptions.c | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/jsiOptions.c b/src/jsiOptions.c
index 9fce3cb..62e6300 100644
--- a/src/jsiOptions.c
+++ b/src/jsiOptions.c
@@ -273,9 +273,8 @@ jsi_SetOption_(Jsi_Interp *interp, Jsi_OptionSpec *specPtr, const char *string /
         break;
 
     case JSI_OPTION_BOOL: {
-        if (!argValue)
-            *(char*)ptr = 0;
-        else if (!Jsi_ValueIsBoolean(interp, argValue))
+        bn = 0;
+        if (argValue && !Jsi_ValueIsBoolean(interp, argValue))
             goto bail;
         Jsi_GetBoolFromValue(interp, argValue, &bn);
         *(char*)ptr = bn;
@@ -1236,13 +1235,15 @@ static Jsi_RC ValueToCArray(Jsi_Interp *interp, Jsi_OptionSpec* spec, Jsi_Value
     if (!subSpec || size<=0 || (isize=subSpec->size)<=0)
         goto bail;
     isize = isize/size;
-    if (!Jsi_ValueIsArray(interp, inValue)) 
-        return Jsi_LogError("expected array");
-    argc = Jsi_ValueGetLength(interp, inValue);
-    if (argc != size) 
-        return Jsi_LogError("array length %d was not %d", argc, size);
+    if (inValue) {
+        if (!Jsi_ValueIsArray(interp, inValue)) 
+            return Jsi_LogError("expected array");
+        argc = Jsi_ValueGetLength(interp, inValue);
+        if (argc != size) 
+            return Jsi_LogError("array length %d was not %d", argc, size);
+    }
     for (i = 0; i<size; i++) {
-        Jsi_Value *v = Jsi_ValueArrayIndex(interp, inValue, i);
+        Jsi_Value *v = (inValue?Jsi_ValueArrayIndex(interp, inValue, i):NULL);
         if (Jsi_OptionsSet(interp, subSpec, (void*)s, subSpec->name, v, 0) != JSI_OK)
             return JSI_ERROR;
         s += isize;
@@ -1477,7 +1478,7 @@ static Jsi_RC jsi_ValueToEnum(Jsi_Interp *interp, Jsi_OptionSpec* spec, Jsi_Valu
             return JSI_ERROR;
     } else
 #ifndef JSI_LITE_ONLY
-    if (JSI_OK != Jsi_ValueGetIndex(interp, inValue, list, "enum", cflags, &n))
+    if (inValue && JSI_OK != Jsi_ValueGetIndex(interp, inValue, list, "enum", cflags, &n))
         return JSI_ERROR;
 
 #endif
-- 
2.43.0


From cc1f536f9fe427406a3febc5b9ee7be93f4c5379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:41 +0000
Subject: [PATCH 209/226] fix: bitset options wider or narrower than an int
 lost bits or read their neighbours

---
 src/jsiOptions.c | 53 ++++++++++++++++++++++++++++++++----------------
 1 file changed, 35 insertions(+), 18 deletions(-)

diff --git a/src/jsiOptions.c b/src/jsiOptions.c
index 62e6300..ad7f2e7 100644
--- a/src/jsiOptions.c
+++ b/src/jsiOptions.c
@@ -1634,14 +1634,18 @@ static Jsi_RC jsi_ValueToBitset(Jsi_Interp *interp, Jsi_OptionSpec* spec, Jsi_Va
                         rc = Jsi_LogError("Can not use '!' in a string starting with '='");
                     isnot = 1; cp++;
                 }
-                if (JSI_OK != Jsi_GetIndex(interp, cp, list, "enum", fflags, &n))
+                if (JSI_OK != Jsi_GetIndex(interp, cp, list, "enum", fflags, &n)) {
                     rc = JSI_ERROR;
-                if (n >= (int)(spec->size*8)) 
+                    continue;
+                }
+                if (n >= (int)(spec->size*8)) {
                     rc = Jsi_LogError("list larger than field size: %s", spec->name);
+                    continue;
+                }
                 if (isnot)
-                    m &= ~(1<<n);
+                    m &= ~((uint64_t)1<<n);
                 else
-                    m |= (1<<n);
+                    m |= ((uint64_t)1<<n);
             }
             Jsi_DSFree(&sStr);
             if (rc != JSI_OK)
@@ -1651,7 +1655,7 @@ static Jsi_RC jsi_ValueToBitset(Jsi_Interp *interp, Jsi_OptionSpec* spec, Jsi_Va
 #ifndef JSI_LITE_ONLY
         // Supports object for update, or array for replace (or update when first string is just a '=')
         if (!inValue) {
-            *s = 0;
+            memset(s, 0, spec->size);
             return JSI_OK;
         }
         if (Jsi_ValueIsObjType(interp, inValue, JSI_OT_OBJECT) && !Jsi_ValueIsArray(interp, inValue)) {
@@ -1673,17 +1677,20 @@ static Jsi_RC jsi_ValueToBitset(Jsi_Interp *interp, Jsi_OptionSpec* spec, Jsi_Va
                     Jsi_TreeSearchDone(&search);
                     return Jsi_LogError("object member is not a bool: %s", cp);
                 }
+                if (n >= (int)(spec->size*8)) {
+                    Jsi_TreeSearchDone(&search);
+                    return Jsi_LogError("list larger than field size: %s", spec->name);
+                }
                 bool vb;
                 Jsi_ValueGetBoolean(interp, optval, &vb);
                 if (!vb)
-                    m &= ~(1<<n);
+                    m &= ~((uint64_t)1<<n);
                 else
-                    m |= (1<<n);
+                    m |= ((uint64_t)1<<n);
             }
             if (tp)
                 Jsi_TreeSearchDone(&search);
-            *s = m;
-            return JSI_OK;
+            goto done;
         }
         
         if (!Jsi_ValueIsArray(interp, inValue)) 
@@ -1704,12 +1711,14 @@ static Jsi_RC jsi_ValueToBitset(Jsi_Interp *interp, Jsi_OptionSpec* spec, Jsi_Va
             if (*cp == '!') { isnot = 1; cp++; }
             if (JSI_OK != Jsi_GetIndex(interp, cp, list, "bitset", fflags, &n))
                 return JSI_ERROR;
+            if (n >= (int)(spec->size*8))
+                return Jsi_LogError("list larger than field size: %s", spec->name);
             if (isnot)
-                m &= ~(1<<n);
+                m &= ~((uint64_t)1<<n);
             else
-                m |= (1<<n);
+                m |= ((uint64_t)1<<n);
         }
-        *s = m;
+done:   ;
 #endif
     }
     switch (spec->size) {
@@ -1723,16 +1732,25 @@ static Jsi_RC jsi_ValueToBitset(Jsi_Interp *interp, Jsi_OptionSpec* spec, Jsi_Va
 
 static Jsi_RC jsi_BitsetToValue(Jsi_Interp *interp, Jsi_OptionSpec* spec, Jsi_Value **outValue, Jsi_DString *outStr, void *record, Jsi_Wide flags)
 {
-    int i, n, cnt = 0, *s = (int*)(((char*)record) + spec->offset);
+    int i, cnt = 0;
+    uint64_t n;
+    char *s = (((char*)record) + spec->offset);
     const char **list = (const char**)spec->data;
     if (!list) 
         return Jsi_LogError("custom enum spec did not set data: %s", spec->name);
+    switch (spec->size) {
+        case 1: n = *(uint8_t*)s; break;
+        case 2: n = *(uint16_t*)s; break;
+        case 4: n = *(uint32_t*)s; break;
+        case 8: n = *(uint64_t*)s; break;
+        default: 
+            return Jsi_LogError("bitset size must be 1, 2, 4, or 8: %s", spec->name);
+    }
     if (outStr) {
-        n = *s;
         for (i=0; list[i]; i++) {
             if (i >= (int)(spec->size*8)) 
                 return Jsi_LogError("list larger than field size: %s", spec->name);
-            if (!(n & (1<<i)))
+            if (!(n & ((uint64_t)1<<i)))
                 continue;
             if (cnt++)
                 Jsi_DSAppendLen(outStr, ", ", 1);
@@ -1742,10 +1760,9 @@ static Jsi_RC jsi_BitsetToValue(Jsi_Interp *interp, Jsi_OptionSpec* spec, Jsi_Va
     }
 #ifndef JSI_LITE_ONLY
     Jsi_Obj *obj = Jsi_ObjNewType(interp, JSI_OT_ARRAY);
-    n = *s;
-    for (i=0; list[i]; i++) {
+    for (i=0; list[i] && i < (int)(spec->size*8); i++) {
         Jsi_Value *v;
-        if (!(n&(1<<i))) continue;
+        if (!(n&((uint64_t)1<<i))) continue;
         cnt++;
         v = Jsi_ValueMakeStringKey(interp, NULL, list[i]);
         Jsi_ObjArrayAdd(interp, obj, v);
-- 
2.43.0


From 71ec08de0172f2511e49a391682607506e4c66a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:41 +0000
Subject: [PATCH 210/226] fix: setting a parent function option again leaked
 the old one

---
 src/jsiOptions.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/jsiOptions.c b/src/jsiOptions.c
index ad7f2e7..366393e 100644
--- a/src/jsiOptions.c
+++ b/src/jsiOptions.c
@@ -1218,6 +1218,8 @@ static void jsi_VerifyFree(Jsi_Interp *interp, Jsi_OptionSpec* spec, void *ptr)
     Jsi_Value **v = (Jsi_Value**)ptr;
     if (v && *v)
         Jsi_DecrRefCount(interp, *v);
+    if (v)
+        *v = NULL;
 }
 
 static Jsi_OptionCustom jsi_OptSwitchValueVerify = {
@@ -1850,8 +1852,9 @@ static Jsi_RC jsi_ValueToParentFunc(Jsi_Interp *interp, Jsi_OptionSpec* spec, Js
             && !jsi_FuncArgCheck(pinterp, val->d.obj->d.fobj->func, (char*)spec->data)) 
             return Jsi_LogError("failed setting func pointer for %s", spec->name);
 
-    *v = val;
     Jsi_IncrRefCount(pinterp, val);
+    if (*v) Jsi_DecrRefCount(pinterp, *v);
+    *v = val;
     return JSI_OK;
 }
 
-- 
2.43.0


From 0833d18ef63590b5a46d57821028b515fb82056f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:41 +0000
Subject: [PATCH 211/226] fix: a time given to an option lost its seconds

---
 src/jsiCmds.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/jsiCmds.c b/src/jsiCmds.c
index 8612c13..2c6e51c 100644
--- a/src/jsiCmds.c
+++ b/src/jsiCmds.c
@@ -2073,7 +2073,6 @@ Jsi_RC Jsi_DatetimeParse(Jsi_Interp *interp, const char *str, const char *fmt, i
         }
         rv = strptime(str, fmt, &tm);
     } else {
-        if (fmt) j++;
         while (timeFmts[j]) {
             rv = strptime(str, timeFmts[j], &tm);
             if (rv != NULL)
-- 
2.43.0


From a6a15d39d2176387d8c9dfc0ba9e6c1782345c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:54 +0000
Subject: [PATCH 212/226] fix: clearing a bitset option with null crashed

---
 src/jsiOptions.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiOptions.c b/src/jsiOptions.c
index 366393e..ff18666 100644
--- a/src/jsiOptions.c
+++ b/src/jsiOptions.c
@@ -1615,7 +1615,7 @@ static Jsi_RC jsi_ValueToBitset(Jsi_Interp *interp, Jsi_OptionSpec* spec, Jsi_Va
     }
     // Support set with either string or object. 
 #ifndef JSI_LITE_ONLY
-    if (!inStr && Jsi_ValueIsString(interp, inValue))
+    if (!inStr && inValue && Jsi_ValueIsString(interp, inValue))
         inStr = Jsi_ValueString(interp, inValue, NULL);
 #endif
     if (inStr) {
-- 
2.43.0


From dc430d8e026caad321d5f476efc1e5e845af2f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:06 +0000
Subject: [PATCH 213/226] fix: queued socket messages were sent in reverse
 order, and freed after a partial write

---
 src/jsiSocket.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/jsiSocket.c b/src/jsiSocket.c
index 69cd020..d14b3a8 100644
--- a/src/jsiSocket.c
+++ b/src/jsiSocket.c
@@ -765,7 +765,7 @@ static Jsi_RC sock_handler(SocketObj *cmdPtr, callback_reasons reason, SocketPss
         if (deleted) return JSI_ERROR;
         n=0;
         while (1) {
-            Jsi_Value *dv = (Jsi_Value*)Jsi_StackPeek(pss->stack);
+            Jsi_Value *dv = (Jsi_Value*)Jsi_StackHead(pss->stack);
             char *data;
             int sLen;
             if (dv == NULL || (data=Jsi_ValueString(interp, dv, &sLen)) == NULL)
@@ -785,8 +785,9 @@ static Jsi_RC sock_handler(SocketObj *cmdPtr, callback_reasons reason, SocketPss
                     fprintf(stderr, "error on write\n");
                 return JSI_ERROR;
             }
-            if (n >= osiz) {
-                Jsi_StackPop(pss->stack);
+            bool sent = (n >= osiz);
+            if (sent) {
+                Jsi_StackUnshift(pss->stack);
                 pss->offset = 0;
             } else {
                 if (cmdPtr->debug)
@@ -795,7 +796,8 @@ static Jsi_RC sock_handler(SocketObj *cmdPtr, callback_reasons reason, SocketPss
             }
             if (cmdPtr->debug)
                 fprintf(stderr, "SOCK:CLIENT WRITE(%d): %d=>%d: %s\n", pss->id, sLen, n, data);
-            Jsi_DecrRefCount(interp, dv);                                   
+            if (sent)
+                Jsi_DecrRefCount(interp, dv);
             if (n >= 0) {
                 pss->sentCnt++;
                 pss->sentLast = time(NULL);
-- 
2.43.0


From c0cff4e3f545c76aa25ea82e4a439417ce2b4f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:06 +0000
Subject: [PATCH 214/226] fix: Socket names() did not return the list of ids,
 and crashed on a client

---
 src/jsiSocket.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/jsiSocket.c b/src/jsiSocket.c
index d14b3a8..38fe61f 100644
--- a/src/jsiSocket.c
+++ b/src/jsiSocket.c
@@ -1005,12 +1005,12 @@ static Jsi_RC SocketIdsCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this
         return Jsi_LogError("Apply in a non-socket object");
     Jsi_DString dStr;
     Jsi_DSInit(&dStr);
-    Jsi_DSAppend(&dStr, "{", NULL);
+    Jsi_DSAppend(&dStr, "[", NULL);
     SocketPss *pss = NULL;
     Jsi_HashEntry *hPtr;
     Jsi_HashSearch cursor;
     int cnt = 0;
-    for (hPtr = Jsi_HashSearchFirst(cmdPtr->pssTable, &cursor);
+    for (hPtr = (cmdPtr->pssTable?Jsi_HashSearchFirst(cmdPtr->pssTable, &cursor):NULL);
         hPtr != NULL; hPtr = Jsi_HashSearchNext(&cursor)) {
         pss = (SocketPss *)Jsi_HashValueGet(hPtr);
         SIGASSERT(pss, SOCKETPSS);
@@ -1018,7 +1018,7 @@ static Jsi_RC SocketIdsCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this
             Jsi_DSPrintf(&dStr, "%s%d", cnt++?",":"", pss->id);
         }
     }
-    Jsi_DSAppend(&dStr, "}", NULL);
+    Jsi_DSAppend(&dStr, "]", NULL);
     Jsi_RC rc = Jsi_JSONParse(interp, Jsi_DSValue(&dStr), ret, 0);
     Jsi_DSFree(&dStr);
     return rc;
-- 
2.43.0


From 2385192a91854661334d090cf4410be436b284f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:06 +0000
Subject: [PATCH 215/226] fix: Socket send() took its options from the data

---
 src/jsiSocket.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiSocket.c b/src/jsiSocket.c
index 38fe61f..397ffe3 100644
--- a/src/jsiSocket.c
+++ b/src/jsiSocket.c
@@ -428,7 +428,7 @@ static Jsi_RC SocketSendCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_thi
         return Jsi_LogError("expected int id or options object");
     Jsi_Value *arg2 = Jsi_ValueArrayIndex(interp, args, 2);
     if (argc>2 && arg2 &&
-        Jsi_OptionsProcess(interp, SockSendOptions, &opts, arg, 0) < 0)
+        Jsi_OptionsProcess(interp, SockSendOptions, &opts, arg2, 0) < 0)
         return JSI_ERROR;
    /* if (cmdPtr->udp) {
         Jsi_IncrRefCount(interp, arg);
-- 
2.43.0


From d9890e2aabc709dae7237d4684e3eb0367bb6dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:06 +0000
Subject: [PATCH 216/226] fix: sending to a closed connection, or to a
 listening socket, killed the program

---
 src/jsiSocket.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/jsiSocket.c b/src/jsiSocket.c
index 397ffe3..165b509 100644
--- a/src/jsiSocket.c
+++ b/src/jsiSocket.c
@@ -152,6 +152,10 @@ typedef struct SocketObj { /* Per server (or client) data. */
     SocketPss stats; // Server/non-async client pss.
 } SocketObj;
 
+#ifndef MSG_NOSIGNAL
+#define MSG_NOSIGNAL 0
+#endif
+
 static Jsi_RC sock_handler(SocketObj *cmdPtr, callback_reasons reason, SocketPss *pss, char *inPtr, size_t len);
 static Jsi_RC jsk_Service(SocketObj *cmdPtr);
 static Jsi_RC socketObjFree(Jsi_Interp *interp, void *data);
@@ -424,6 +428,8 @@ static Jsi_RC SocketSendCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_thi
     if (Jsi_ValueIsNumber(interp, arg1)) {
         if (sockGetPssId(cmdPtr, arg1, &id) != JSI_OK)
             return JSI_ERROR;
+        if (id == 0 && !cmdPtr->client && !cmdPtr->udp)
+            return Jsi_LogError("invalid id");
     } else if (!Jsi_ValueIsObjType(interp, arg1, JSI_OT_OBJECT)) 
         return Jsi_LogError("expected int id or options object");
     Jsi_Value *arg2 = Jsi_ValueArrayIndex(interp, args, 2);
@@ -493,7 +499,7 @@ static Jsi_RC SocketRecvCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_thi
     int n;
     pss->siLen = sockAddrSize(&pss->recvAddr);
     if (cmdPtr->udp)
-        n = recvfrom(pss->fd, buf, sizeof(buf)-1, cmdPtr->sendFlags, (struct sockaddr*)&pss->recvAddr.sin, &pss->siLen);
+        n = recvfrom(pss->fd, buf, sizeof(buf)-1, cmdPtr->recvFlags, (struct sockaddr*)&pss->recvAddr.sin, &pss->siLen);
     else
         n = recv(pss->fd, buf, sizeof(buf)-1, cmdPtr->recvFlags);
     if (n>0)
@@ -922,7 +928,7 @@ static Jsi_RC jsk_Service(SocketObj *cmdPtr)
                 }
                 uint siLen = sockAddrSize(&pss->recvAddr);
                 if (cmdPtr->udp)
-                    n = recvfrom(pss->fd, buf, sizeof(buf)-1, cmdPtr->sendFlags, (struct sockaddr*)&pss->recvAddr.sin, &siLen);
+                    n = recvfrom(pss->fd, buf, sizeof(buf)-1, cmdPtr->recvFlags, (struct sockaddr*)&pss->recvAddr.sin, &siLen);
                 else
                     n = recv(i, buf, sizeof(buf)-1, cmdPtr->recvFlags);
                 if (n<=0) {
@@ -1073,6 +1079,7 @@ static Jsi_RC SocketConstructor(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *
     cmdPtr->startTime = time(NULL);
     cmdPtr->timeout = 0.5;
     cmdPtr->hasOpts = 1;
+    cmdPtr->sendFlags = MSG_NOSIGNAL; // Sending to a closed connection is an error.
     if ((arg != NULL && !Jsi_ValueIsNull(interp,arg))
         && Jsi_OptionsProcess(interp, SockOptions, cmdPtr, arg, 0) < 0) {
         goto bail;
-- 
2.43.0


From 7ad08777df42926e07592253a89a0c2a10697002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:06 +0000
Subject: [PATCH 217/226] fix: a client socket closed by its peer kept its
 descriptor: a later one of that number was read and closed

---
 src/jsiSocket.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/jsiSocket.c b/src/jsiSocket.c
index 165b509..f38c1d2 100644
--- a/src/jsiSocket.c
+++ b/src/jsiSocket.c
@@ -297,6 +297,8 @@ sockGetPss(SocketObj *cmdPtr, int fd, int create)
 {
     if (fd == cmdPtr->stats.fd)
         return &cmdPtr->stats;
+    if (!cmdPtr->pssTable)
+        return NULL;
     Jsi_HashEntry *hPtr;
     SocketPss* pss;
     bool isNew;
@@ -332,6 +334,8 @@ sockGetPss(SocketObj *cmdPtr, int fd, int create)
 static SocketPss *sockFindPss(SocketObj *cmdPtr, int id) {
     if (id == 0) 
         return &cmdPtr->stats;
+    if (!cmdPtr->pssTable)
+        return NULL;
     SocketPss *tpss = NULL;
     Jsi_HashEntry *hPtr;
     Jsi_HashSearch cursor;
@@ -937,6 +941,7 @@ static Jsi_RC jsk_Service(SocketObj *cmdPtr)
                     close(i);
                     FD_CLR(i, &cmdPtr->readSet);
                     FD_CLR(i, &cmdPtr->writeSet);
+                    pss->fd = -1;
                     sock_handler(cmdPtr, SOCK_CALLBACK_CLOSED, pss, NULL, 0);
                 }
                 buf[sizeof(buf)-1] = 0;
-- 
2.43.0


From 03fe6d3a1f245a89f21547962875551a69d531b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:42 +0000
Subject: [PATCH 218/226] fix: a socket connection deleted while in use by a
 callback was used after free, or kept its descriptor

---
 src/jsiSocket.c | 66 ++++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 55 insertions(+), 11 deletions(-)

diff --git a/src/jsiSocket.c b/src/jsiSocket.c
index f38c1d2..fe9df58 100644
--- a/src/jsiSocket.c
+++ b/src/jsiSocket.c
@@ -87,6 +87,7 @@ typedef struct SocketPss { /* Per session connection to server */
     SockAddrAll recvAddr;
     Jsi_Value *udata;
     uint siLen;
+    struct SocketPss *nextDead;
 } SocketPss;
 
 typedef struct SockSendOpts {
@@ -147,6 +148,8 @@ typedef struct SocketObj { /* Per server (or client) data. */
     char *cl_origin;
     int maxfd;
     fd_set exceptSet, readSet, writeSet;
+    int busy;           // Depth of calls to jsk_Service.
+    SocketPss *dead;    // Connections deleted while busy.
     int sendFlags;
     int recvFlags;
     SocketPss stats; // Server/non-async client pss.
@@ -357,6 +360,18 @@ static Jsi_RC sockFreeStackPss(Jsi_Interp *interp, void *data) {
     return JSI_OK;
 }
 
+static void sockFreeDead(SocketPss *pss)
+{
+    while (pss) {
+        SocketPss *next = pss->nextDead;
+        Jsi_StackFreeElements(pss->cmdPtr->interp, pss->stack, sockFreeStackPss);
+        Jsi_StackFree(pss->stack);
+        Jsi_OptionsFree(pss->cmdPtr->interp, SPSOptions, pss, 0);
+        Jsi_Free(pss);
+        pss = next;
+    }
+}
+
 static void
 sockDeletePss(SocketPss *pss)
 {
@@ -367,12 +382,22 @@ sockDeletePss(SocketPss *pss)
         Jsi_HashEntryDelete(pss->hPtr);
         pss->hPtr = NULL;
     }
-    Jsi_StackFreeElements(pss->cmdPtr->interp, pss->stack, sockFreeStackPss);
-    Jsi_StackFree(pss->stack);
-    Jsi_OptionsFree(pss->cmdPtr->interp, SPSOptions, pss, 0);
-    pss->cmdPtr->connectCnt--;
+    SocketObj *cmdPtr = pss->cmdPtr;
+    if (pss->state == PSS_DEAD)
+        return;
+    if (pss->fd>=0) {
+        FD_CLR(pss->fd, &cmdPtr->writeSet);
+        FD_CLR(pss->fd, &cmdPtr->readSet);
+        close(pss->fd);
+        pss->fd = -1;
+    }
+    cmdPtr->connectCnt--;
     pss->state = PSS_DEAD;
-    Jsi_Free(pss);
+    if (cmdPtr->busy) { // May be in use by a caller.
+        pss->nextDead = cmdPtr->dead;
+        cmdPtr->dead = pss;
+    } else
+        sockFreeDead(pss);
 }
 
 static Jsi_RC SocketConfCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
@@ -875,7 +900,7 @@ static Jsi_RC sock_handler(SocketObj *cmdPtr, callback_reasons reason, SocketPss
 }
 
 
-static Jsi_RC jsk_Service(SocketObj *cmdPtr)
+static Jsi_RC sockService(SocketObj *cmdPtr)
 {
     char buf[JSI_BUFSIZ];
     struct sockaddr_in sin;
@@ -915,10 +940,11 @@ static Jsi_RC jsk_Service(SocketObj *cmdPtr)
                 SocketPss* pss = sockGetPss(cmdPtr, csock, 1);
                 pss->sa.sin = sin;
                 if (sock_handler(cmdPtr, SOCK_CALLBACK_OPEN, pss, NULL, 0) != JSI_OK) {
-                    close(csock);
                     sockDeletePss(pss);
                     continue;
                 }
+                if (pss->state == PSS_DEAD)
+                    continue;
                 if (cmdPtr->debug)
                     fprintf (stderr, "Server: connect %d from host %s, port %d.\n",
                         csock, inet_ntoa(sin.sin_addr), ntohs(sin.sin_port));
@@ -962,10 +988,12 @@ static Jsi_RC jsk_Service(SocketObj *cmdPtr)
                 continue;
             }
             if (sock_handler(cmdPtr, SOCK_CALLBACK_WRITEABLE, pss, NULL, 0) != JSI_OK) {
-                close(pss->fd);
-                FD_CLR(pss->fd, &cmdPtr->writeSet);
-                FD_CLR(pss->fd, &cmdPtr->readSet);
-                pss->fd = -1;
+                if (pss->fd>=0) {
+                    close(pss->fd);
+                    FD_CLR(pss->fd, &cmdPtr->writeSet);
+                    FD_CLR(pss->fd, &cmdPtr->readSet);
+                    pss->fd = -1;
+                }
                 sockDeletePss(pss);
                 if (cmdPtr->udp)
                     goto done;
@@ -981,6 +1009,22 @@ done:
     return rc;
 }
 
+static Jsi_RC jsk_Service(SocketObj *cmdPtr)
+{
+    Jsi_Obj *fobj = cmdPtr->fobj;
+    Jsi_RC rc;
+    if (fobj) Jsi_ObjIncrRefCount(cmdPtr->interp, fobj);
+    cmdPtr->busy++;
+    rc = sockService(cmdPtr);
+    if (--cmdPtr->busy == 0) {
+        SocketPss *dead = cmdPtr->dead;
+        cmdPtr->dead = NULL;
+        sockFreeDead(dead);
+    }
+    if (fobj) Jsi_ObjDecrRefCount(cmdPtr->interp, fobj);
+    return rc;
+}
+
 #define FN_Socket JSI_INFO("\
 Create a socket server or client object.")
 static Jsi_RC SocketConstructor(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
-- 
2.43.0


From 9073351f854861b7a8e9a2d301808c14a4c25f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:42 +0000
Subject: [PATCH 219/226] fix: Socket close(id) and recv(id) ignored the id

---
 src/jsiSocket.c | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/jsiSocket.c b/src/jsiSocket.c
index fe9df58..9cd1203 100644
--- a/src/jsiSocket.c
+++ b/src/jsiSocket.c
@@ -520,9 +520,11 @@ static Jsi_RC SocketRecvCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_thi
 
     SocketPss *pss = &cmdPtr->stats;
     int id = 0, argc = Jsi_ValueGetLength(interp, args);
-    if (argc>1) {
+    if (argc>0) {
         if (sockGetPssId(cmdPtr, Jsi_ValueArrayIndex(interp, args, 0), &id) != JSI_OK)
             return JSI_ERROR;
+        if (!(pss = sockFindPss(cmdPtr, id)))
+            return Jsi_LogError("No such id: %d", id);
     }
     char buf[JSI_BUFSIZ];
     int n;
@@ -554,7 +556,7 @@ static Jsi_RC SocketCloseCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_th
     Jsi_HashEntry *hPtr;
     Jsi_HashSearch cursor;
     int id = 0, argc = Jsi_ValueGetLength(interp, args);
-    if (argc>1) {
+    if (argc>0) {
         if (sockGetPssId(cmdPtr, Jsi_ValueArrayIndex(interp, args, 0), &id) != JSI_OK)
             return JSI_ERROR;
     }
@@ -571,12 +573,7 @@ static Jsi_RC SocketCloseCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_th
             pss = (SocketPss *)Jsi_HashValueGet(hPtr);
             SIGASSERT(pss, SOCKETPSS);
             if ((id==-1 || pss->id == id) && pss->state != PSS_DEAD) {
-                if (pss->fd>=0) {
-                    close(pss->fd);
-                    FD_CLR(pss->fd, &cmdPtr->writeSet);
-                    FD_CLR(pss->fd, &cmdPtr->readSet);
-                    pss->fd = -1;
-                }
+                sockDeletePss(pss);
             }
         }
     }
@@ -1083,7 +1080,7 @@ static Jsi_RC SocketIdsCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this
 static Jsi_CmdSpec sockCmds[] = {
     { "Socket",     SocketConstructor, 0,  1, "options:object=void", .help="Create socket server/client object",
             .retType=(uint)JSI_TT_USEROBJ, .flags=JSI_CMD_IS_CONSTRUCTOR, .info=FN_Socket, .opts=SockOptions },
-    { "close",      SocketCloseCmd,    0,  1, "", .help="Close socket(s)", .retType=(uint)JSI_TT_VOID },
+    { "close",      SocketCloseCmd,    0,  1, "id:number=void", .help="Close socket(s)", .retType=(uint)JSI_TT_VOID },
     { "conf",       SocketConfCmd,     0,  1, "options:string|object=void",.help="Configure options", .retType=(uint)JSI_TT_ANY, .flags=0, .info=0, .opts=SockOptions },
     { "names",      SocketIdsCmd,      0,  0, "", .help="Return list of active ids on server", .retType=(uint)JSI_TT_ARRAY },
     { "idconf",     SocketIdConfCmd,   0,  2, "id:number=void, options:string|object=void",.help="Configure options for a connection id, or return list of ids", .retType=(uint)JSI_TT_ANY, .flags=0, .info=0, .opts=SPSOptions },
-- 
2.43.0


From a58b2f5fcc248f9e2c854a8de66f472ace351b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:03:40 +0000
Subject: [PATCH 220/226] fix: Socket recv() returned data on the stack

---
 src/jsiSocket.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiSocket.c b/src/jsiSocket.c
index 9cd1203..8e43118 100644
--- a/src/jsiSocket.c
+++ b/src/jsiSocket.c
@@ -541,7 +541,7 @@ static Jsi_RC SocketRecvCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_thi
     unsigned char *uptr = (unsigned char*)Jsi_Malloc(n+1);
     memcpy(uptr, buf, n+1);
     uptr[n] = 0;
-    Jsi_ValueMakeBlob(interp, ret, (unsigned char*)buf, n);
+    Jsi_ValueMakeBlob(interp, ret, uptr, n);
     return JSI_OK;
 }
 
-- 
2.43.0


From 59d9bbe9701dab98c199dfcff005ccbc93696979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:03:40 +0000
Subject: [PATCH 221/226] fix: Socket maxConnects had no effect

---
 src/jsiSocket.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/jsiSocket.c b/src/jsiSocket.c
index 8e43118..889346e 100644
--- a/src/jsiSocket.c
+++ b/src/jsiSocket.c
@@ -934,6 +934,10 @@ static Jsi_RC sockService(SocketObj *cmdPtr)
                     perror("accept");
                     goto done;
                 }
+                if (cmdPtr->maxConnects>0 && cmdPtr->connectCnt>=cmdPtr->maxConnects) {
+                    close(csock);
+                    continue;
+                }
                 SocketPss* pss = sockGetPss(cmdPtr, csock, 1);
                 pss->sa.sin = sin;
                 if (sock_handler(cmdPtr, SOCK_CALLBACK_OPEN, pss, NULL, 0) != JSI_OK) {
-- 
2.43.0


From fd9ed84688215634fce41bd6af7fde99fe286a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:18:55 +0000
Subject: [PATCH 222/226] fix: onClose was not called when a connection was
 found to be closed by a failed send

---
 src/jsiSocket.c | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/src/jsiSocket.c b/src/jsiSocket.c
index 889346e..65fd468 100644
--- a/src/jsiSocket.c
+++ b/src/jsiSocket.c
@@ -897,6 +897,18 @@ static Jsi_RC sock_handler(SocketObj *cmdPtr, callback_reasons reason, SocketPss
 }
 
 
+/* The connection is closed by its peer or an error. */
+static void sockLost(SocketObj *cmdPtr, SocketPss *pss)
+{
+    if (pss->fd < 0)
+        return;
+    FD_CLR(pss->fd, &cmdPtr->readSet);
+    FD_CLR(pss->fd, &cmdPtr->writeSet);
+    close(pss->fd);
+    pss->fd = -1;
+    sock_handler(cmdPtr, SOCK_CALLBACK_CLOSED, pss, NULL, 0);
+}
+
 static Jsi_RC sockService(SocketObj *cmdPtr)
 {
     char buf[JSI_BUFSIZ];
@@ -965,17 +977,13 @@ static Jsi_RC sockService(SocketObj *cmdPtr)
                 if (n<=0) {
                     if (cmdPtr->debug)
                         fprintf(stderr, "read failed %d\n", i);
-                    close(i);
-                    FD_CLR(i, &cmdPtr->readSet);
-                    FD_CLR(i, &cmdPtr->writeSet);
-                    pss->fd = -1;
-                    sock_handler(cmdPtr, SOCK_CALLBACK_CLOSED, pss, NULL, 0);
+                    sockLost(cmdPtr, pss);
                 }
                 buf[sizeof(buf)-1] = 0;
                 if (cmdPtr->debug)
                     fprintf(stderr, "Read data(%d): %s\n", n, buf);
                 if (n>0 && sock_handler(cmdPtr, SOCK_CALLBACK_RECEIVE, pss, buf, n) != JSI_OK) {
-                    sockDeletePss(pss);
+                    sockLost(cmdPtr, pss);
                     continue;
                 }
             }
@@ -989,13 +997,7 @@ static Jsi_RC sockService(SocketObj *cmdPtr)
                 continue;
             }
             if (sock_handler(cmdPtr, SOCK_CALLBACK_WRITEABLE, pss, NULL, 0) != JSI_OK) {
-                if (pss->fd>=0) {
-                    close(pss->fd);
-                    FD_CLR(pss->fd, &cmdPtr->writeSet);
-                    FD_CLR(pss->fd, &cmdPtr->readSet);
-                    pss->fd = -1;
-                }
-                sockDeletePss(pss);
+                sockLost(cmdPtr, pss);
                 if (cmdPtr->udp)
                     goto done;
                 continue;
-- 
2.43.0


From 51941fd1e31365008b0adeee7bad2fe9c910e6fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:42:07 +0000
Subject: [PATCH 223/226] fix: Zip module: zip, list, unzip -startDir and
 create with further directories failed or left the archive mounted

---
 lib/Zip.jsi | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/lib/Zip.jsi b/lib/Zip.jsi
index 84d843b..4c54710 100644
--- a/lib/Zip.jsi
+++ b/lib/Zip.jsi
@@ -56,13 +56,15 @@ function Zip(args:string|array, conf:object=void) {
     
     function list(fname:string) {
         fname = File.realpath(fname);
-        if (verbose)
+        if (self.verbose)
             return Zvfs.list(fname);
         if (fname === Info.executable())
             zdir = '/zvfs';
         else
             zdir = Zvfs.mount(fname);
         puts(File.glob('*', {dir:zdir,recurse:true}));
+        if (zdir !== '/zvfs')
+            Zvfs.unmount(zdir);
         return 0;
     }
 
@@ -78,6 +80,7 @@ function Zip(args:string|array, conf:object=void) {
             zdir = '/zvfs';
         else
             zdir = Zvfs.mount(fname);
+        var mdir = zdir;
         if (self.startDir)
             zdir += '/'+self.startDir;
         if (destDir !== '' && destDir.substr(-1,1) != '/')
@@ -96,8 +99,8 @@ function Zip(args:string|array, conf:object=void) {
                 File.mkdir(fdir, true);
             File.write(destDir+fn, File.read(zdir+'/'+fn));
         }
-        if (zdir != '/zvfs')
-            Zvfs.unmount(zdir);
+        if (mdir != '/zvfs')
+            Zvfs.unmount(mdir);
         return 0;
     }
 
@@ -110,7 +113,7 @@ function Zip(args:string|array, conf:object=void) {
         zargs[i++] = zdir;
         for (var n = 3; n<args.length; n++) {
             var ldir = args[n];
-            zargs[i++] = x = File.glob('*', {dir:ldir, recurse:true, prefix:ldir+'/'}).concat([ldir]).sort();
+            zargs[i++] = x = File.glob('*', {dir:ldir, recurse:true, prefix:ldir}).concat([ldir]).sort();
             zargs[i++] = null;
         }
         Zvfs.create.apply({},zargs);
@@ -118,15 +121,15 @@ function Zip(args:string|array, conf:object=void) {
     }
             
     function zip(fname:string, indir:string, ...) {
-        if (argc < 3)
+        if (args.length < 3)
             return usage("too few arguments");
-        else if (argc > 3)
+        else if (args.length > 3)
             return usage("too many arguments");
         if (File.extension(fname) !== '.zip')
             return usage("must give a .zip file name");
         if (File.isfile(fname))
             File.remove(fname);
-        return create.apply(null, args);
+        return create.apply(null, args.slice(1));
     }
     
     var cmdList = {
-- 
2.43.0


From 7d59dd8d101b3f3862f6dd26929d2867bc30de75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:42:07 +0000
Subject: [PATCH 224/226] fix: Csspp: definitions of several lines or with a
 backslash were not recognised, Csspp() could not return its parser

---
 lib/Csspp.jsi | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/Csspp.jsi b/lib/Csspp.jsi
index 9dc9854..f0af4b1 100644
--- a/lib/Csspp.jsi
+++ b/lib/Csspp.jsi
@@ -35,7 +35,8 @@ function Csspp(files:array|string=null, conf:object=undefined):string|object
     var self = {
         vmap:[],            // Set of maps.
         curFile:'',         // Current file being processed.
-        tail:''             // Basename of file.
+        tail:'',            // Basename of file.
+        parse:null
     };
     var ws;
     moduleOpts(options, self);
@@ -64,7 +65,7 @@ function Csspp(files:array|string=null, conf:object=undefined):string|object
     
     // Collect name/replacement pairs into self.vmap to pass in to String.map()
     function reMethod(str:string) {
-        var reg = /^(\$[a-zA-Z0-9_]+)\s*=\s*\{([^\}]*)\}/;
+        var reg = /^(\$[a-zA-Z0-9_]+)\s*=\s*\{([^}]*)\}/;
         var vals = reg.exec(str);
         if (!vals)
             errorCmd("invalid css define: "+str);
@@ -92,7 +93,7 @@ function Csspp(files:array|string=null, conf:object=undefined):string|object
         //debugger;
         files = Util.argArray(files);
         var rc = '';
-        var reg = /^\$[a-zA-Z0-9_]+\s*=\s*\{[^\}]*\}/gm;
+        var reg = /^\$[a-zA-Z0-9_]+\s*=\s*\{([^}]|\s)*\}/gm;
         for (var i in files) {
             self.curFile = files[i];
             self.tail = File.tail(File.rootname(self.curFile));
-- 
2.43.0


From cb10395c0f5245137b9b9bf53623d75abf28c18b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:42:07 +0000
Subject: [PATCH 225/226] fix: Jspp: default values in double quotes gave a
 program that does not parse, Jspp() could not return its parser

---
 lib/Jspp.jsi | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/Jspp.jsi b/lib/Jspp.jsi
index c7e6f93..551c2e9 100644
--- a/lib/Jspp.jsi
+++ b/lib/Jspp.jsi
@@ -33,6 +33,7 @@ function Jspp(files:array|string=null, conf:object=undefined):string|object
         funcIdx:0,          // Func idx.
         curFile:'',         // Current file being processed.
         tail:'',            // Basename of file.
+        parse:null,
         typeNameStr:"number string boolean array function object regexp any userobj void null undefined",
     };
     self.typeNameList = self.typeNameStr.split(' ');
@@ -75,7 +76,7 @@ function Jspp(files:array|string=null, conf:object=undefined):string|object
         var astr = vals[2].trim();
         var rettyp = vals[3].substr(1);
         var cres = '', ncres = '';
-        cres += '$jsig("'+astr+'", arguments )(); ';
+        cres += '$jsig('+JSON.stringify(astr)+', arguments )(); ';
         //res += '/* Fn('+astr+') */ ';
         var acall = [];
         if (astr !== '') {
-- 
2.43.0


From 6c031747724ac757337cc0b1be4664ff5a968135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:42:07 +0000
Subject: [PATCH 226/226] fix: Htmlpp: Htmlpp() could not return its parser,
 .cssi files named a function that does not exist

---
 lib/Htmlpp.jsi | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/Htmlpp.jsi b/lib/Htmlpp.jsi
index 393ff14..024f56d 100644
--- a/lib/Htmlpp.jsi
+++ b/lib/Htmlpp.jsi
@@ -27,6 +27,7 @@ function Htmlpp(files:array|string=null, conf:object=undefined):string|object
         intOpts:{},
         rc:'', files:[], chpos:0, rootdir:'', curdir:'', data:'', errs:'', dir:'',
         jsifiles:[], cssfiles:[], mdfiles:[],
+        parse:null, cssipp:null,
         Trace       :false,
     };
     var ws;
@@ -181,7 +182,7 @@ function Htmlpp(files:array|string=null, conf:object=undefined):string|object
                         pre += Fileread(fn);
                     else {
                         if (!self.cssipp)
-                            self.cssipp = Jsi_Csspp();
+                            self.cssipp = Csspp();
                         pre += self.cssipp.parse([fn]);
                     }
                     pre += end+"\n</style>\n";
-- 
2.43.0

