From f454c0f885ead156af824001e567253629a8e35e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:13 +0000
Subject: [PATCH 01/71] fix: 64-bit integer reads of serialized 8/16/32-bit
 atoms sign-extend and read 4 bytes

osc_atom_s_getInt64 read 'C' and 'U' data as 8 bytes (past the 4-byte datum) and
zero-extended negative 'c', 'u' and 'i' values; osc_atom_s_getUInt64 zero-extended
them too, unlike its unserialized sibling.
---
 osc_atom_s.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/osc_atom_s.c b/osc_atom_s.c
index f6c2cfb..49c9898 100644
--- a/osc_atom_s.c
+++ b/osc_atom_s.c
@@ -230,7 +230,7 @@ int64_t osc_atom_s_getInt64(t_osc_atom_s *a)
 	case 'c':
 	case 'u':
 	case 'i': // signed 32-bit int
-		return ntoh32(*((int32_t *)(a->data)));
+		return (int32_t)ntoh32(*((int32_t *)(a->data)));
 	case 'd': // 64-bit IEEE 754 double
 		{
 			uint64_t i = ntoh64(*((uint64_t *)(a->data)));
@@ -241,10 +241,10 @@ int64_t osc_atom_s_getInt64(t_osc_atom_s *a)
 			uint32_t i = ntoh32(*((uint32_t *)(a->data)));
 			return (int64_t)(*((float *)&i));
 		}
-	case 'I': // unsigned 32-bit int
-		return (int64_t)(ntoh32(*((uint32_t *)(a->data))));
 	case 'C':
 	case 'U':
+	case 'I': // unsigned 32-bit int
+		return (int64_t)(ntoh32(*((uint32_t *)(a->data))));
 	case 'H': // unsigned 64-bit int
 		return (int64_t)(ntoh64(*((uint64_t *)(a->data))));
 	case 's': // string
@@ -325,7 +325,7 @@ uint64_t osc_atom_s_getUInt64(t_osc_atom_s *a){
 	case 'c':
 	case 'u':
 	case 'i': // signed 32-bit int
-		return (uint64_t)(ntoh32(*((int32_t *)(a->data))));
+		return (uint64_t)((int32_t)ntoh32(*((int32_t *)(a->data))));
 	case 'h': // signed 64-bit int
 		return (uint64_t)(ntoh64(*((int64_t *)(a->data))));
 	case 'C':
-- 
2.43.0


From 5f5655d9959ab5c5e5c033942d4221cfed9320fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:14 +0000
Subject: [PATCH 02/71] fix: osc_atom_s_getInt decodes 'c' and 'u' as integers,
 not as float bits

---
 osc_atom_s.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/osc_atom_s.c b/osc_atom_s.c
index 49c9898..0717f62 100644
--- a/osc_atom_s.c
+++ b/osc_atom_s.c
@@ -363,10 +363,10 @@ int osc_atom_s_getInt(t_osc_atom_s *a)
 		return 0;
 	}
 	switch(a->typetag){
-	case 'i': // signed 32-bit int
-		return (int)(ntoh32(*((int32_t *)(a->data))));
 	case 'c':
 	case 'u':
+	case 'i': // signed 32-bit int
+		return (int)(ntoh32(*((int32_t *)(a->data))));
 	case 'f': // 32-bit IEEE 754 float
 		{
 			uint32_t i = ntoh32(*((uint32_t *)(a->data)));
-- 
2.43.0


From 5e20b3fdfe1ddf042ea17c061142e1cb716d7378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:15 +0000
Subject: [PATCH 03/71] fix: osc_atom_s_getTimetag tolerates a NULL atom like
 its siblings

---
 osc_atom_s.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/osc_atom_s.c b/osc_atom_s.c
index 0717f62..8a00343 100644
--- a/osc_atom_s.c
+++ b/osc_atom_s.c
@@ -645,6 +645,9 @@ t_osc_bndl_s *osc_atom_s_getBndlCopy(t_osc_atom_s *a)
 
 t_osc_timetag osc_atom_s_getTimetag(t_osc_atom_s *a)
 {
+	if(!a){
+		return OSC_TIMETAG_NULL;
+	}
 	switch(a->typetag){
 	case OSC_TIMETAG_TYPETAG:
 		//return *((t_osc_timetag *)a->data);
-- 
2.43.0


From 3cd150adb9668a0c5a124dc7e5e824a57ea5e545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:33 +0000
Subject: [PATCH 04/71] fix: serializing an 8- or 16-bit atom writes its value,
 not the bytes stored before it

osc_atom_u_nserialize read the 32-bit union member for 'c', 'C', 'u' and 'U', so the
upper bytes came from whatever the atom held earlier and negative values were not
sign-extended as osc_atom_s_setInt8/16 do.
---
 osc_atom_u.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/osc_atom_u.c b/osc_atom_u.c
index d07407b..87c0c5f 100644
--- a/osc_atom_u.c
+++ b/osc_atom_u.c
@@ -1355,7 +1355,7 @@ size_t osc_atom_u_nserialize(char *buf, size_t n, t_osc_atom_u *a)
 		if(!buf){
 			return 4;
 		}else if(n >= 4){
-			int32_t i = a->w.i;
+			int32_t i = osc_atom_u_getInt32(a);
 			*((int32_t *)buf) = hton32(i);
 			return 4;
 		}
-- 
2.43.0


From 0f3635030bb9da744ec07e260cd6007fbc73cf59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:35 +0000
Subject: [PATCH 05/71] fix: a nested bundle that does not fit is not
 serialized as a timetag

osc_atom_u_nserialize fell through from the bundle case to the timetag case and wrote
eight bytes of the bundle pointer.
---
 osc_atom_u.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/osc_atom_u.c b/osc_atom_u.c
index 87c0c5f..c2a06c6 100644
--- a/osc_atom_u.c
+++ b/osc_atom_u.c
@@ -1401,6 +1401,7 @@ size_t osc_atom_u_nserialize(char *buf, size_t n, t_osc_atom_u *a)
 				return osc_bundle_u_nserialize(buf + 4, len, a->w.bndl) + 4;
 			}
 		}
+		break;
 	case OSC_TIMETAG_TYPETAG:
 		if(!buf){
 			return OSC_TIMETAG_SIZEOF;
-- 
2.43.0


From 4cb77780830d830d8db4e3161cb1ada336ca2464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:51 +0000
Subject: [PATCH 06/71] fix: dividing 8-bit unsigned values is unsigned 8-bit

---
 osc_expr.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index a65e306..ebeeb97 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -2619,11 +2619,11 @@ int osc_expr_divide(t_osc_atom_u *f1, t_osc_atom_u *f2, t_osc_atom_u **result, v
 				break;
 			case 'C':
 				{
-					int8_t i2 = osc_atom_u_getInt8(f2);
+					uint8_t i2 = osc_atom_u_getUInt8(f2);
 					if(i2 == 0){
 						osc_atom_u_setString(*result, "Inf");
 					}else{
-						osc_atom_u_setInt8(*result, osc_atom_u_getInt8(f1) / i2);
+						osc_atom_u_setUInt8(*result, osc_atom_u_getUInt8(f1) / i2);
 					}
 				}
 				break;
-- 
2.43.0


From d4710f7a227f4b75925e61a1df08b90542048c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:53 +0000
Subject: [PATCH 07/71] fix: dividing the smallest integer by -1 does not trap

---
 osc_expr.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index ebeeb97..24ca25e 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -2553,7 +2553,9 @@ int osc_expr_divide(t_osc_atom_u *f1, t_osc_atom_u *f2, t_osc_atom_u **result, v
 					if(i2 == 0){
 						osc_atom_u_setString(*result, "Inf");
 					}else{
-						osc_atom_u_setInt32(*result, osc_atom_u_getInt32(f1) / i2);
+						// INT32_MIN / -1 overflows, which traps
+						int32_t i1 = osc_atom_u_getInt32(f1);
+						osc_atom_u_setInt32(*result, i2 == -1 ? (int32_t)(0 - (uint32_t)i1) : i1 / i2);
 					}
 				}
 				break;
@@ -2573,7 +2575,9 @@ int osc_expr_divide(t_osc_atom_u *f1, t_osc_atom_u *f2, t_osc_atom_u **result, v
 					if(i2 == 0){
 						osc_atom_u_setString(*result, "Inf");
 					}else{
-						osc_atom_u_setInt64(*result, osc_atom_u_getInt64(f1) / i2);
+						// INT64_MIN / -1 overflows, which traps
+						int64_t i1 = osc_atom_u_getInt64(f1);
+						osc_atom_u_setInt64(*result, i2 == -1 ? (int64_t)(0 - (uint64_t)i1) : i1 / i2);
 					}
 				}
 				break;
-- 
2.43.0


From c5b2b94fd5b9fa79beebece969ad05d956b10817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:54 +0000
Subject: [PATCH 08/71] fix: integer subtraction keeps the wider operand type,
 like + * and /

---
 osc_expr.c | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/osc_expr.c b/osc_expr.c
index 24ca25e..ffe8b84 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -2432,7 +2432,33 @@ int osc_expr_subtract(t_osc_atom_u *f1, t_osc_atom_u *f2, t_osc_atom_u **result,
 		if(OSC_TYPETAG_ISFLOAT(tt1) || OSC_TYPETAG_ISFLOAT(tt2)){
 			osc_atom_u_setDouble(*result, osc_atom_u_getDouble(f1) - osc_atom_u_getDouble(f2));
 		}else{
-			osc_atom_u_setInt32(*result, osc_atom_u_getInt32(f1) - osc_atom_u_getInt32(f2));
+			char tt = osc_typetag_compare(tt1, tt2) > 0 ? tt1 : tt2;
+			switch(tt){
+			case 'i':
+				osc_atom_u_setInt32(*result, osc_atom_u_getInt32(f1) - osc_atom_u_getInt32(f2));
+				break;
+			case 'I':
+				osc_atom_u_setUInt32(*result, osc_atom_u_getUInt32(f1) - osc_atom_u_getUInt32(f2));
+				break;
+			case 'h':
+				osc_atom_u_setInt64(*result, osc_atom_u_getInt64(f1) - osc_atom_u_getInt64(f2));
+				break;
+			case 'H':
+				osc_atom_u_setUInt64(*result, osc_atom_u_getUInt64(f1) - osc_atom_u_getUInt64(f2));
+				break;
+			case 'u':
+				osc_atom_u_setInt16(*result, osc_atom_u_getInt16(f1) - osc_atom_u_getInt16(f2));
+				break;
+			case 'U':
+				osc_atom_u_setUInt16(*result, osc_atom_u_getUInt16(f1) - osc_atom_u_getUInt16(f2));
+				break;
+			case 'c':
+				osc_atom_u_setInt8(*result, osc_atom_u_getInt8(f1) - osc_atom_u_getInt8(f2));
+				break;
+			case 'C':
+				osc_atom_u_setUInt8(*result, osc_atom_u_getUInt8(f1) - osc_atom_u_getUInt8(f2));
+				break;
+			}
 		}
 	}else if(tt1 == OSC_TIMETAG_TYPETAG || tt2 == OSC_TIMETAG_TYPETAG){
 		t_osc_timetag timetag1, timetag2;
-- 
2.43.0


From b586fecab976d916c83cb50bc5a41d4884070f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:55 +0000
Subject: [PATCH 09/71] fix: nil is comparable with != as it is with ==

---
 osc_expr.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/osc_expr.c b/osc_expr.c
index ffe8b84..6aa1112 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -2873,6 +2873,10 @@ int osc_expr_neq(t_osc_atom_u *f1, t_osc_atom_u *f2, t_osc_atom_u **result, void
 	}else if((tt1 == OSC_TIMETAG_TYPETAG || OSC_TYPETAG_ISNUMERIC(tt1)) &&
 		 (tt2 == OSC_TIMETAG_TYPETAG || OSC_TYPETAG_ISNUMERIC(tt2))){
 		osc_atom_u_setBool(*result, osc_expr_compareTimetag(f1, f2) != 0);
+	}else if(tt1 == 'N' && tt2 == 'N'){
+		osc_atom_u_setBool(*result, 0);
+	}else if(tt1 == 'N' || tt2 == 'N'){
+		osc_atom_u_setBool(*result, 1);
 	}else if(tt1 == OSC_BUNDLE_TYPETAG && tt2 == OSC_BUNDLE_TYPETAG){
 		t_osc_bndl_u *b1 = osc_atom_u_getBndl(f1);
 		t_osc_bndl_u *b2 = osc_atom_u_getBndl(f2);
-- 
2.43.0


From b67f87d5cd7b76ef6952a8fe8ac1d553cebc5756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:16 +0000
Subject: [PATCH 10/71] fix: ++ and -- keep 64-bit, unsigned, 8- and 16-bit
 types

---
 osc_expr.c | 32 ++++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index 6aa1112..bcc8f6b 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -3187,14 +3187,26 @@ int osc_expr_plus1(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_a
 			osc_atom_u_setDouble(osc_atom_array_u_get(*out, i), osc_atom_u_getDouble(a) + 1);
 			break;
 		case 'h':
-			osc_atom_u_setUInt32(osc_atom_array_u_get(*out, i), osc_atom_u_getUInt32(a) + 1);
+			osc_atom_u_setInt64(osc_atom_array_u_get(*out, i), osc_atom_u_getInt64(a) + 1);
 			break;
 		case 'I':
-			osc_atom_u_setInt64(osc_atom_array_u_get(*out, i), osc_atom_u_getInt64(a) + 1);
+			osc_atom_u_setUInt32(osc_atom_array_u_get(*out, i), osc_atom_u_getUInt32(a) + 1);
 			break;
 		case 'H':
 			osc_atom_u_setUInt64(osc_atom_array_u_get(*out, i), osc_atom_u_getUInt64(a) + 1);
 			break;
+		case 'c':
+			osc_atom_u_setInt8(osc_atom_array_u_get(*out, i), osc_atom_u_getInt8(a) + 1);
+			break;
+		case 'C':
+			osc_atom_u_setUInt8(osc_atom_array_u_get(*out, i), osc_atom_u_getUInt8(a) + 1);
+			break;
+		case 'u':
+			osc_atom_u_setInt16(osc_atom_array_u_get(*out, i), osc_atom_u_getInt16(a) + 1);
+			break;
+		case 'U':
+			osc_atom_u_setUInt16(osc_atom_array_u_get(*out, i), osc_atom_u_getUInt16(a) + 1);
+			break;
 		}
 	}
 	return 0;
@@ -3220,14 +3232,26 @@ int osc_expr_minus1(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_
 			osc_atom_u_setDouble(osc_atom_array_u_get(*out, i), osc_atom_u_getDouble(a) - 1);
 			break;
 		case 'h':
-			osc_atom_u_setUInt32(osc_atom_array_u_get(*out, i), osc_atom_u_getUInt32(a) - 1);
+			osc_atom_u_setInt64(osc_atom_array_u_get(*out, i), osc_atom_u_getInt64(a) - 1);
 			break;
 		case 'I':
-			osc_atom_u_setInt64(osc_atom_array_u_get(*out, i), osc_atom_u_getInt64(a) - 1);
+			osc_atom_u_setUInt32(osc_atom_array_u_get(*out, i), osc_atom_u_getUInt32(a) - 1);
 			break;
 		case 'H':
 			osc_atom_u_setUInt64(osc_atom_array_u_get(*out, i), osc_atom_u_getUInt64(a) - 1);
 			break;
+		case 'c':
+			osc_atom_u_setInt8(osc_atom_array_u_get(*out, i), osc_atom_u_getInt8(a) - 1);
+			break;
+		case 'C':
+			osc_atom_u_setUInt8(osc_atom_array_u_get(*out, i), osc_atom_u_getUInt8(a) - 1);
+			break;
+		case 'u':
+			osc_atom_u_setInt16(osc_atom_array_u_get(*out, i), osc_atom_u_getInt16(a) - 1);
+			break;
+		case 'U':
+			osc_atom_u_setUInt16(osc_atom_array_u_get(*out, i), osc_atom_u_getUInt16(a) - 1);
+			break;
 		}
 	}
 	return 0;
-- 
2.43.0


From 9a5a85dc726e4ddd630d4cfa07ac8d311da74e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:18 +0000
Subject: [PATCH 11/71] fix: arithmetic on two booleans gives an int32 result
 instead of an untyped one

---
 osc_expr.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/osc_expr.c b/osc_expr.c
index bcc8f6b..49df3cd 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -2380,6 +2380,7 @@ int osc_expr_add(t_osc_atom_u *f1, t_osc_atom_u *f2, t_osc_atom_u **result, void
 		}else{
 			char tt = osc_typetag_compare(tt1, tt2) > 0 ? tt1 : tt2;
 			switch(tt){
+			default: // booleans
 			case 'i':
 				osc_atom_u_setInt32(*result, osc_atom_u_getInt32(f1) + osc_atom_u_getInt32(f2));
 				break;
@@ -2434,6 +2435,7 @@ int osc_expr_subtract(t_osc_atom_u *f1, t_osc_atom_u *f2, t_osc_atom_u **result,
 		}else{
 			char tt = osc_typetag_compare(tt1, tt2) > 0 ? tt1 : tt2;
 			switch(tt){
+			default: // booleans
 			case 'i':
 				osc_atom_u_setInt32(*result, osc_atom_u_getInt32(f1) - osc_atom_u_getInt32(f2));
 				break;
@@ -2508,6 +2510,7 @@ int osc_expr_multiply(t_osc_atom_u *f1, t_osc_atom_u *f2, t_osc_atom_u **result,
 		}else{
 			char tt = osc_typetag_compare(tt1, tt2) > 0 ? tt1 : tt2;
 			switch(tt){
+			default: // booleans
 			case 'i':
 				osc_atom_u_setInt32(*result, osc_atom_u_getInt32(f1) * osc_atom_u_getInt32(f2));
 				break;
@@ -2573,6 +2576,7 @@ int osc_expr_divide(t_osc_atom_u *f1, t_osc_atom_u *f2, t_osc_atom_u **result, v
 			// }
 			char tt = osc_typetag_compare(tt1, tt2) > 0 ? tt1 : tt2;
 			switch(tt){
+			default: // booleans
 			case 'i':
 				{
 					int32_t i2 = osc_atom_u_getInt32(f2);
-- 
2.43.0


From 9c702d9a545f1ccf668d0ea0df02a0f719362ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:41 +0000
Subject: [PATCH 12/71] fix: inserting an argument at the end terminates the
 list even if it was linked elsewhere before

---
 osc_message_u.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/osc_message_u.c b/osc_message_u.c
index 15994ac..b0ed4d6 100644
--- a/osc_message_u.c
+++ b/osc_message_u.c
@@ -279,6 +279,7 @@ t_osc_err osc_message_u_insertAtom(t_osc_msg_u *m, t_osc_atom_u *a, int pos)
 			m->argtail->next = a;
 		}
 		a->prev = m->argtail;
+		a->next = NULL;
 		m->argtail = a;
 		goto out;
 	}
-- 
2.43.0


From 43d962b15e5d4c4df27268cd2bac0f45827276e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:41 +0000
Subject: [PATCH 13/71] fix: prepending or inserting text does not leak a
 second copy of it

---
 osc_message_u.c | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/osc_message_u.c b/osc_message_u.c
index b0ed4d6..2bf5d48 100644
--- a/osc_message_u.c
+++ b/osc_message_u.c
@@ -596,10 +596,7 @@ t_osc_atom_u *osc_message_u_prependStringPtr(t_osc_msg_u *m, char *v)
 t_osc_atom_u *osc_message_u_prependString(t_osc_msg_u *m, char *v)
 {
 	t_osc_atom_u *a = osc_atom_u_alloc();
-	int len = strlen(v);
-	char *buf = osc_mem_alloc(len + 1);
-	strncpy(buf, v, len + 1);
-	osc_atom_u_setString(a, buf);
+	osc_atom_u_setString(a, v);
 	osc_message_u_prependAtom(m, a);
 	return a;
 }
@@ -765,10 +762,7 @@ t_osc_atom_u *osc_message_u_insertStringPtr(t_osc_msg_u *m, char *v, int pos)
 t_osc_atom_u *osc_message_u_insertString(t_osc_msg_u *m, char *v, int pos)
 {
 	t_osc_atom_u *a = osc_atom_u_alloc();
-	int len = strlen(v);
-	char *buf = osc_mem_alloc(len + 1);
-	strncpy(buf, v, len + 1);
-	osc_atom_u_setString(a, buf);
+	osc_atom_u_setString(a, v);
 	osc_message_u_insertAtom(m, a, pos);
 	return a;
 }
-- 
2.43.0


From d3b63f7136c52536aadd46c499259da4a612fd61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:41 +0000
Subject: [PATCH 14/71] fix: insertStringPtr references the given text like its
 append and prepend siblings

---
 osc_message_u.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/osc_message_u.c b/osc_message_u.c
index 2bf5d48..b7b9a04 100644
--- a/osc_message_u.c
+++ b/osc_message_u.c
@@ -754,7 +754,7 @@ t_osc_atom_u *osc_message_u_insertDouble(t_osc_msg_u *m, double v, int pos)
 t_osc_atom_u *osc_message_u_insertStringPtr(t_osc_msg_u *m, char *v, int pos)
 {
 	t_osc_atom_u *a = osc_atom_u_alloc();
-	osc_atom_u_setString(a, v);
+	osc_atom_u_setStringPtr(a, v);
 	osc_message_u_insertAtom(m, a, pos);
 	return a;
 }
-- 
2.43.0


From 12762dd4cae92b5cb7cf13afed73bbe4e524ea27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:41 +0000
Subject: [PATCH 15/71] fix: removing a message's address releases it

---
 osc_message_u.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/osc_message_u.c b/osc_message_u.c
index b7b9a04..1965999 100644
--- a/osc_message_u.c
+++ b/osc_message_u.c
@@ -171,6 +171,9 @@ t_osc_err osc_message_u_setAddress(t_osc_msg_u *m, const char *address)
 		return OSC_ERR_INVAL;
 	}
 	if(!address){
+		if(m->address){
+			osc_mem_free(m->address);
+		}
 		m->address = NULL;
 		return OSC_ERR_NONE;
 	}
-- 
2.43.0


From 3fe5fc98a5c36e2329821d8b1f11e2b6e14dd09c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:51 +0000
Subject: [PATCH 16/71] fix: an argument holding a blob owns it and releases it
 as a blob

---
 osc_atom_array_u.c | 4 ++++
 osc_atom_u.c       | 4 +++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/osc_atom_array_u.c b/osc_atom_array_u.c
index f4f1adc..8064ca7 100644
--- a/osc_atom_array_u.c
+++ b/osc_atom_array_u.c
@@ -52,6 +52,10 @@ void osc_atom_array_u_free(t_osc_atom_ar_u *ar)
 				if(a->w.bndl){
 					osc_bundle_u_free(a->w.bndl);
 				}
+			}else if(a->alloc && a->typetag == 'b'){
+				if(a->w.b){
+					osc_mem_free(a->w.b);
+				}
 			}
 		}
 		osc_array_free(ar);
diff --git a/osc_atom_u.c b/osc_atom_u.c
index c2a06c6..189d5ba 100644
--- a/osc_atom_u.c
+++ b/osc_atom_u.c
@@ -97,6 +97,7 @@ void osc_atom_u_copyInto(t_osc_atom_u **dest, t_osc_atom_u *src)
         int32_t size = osc_util_getPaddingForNBytes(len);
         aa->w.s = osc_mem_alloc(size + 4);
         memcpy(aa->w.b, src->w.b, len + 4);
+        aa->alloc = 1;
     }
         break;
         default:
@@ -134,7 +135,7 @@ void osc_atom_u_clear(t_osc_atom_u *a)
 		osc_bundle_u_free(a->w.bndl);
 		a->w.bndl = NULL;
 	}else if(a->alloc && a->typetag == 'b' && a->w.b){
-        osc_bundle_u_free(a->w.b);
+        osc_mem_free(a->w.b);
         a->w.b = NULL;
     }
 	a->alloc = 0;
@@ -1237,6 +1238,7 @@ void osc_atom_u_setBlob(t_osc_atom_u *a, char *blob)
 	memcpy(copy, blob, l + 4);
 	a->w.b = copy;
 	a->typetag = 'b';
+	a->alloc = 1;
 }
 
 void osc_atom_u_setBlobPtr(t_osc_atom_u *a, char *blob)
-- 
2.43.0


From 4f98dab5c5091322c3354d365d2b0d4ac9a3dde0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:51 +0000
Subject: [PATCH 17/71] fix: a copy of an argument owns its copy of the text

---
 osc_atom_u.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/osc_atom_u.c b/osc_atom_u.c
index 189d5ba..f56640a 100644
--- a/osc_atom_u.c
+++ b/osc_atom_u.c
@@ -86,6 +86,7 @@ void osc_atom_u_copyInto(t_osc_atom_u **dest, t_osc_atom_u *src)
         case 's':
             aa->w.s = osc_mem_alloc(strlen(src->w.s) + 1);
             strcpy(aa->w.s, src->w.s);
+            aa->alloc = 1;
         break;
         case OSC_BUNDLE_TYPETAG:
             aa->w.bndl = NULL;
-- 
2.43.0


From 3739198ed4034cb03ebfa946d8f1e552d93f1d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:51 +0000
Subject: [PATCH 18/71] fix: storing text in an argument releases what it held
 before

---
 osc_atom_u.c | 27 ++++++++++-----------------
 1 file changed, 10 insertions(+), 17 deletions(-)

diff --git a/osc_atom_u.c b/osc_atom_u.c
index f56640a..bd9a7bd 100644
--- a/osc_atom_u.c
+++ b/osc_atom_u.c
@@ -1114,23 +1114,16 @@ void osc_atom_u_setString(t_osc_atom_u *a, const char *v)
 	if(!a){
 		return;
 	}
-	if(a->w.s && a->typetag == 's' && a->alloc){
-		if(v){
-			long len = strlen(v) + 1;
-			a->w.s = osc_mem_resize(a->w.s, len);
-			strncpy(a->w.s, v, len);
-		}else{
-			a->w.s = NULL;
-		}
-	}else{
-		if(v){
-			a->w.s = osc_mem_alloc(strlen(v) + 1);
-			strcpy(a->w.s, v);
-			a->typetag = 's';
-			a->alloc = 1;
-		}else{
-			a->w.s = NULL;
-		}
+	char *copy = NULL;
+	if(v){
+		copy = osc_mem_alloc(strlen(v) + 1);
+		strcpy(copy, v);
+	}
+	osc_atom_u_clear(a);
+	a->w.s = copy;
+	if(copy){
+		a->typetag = 's';
+		a->alloc = 1;
 	}
 }
 
-- 
2.43.0


From 699970681cdbc197b3147845ea0bcaeda698f7ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:51 +0000
Subject: [PATCH 19/71] fix: storing a bundle in an argument releases what it
 held before

---
 osc_atom_u.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/osc_atom_u.c b/osc_atom_u.c
index bd9a7bd..fb4fa86 100644
--- a/osc_atom_u.c
+++ b/osc_atom_u.c
@@ -1202,6 +1202,12 @@ void osc_atom_u_setBndl_s(t_osc_atom_u *a, long len, char *ptr)
 
 void osc_atom_u_setBndl_u(t_osc_atom_u *a, t_osc_bndl_u *b)
 {
+	if(!a){
+		return;
+	}
+	if(a->typetag != OSC_BUNDLE_TYPETAG || a->w.bndl != b){
+		osc_atom_u_clear(a);
+	}
 	a->w.bndl = b;
 	a->typetag = OSC_BUNDLE_TYPETAG;
 }
-- 
2.43.0


From 210209fcfb506261d6a8a750ff2b240f60632a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:51 +0000
Subject: [PATCH 20/71] fix: copying an array into a shorter one grows the
 destination

---
 osc_array.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/osc_array.c b/osc_array.c
index 65dce79..5410284 100644
--- a/osc_array.c
+++ b/osc_array.c
@@ -105,14 +105,13 @@ t_osc_err osc_array_copyInto(t_osc_array **dest, t_osc_array *src, long offset)
 	long srcsize = src->membersize;
 	long srclen_bytes = srclen * srcsize;
 	long destlen = srclen + offset;
-	long destlen_bytes = destlen * srcsize;
 	if(!(*dest)){
 		*dest = osc_array_allocWithSize(destlen, srcsize);
 	}else{
-		if(destlen_bytes < srclen_bytes){
-			(*dest)->ar = osc_mem_resize((*dest)->ar, destlen_bytes);
-			if(!((*dest)->ar)){
-				return OSC_ERR_OUTOFMEM;
+		if((*dest)->len < destlen){
+			t_osc_err e = osc_array_resize(*dest, destlen);
+			if(e){
+				return e;
 			}
 		}
 	}
-- 
2.43.0


From 26c2b194f336b3247e7c5a199ce27168355ed79b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:51 +0000
Subject: [PATCH 21/71] fix: joining the texts of an array reserves room for
 separators and the terminator

---
 osc_atom_array_u.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/osc_atom_array_u.c b/osc_atom_array_u.c
index 8064ca7..850dda1 100644
--- a/osc_atom_array_u.c
+++ b/osc_atom_array_u.c
@@ -169,9 +169,9 @@ t_osc_err osc_atom_array_u_getStringArray(t_osc_atom_ar_u *array, long *len, cha
 	int i;
 	for(i = 0; i < arlen; i++){
 		int n = osc_atom_u_getStringLen(osc_atom_array_u_get(array, i));
-		if((buflen - (ptr - *out)) < n){
+		if((buflen - (ptr - *out)) < n + seplen + 1){
 			long offset = ptr - *out;
-			int nbytes = n * (arlen - i) + 1; // assume the rest of the atoms are the same size
+			int nbytes = (n + seplen) * (arlen - i) + 1; // assume the rest of the atoms are the same size
 			char *tmp = osc_mem_resize(*out, buflen + nbytes);
 			if(tmp){
 				*out = tmp;
-- 
2.43.0


From b0aa81997d6aedd372f99f5ae96fe6b05695c1bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:51 +0000
Subject: [PATCH 22/71] fix: the text length of an unsigned 8-bit argument is
 the length of the text produced for it

---
 osc_atom_u.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/osc_atom_u.c b/osc_atom_u.c
index fb4fa86..9e0bad6 100644
--- a/osc_atom_u.c
+++ b/osc_atom_u.c
@@ -740,7 +740,7 @@ int osc_atom_u_getStringLen(t_osc_atom_u *a)
 	case 'c': // signed 8-bit int
 		return osc_strfmt_int8(NULL, 0, a->w.c);
 	case 'C': // unsigned 8-bit int
-		return osc_strfmt_uint32(NULL, 0, a->w.C);
+		return osc_strfmt_uint8(NULL, 0, a->w.C);
 	case 'u': // signed 16-bit int
 		return osc_strfmt_int16(NULL, 0, a->w.u);
 	case 'U': // unsigned 16-bit int
-- 
2.43.0


From c661c1b8902309d43e9c33ca2b7458a97e68b03a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:45 +0000
Subject: [PATCH 23/71] fix: linking a message behind another sets both links,
 so it can be removed from a parsed bundle

---
 osc_message_u.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/osc_message_u.c b/osc_message_u.c
index 1965999..7c00261 100644
--- a/osc_message_u.c
+++ b/osc_message_u.c
@@ -155,6 +155,9 @@ void osc_message_u_append(t_osc_msg_u *m1, t_osc_msg_u *m2)
 		m1 = m1->next;
 	}
 	m1->next = m2;
+	if(m2){
+		m2->prev = m1;
+	}
 }
 
 char *osc_message_u_getAddress(t_osc_msg_u *m)
-- 
2.43.0


From ee8f47ec5d9bbbd7a5afd4da1ea67e742cd20eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:51 +0000
Subject: [PATCH 24/71] fix: removing a message from a bundle keeps the message
 count right

---
 osc_bundle_u.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/osc_bundle_u.c b/osc_bundle_u.c
index 3234705..94d10c7 100644
--- a/osc_bundle_u.c
+++ b/osc_bundle_u.c
@@ -263,7 +263,6 @@ static t_osc_err osc_bundle_u_addMsg_impl(t_osc_bndl_u *bndl, t_osc_msg_u *msg,
 				if(messageaddr && !strcmp(address, messageaddr)){
 					osc_bundle_u_removeMsg(bndl, m);
 					osc_message_u_free(m);
-					bndl->msgcount--;
 				}
 				m = next;
 			}
@@ -410,6 +409,7 @@ t_osc_err osc_bundle_u_removeMsg(t_osc_bndl_u *bndl, t_osc_msg_u *m)
 	if(m == bndl->msgtail){
 		bndl->msgtail = m->prev;
 	}
+	bndl->msgcount--;
 	return OSC_ERR_NONE;
 }
 
@@ -422,7 +422,6 @@ void osc_bundle_u_removeMessage(t_osc_bndl_u * bndl, const char *address)
             if(!strcmp(address, osc_message_u_getAddress(m))){
                 osc_bundle_u_removeMsg(bndl, m);
                 osc_message_u_free(m);
-                bndl->msgcount--;
             }
             m = next;
         }
-- 
2.43.0


From 24789fa11fa579c4dcbf49b43aadb102b810bf5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:51 +0000
Subject: [PATCH 25/71] fix: messages without an address are skipped when
 replacing, removing and looking up by address

---
 osc_bundle_u.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/osc_bundle_u.c b/osc_bundle_u.c
index 94d10c7..8c587d2 100644
--- a/osc_bundle_u.c
+++ b/osc_bundle_u.c
@@ -228,6 +228,9 @@ t_osc_msg_ar_u *osc_bundle_u_lookupAddress(t_osc_bndl_u *bndl, const char *addre
 		}
 		t_osc_msg_u *current_message = osc_bndl_it_u_next(it);
 		int po, ao;
+		if(!osc_message_u_getAddress(current_message)){
+			continue;
+		}
 		int r = osc_match(address, osc_message_u_getAddress(current_message), &po, &ao);
 		if(fullmatch){
 			if(r != (OSC_MATCH_ADDRESS_COMPLETE | OSC_MATCH_PATTERN_COMPLETE)){
@@ -275,7 +278,8 @@ static t_osc_err osc_bundle_u_addMsg_impl(t_osc_bndl_u *bndl, t_osc_msg_u *msg,
             t_osc_msg_u *m = bndl->msghead;
             while(m){
                 t_osc_msg_u *next = m->next;
-                if(!strcmp(address, osc_message_u_getAddress(m))){
+                const char * const messageaddr = osc_message_u_getAddress(m);
+                if(messageaddr && !strcmp(address, messageaddr)){
                     // later maybe try to maintain memmory location if the value is a bundle?
                     // in that case we might not clear first, but copy the new value into the bundle at this message
                     t_osc_msg_u * next = m->next;
@@ -419,7 +423,8 @@ void osc_bundle_u_removeMessage(t_osc_bndl_u * bndl, const char *address)
         t_osc_msg_u *m = bndl->msghead;
         while(m){
             t_osc_msg_u *next = m->next;
-            if(!strcmp(address, osc_message_u_getAddress(m))){
+            const char * const messageaddr = osc_message_u_getAddress(m);
+            if(messageaddr && !strcmp(address, messageaddr)){
                 osc_bundle_u_removeMsg(bndl, m);
                 osc_message_u_free(m);
             }
-- 
2.43.0


From ce52a29a3f78ec4582be31a954ebd5f056af84d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:51 +0000
Subject: [PATCH 26/71] fix: copying a message into an existing one releases
 what that held

---
 osc_message_u.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/osc_message_u.c b/osc_message_u.c
index 7c00261..0f66182 100644
--- a/osc_message_u.c
+++ b/osc_message_u.c
@@ -105,8 +105,14 @@ t_osc_err osc_message_u_deepCopy(t_osc_msg_u **dest, t_osc_msg_u *src)
 	if(!src){
 		return OSC_ERR_NULLPTR;
 	}
+	if(*dest == src){
+		return OSC_ERR_NONE;
+	}
 	if(!(*dest)){
 		*dest = osc_message_u_alloc();
+	}else{
+		osc_message_u_clearArgs(*dest);
+		osc_message_u_setAddress(*dest, NULL);
 	}
 	(*dest)->size = src->size;
 	(*dest)->argc = 0;
-- 
2.43.0


From 47420be66fe03d3c2439f34ee2b06216bebf9c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:51 +0000
Subject: [PATCH 27/71] fix: adding a list of messages to a bundle keeps the
 messages it already holds

---
 osc_bundle_u.c | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/osc_bundle_u.c b/osc_bundle_u.c
index 8c587d2..04a3a42 100644
--- a/osc_bundle_u.c
+++ b/osc_bundle_u.c
@@ -383,17 +383,12 @@ t_osc_err osc_bundle_u_addMsgList(t_osc_bndl_u *bndl, t_osc_msg_u *msgs)
 	if(!bndl){
 		return OSC_ERR_NOBUNDLE;
 	}
-	int n = 0;
-	t_osc_msg_u *last = msgs;
-	bndl->msghead = msgs;
 	while(msgs){
-		n++;
-		last = msgs;
-		msgs = osc_message_u_next(msgs);
+		t_osc_msg_u *next = osc_message_u_next(msgs);
+		osc_bundle_u_addMsg(bndl, msgs);
+		msgs = next;
 	}
-	bndl->msgcount = n;
-	bndl->msgtail = last;
-	return 0;
+	return OSC_ERR_NONE;
 }
 
 t_osc_err osc_bundle_u_removeMsg(t_osc_bndl_u *bndl, t_osc_msg_u *m)
-- 
2.43.0


From 1c463335d34d6e07ae449754c56db3bf332314d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:51 +0000
Subject: [PATCH 28/71] fix: flattening a bundle does not read an argument
 after releasing it

---
 osc_bundle_u.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/osc_bundle_u.c b/osc_bundle_u.c
index 04a3a42..35b1c01 100644
--- a/osc_bundle_u.c
+++ b/osc_bundle_u.c
@@ -448,9 +448,9 @@ static t_osc_err osc_bundle_u_flatten_impl(t_osc_bndl_u **dest,
 		t_osc_msg_u *mcopy = NULL;
 		osc_message_u_deepCopy(&mcopy, m);
 		if((level < maxlevel) || (maxlevel <= 0)){
-			t_osc_msg_it_u *mit = osc_msg_it_u_get(mcopy);
-			while(osc_msg_it_u_hasNext(mit)){
-				t_osc_atom_u *a = osc_msg_it_u_next(mit);
+			t_osc_atom_u *next = NULL;
+			for(t_osc_atom_u *a = mcopy->arghead; a; a = next){
+				next = a->next;
 				if(osc_atom_u_getTypetag(a) == OSC_BUNDLE_TYPETAG){
 					osc_message_u_removeAtom(mcopy, a);
 					t_osc_bndl_u *bu = osc_atom_u_getBndl(a);
@@ -487,7 +487,6 @@ static t_osc_err osc_bundle_u_flatten_impl(t_osc_bndl_u **dest,
 					osc_atom_u_free(a);
 				}
 			}
-			osc_msg_it_u_destroy(mit);
 		}
 		if(!remove_enclosing_address_if_empty || osc_message_u_getArgCount(mcopy) > 0){
 			if(prefix){
-- 
2.43.0


From d86d66b4d09db3c4e2dee613aad17729caa61de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:41 +0000
Subject: [PATCH 29/71] fix: the sanity check of a bundle does not read past
 its end or overflow on huge message sizes

---
 osc_error.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/osc_error.c b/osc_error.c
index 0d0df92..e62406d 100644
--- a/osc_error.c
+++ b/osc_error.c
@@ -149,11 +149,14 @@ t_osc_err osc_error_bundleSanityCheck(int len, char *bundle)
 	int cumsize = OSC_HEADER_SIZE;
 	while((ptr - bundle) < len){
 		cumsize += 4; // msg size
-		int size = ntoh32(*((uint32_t *)ptr));
-		cumsize += size;
 		if(cumsize > len){
 			return OSC_ERR_MSGTOOLARGE;
 		}
+		int size = ntoh32(*((uint32_t *)ptr));
+		if(size > len - cumsize){
+			return OSC_ERR_MSGTOOLARGE;
+		}
+		cumsize += size;
 		int ret;
 		if((ret = osc_error_msgSanityCheck(ptr))){
 			return ret;
-- 
2.43.0


From da91476a8368b533580b762203bd71c5d37d8178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:41 +0000
Subject: [PATCH 30/71] fix: whether an address is bound is decided by the type
 tags of the matched message

---
 osc_bundle_s.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/osc_bundle_s.c b/osc_bundle_s.c
index 26173cc..97f63e0 100644
--- a/osc_bundle_s.c
+++ b/osc_bundle_s.c
@@ -196,7 +196,7 @@ t_osc_err osc_bundle_s_addressIsBound(long len, char *buf, char *address, int fu
 			}
 		}
 		//if(osc_message_s_getArgCount(m) > 0){
-		char *tt = msg_address + osc_util_getPaddedStringLen(address);
+		char *tt = msg_address + osc_util_getPaddedStringLen(msg_address);
 		if(tt - msg < size + 4 && tt[1] != 0){
 			*res = 1;
 			break;
-- 
2.43.0


From 8453ab4dd6271c4dffc3d6240202c386de4db031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:41 +0000
Subject: [PATCH 31/71] fix: an empty bundle is created with a whole header in
 storage of its own

---
 osc_bundle_s.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/osc_bundle_s.c b/osc_bundle_s.c
index 97f63e0..0472358 100644
--- a/osc_bundle_s.c
+++ b/osc_bundle_s.c
@@ -54,7 +54,7 @@ t_osc_bndl_s *osc_bundle_s_alloc(long len, char *ptr)
 
 t_osc_bndl_s *osc_bundle_s_allocEmptyBundle(void)
 {
-	t_osc_bndl_s *b = osc_mem_alloc(sizeof(t_osc_bndl_s));
+	t_osc_bndl_s *b = osc_bundle_s_alloc(0, NULL);
 	osc_bundle_s_setBundleID_b(b);
 	return b;
 }
@@ -499,7 +499,7 @@ t_osc_err osc_bundle_s_setBundleID_b(t_osc_bndl_s *bndl)
 		return OSC_ERR_NOBUNDLE;
 	}
 	if(!(bndl->ptr)){
-		bndl->ptr = osc_mem_alloc(OSC_IDENTIFIER_SIZE);
+		bndl->ptr = osc_mem_alloc(OSC_HEADER_SIZE);
 		if(!(bndl->ptr)){
 			return OSC_ERR_OUTOFMEM;
 		}
-- 
2.43.0


From 91016bb4d77aa80c1953392884d96041e2369617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:41 +0000
Subject: [PATCH 32/71] fix: bundles made by wrapping a message or combining
 empty bundles have a defined timetag

---
 osc_bundle_s.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/osc_bundle_s.c b/osc_bundle_s.c
index 0472358..30a8a49 100644
--- a/osc_bundle_s.c
+++ b/osc_bundle_s.c
@@ -337,6 +337,7 @@ t_osc_err osc_bundle_s_wrapMessage(long len, char *msg, long *bndllen, char **bn
 		if(!(*bndl)){
 			return OSC_ERR_OUTOFMEM;
 		}
+		memset(*bndl, '\0', OSC_HEADER_SIZE);
 		*alloc = 1;
 	}
 	osc_bundle_s_setBundleID(*bndl);
@@ -699,6 +700,7 @@ t_osc_bndl_s *osc_bundle_s_union(t_osc_bndl_s *lhs, t_osc_bndl_s *rhs)
 	t_osc_bndl_s *b = NULL;
 	if((len1 == 0 && len2 == 0) || (len1 == OSC_HEADER_SIZE && len2 == OSC_HEADER_SIZE)){
 		bndl_out = osc_mem_alloc(OSC_HEADER_SIZE);
+		memset(bndl_out, '\0', OSC_HEADER_SIZE);
 		osc_bundle_s_setBundleID(bndl_out);
 		len_out = OSC_HEADER_SIZE;
 		goto out;
@@ -755,6 +757,7 @@ t_osc_err osc_bundle_s_intersection(long len1, char *bndl1, long len2, char *bnd
 	if(len1 == 0 || len2 == 0 || len1 == OSC_HEADER_SIZE || len2 == OSC_HEADER_SIZE){
 		if(!(*bndl_out)){
 			*bndl_out = osc_mem_alloc(OSC_HEADER_SIZE);
+			memset(*bndl_out, '\0', OSC_HEADER_SIZE);
 		}
 		osc_bundle_s_setBundleID(*bndl_out);
 		*len_out = OSC_HEADER_SIZE;
@@ -800,6 +803,7 @@ t_osc_err osc_bundle_s_difference(long len1, char *bndl1, long len2, char *bndl2
 	if((len1 == 0 && len2 == 0) || (len1 == OSC_HEADER_SIZE && len2 == OSC_HEADER_SIZE)){
 		if(!(*bndl_out)){
 			*bndl_out = osc_mem_alloc(OSC_HEADER_SIZE);
+			memset(*bndl_out, '\0', OSC_HEADER_SIZE);
 		}
 		osc_bundle_s_setBundleID(*bndl_out);
 		*len_out = OSC_HEADER_SIZE;
-- 
2.43.0


From fa5464529a6d87e596ea05b5649751900a9884bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:41 +0000
Subject: [PATCH 33/71] fix: wrapping or copying a message does not keep or
 share offsets cached for another

---
 osc_message_s.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/osc_message_s.c b/osc_message_s.c
index 049e69d..5890cdd 100644
--- a/osc_message_s.c
+++ b/osc_message_s.c
@@ -84,6 +84,8 @@ void osc_message_s_copy(t_osc_msg_s **dest, t_osc_msg_s *src)
 		*dest = osc_message_s_alloc();
 	}
 	**dest = *src;
+	(*dest)->data_offset_cache = (*dest)->data_size_cache = NULL;
+	(*dest)->cache_buf_size = (*dest)->cache_size = 0;
 }
 
 t_osc_err osc_message_s_wrap(t_osc_msg_s *m, char *bytes)
@@ -93,6 +95,7 @@ t_osc_err osc_message_s_wrap(t_osc_msg_s *m, char *bytes)
 	}
 	int32_t len = ntoh32(*((int32_t *)bytes));
 	m->size = bytes;
+	m->cache_size = 0;
 	char *address = m->address = bytes + 4;
 	/*
 	if(!(m->address)){
@@ -254,8 +257,9 @@ void osc_message_s_getArg(t_osc_msg_s *m, int n, t_osc_atom_s **atom){
 t_osc_err osc_message_s_cacheDataOffsets(t_osc_msg_s *m)
 {
 	int n = osc_message_s_getArgCount(m);
-	m->data_offset_cache = (int *)osc_mem_alloc(n * sizeof(int));
-	m->data_size_cache = (int *)osc_mem_alloc(n * sizeof(int));
+	m->data_offset_cache = (int *)osc_mem_resize(m->data_offset_cache, n * sizeof(int));
+	m->data_size_cache = (int *)osc_mem_resize(m->data_size_cache, n * sizeof(int));
+	m->cache_size = 0;
 	m->cache_buf_size = n;
 	m->cache_size = n;
 	int i;
-- 
2.43.0


From 987f9c25e5b6c63893d4ae63e575dcbdb35cacb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:41 +0000
Subject: [PATCH 34/71] fix: renaming a message without type tags copies what
 it has

---
 osc_message_s.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/osc_message_s.c b/osc_message_s.c
index 5890cdd..6e6b871 100644
--- a/osc_message_s.c
+++ b/osc_message_s.c
@@ -153,7 +153,8 @@ int32_t osc_message_s_renameCopy(char *dest, t_osc_msg_s *src, int32_t new_addre
 	while((ptr - dest) % 4){
 		*ptr++ = '\0';
 	}
-	memcpy(ptr, src->typetags, oldlen - (src->typetags - src->address));
+	char *rest = src->address + osc_util_getPaddedStringLen(src->address);
+	memcpy(ptr, rest, oldlen - (rest - src->address));
 	return newlen;
 }
 
-- 
2.43.0


From 663138ad8b1b43658e34f8ba36621dbe4f9a5d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:41 +0000
Subject: [PATCH 35/71] fix: a message that does not fit the buffer is not
 serialized in part

---
 osc_message_u.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/osc_message_u.c b/osc_message_u.c
index 0f66182..4533493 100644
--- a/osc_message_u.c
+++ b/osc_message_u.c
@@ -1008,7 +1008,7 @@ size_t osc_message_u_nserialize(char *buf, size_t n, t_osc_msg_u *m)
 		size_t padded_address_len = osc_util_getPaddingForNBytes(addresslen);
 		size_t padded_typetag_len = osc_util_getPaddingForNBytes(osc_message_u_getArgCount(m) + 1);
 		size_t num_bytes_before_data = 4 + padded_address_len + padded_typetag_len;
-		if(n < num_bytes_before_data){
+		if(n < num_bytes_before_data || n < osc_message_u_nserialize(NULL, 0, m)){
 			return 0;
 		}
 		_n = num_bytes_before_data;
-- 
2.43.0


From 08e30993e089863643fe922525806885d005e0bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:41 +0000
Subject: [PATCH 36/71] fix: serializing a message without an address gives no
 message instead of reading past an empty buffer

---
 osc_message_u.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/osc_message_u.c b/osc_message_u.c
index 4533493..3be7d1d 100644
--- a/osc_message_u.c
+++ b/osc_message_u.c
@@ -1042,6 +1042,9 @@ long osc_message_u_getSerializedSize(t_osc_msg_u *m)
 t_osc_msg_s *osc_message_u_serialize(t_osc_msg_u *m)
 {
 	size_t n = osc_message_u_nserialize(NULL, 0, m);
+	if(!n){
+		return NULL;
+	}
 	char *buf = osc_mem_alloc(n);
 	osc_message_u_nserialize(buf, n, m);
 	t_osc_msg_s *mm = osc_message_s_alloc();
-- 
2.43.0


From 12a7c7bd7c16b213b81cc032ed552f8661409a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:26 +0000
Subject: [PATCH 37/71] fix: serializing into a buffer too small for a header
 does not leak the iterator

---
 osc_bundle_u.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/osc_bundle_u.c b/osc_bundle_u.c
index 35b1c01..cd75b50 100644
--- a/osc_bundle_u.c
+++ b/osc_bundle_u.c
@@ -624,6 +624,7 @@ size_t osc_bundle_u_nserialize(char *buf, size_t n, t_osc_bndl_u *b)
 		}
 	}else{
 		if(n < OSC_HEADER_SIZE){
+			osc_bndl_it_u_destroy(it);
 			return 0;
 		}
 		memcpy(buf, OSC_EMPTY_HEADER, OSC_HEADER_SIZE);
-- 
2.43.0


From e9b03f7410d010b334e21ae9760f8f77b6be7c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:00 +0000
Subject: [PATCH 38/71] fix: product() of floats gives a float, like sum()

---
 osc_expr.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/osc_expr.c b/osc_expr.c
index 49df3cd..0f7e58d 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -3428,6 +3428,10 @@ int osc_expr_product(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom
 		}
 		int i;
 		for(i = 0; i < len; i++){
+			char tt = osc_atom_u_getTypetag(osc_atom_array_u_get(argv[j], i));
+			if(OSC_TYPETAG_ISFLOAT(tt)){
+				doubleup = 1;
+			}
 			val *= osc_atom_u_getDouble(osc_atom_array_u_get(argv[j], i));
 		}
 	}
-- 
2.43.0


From ef8c2a2f0e20471b3e844c5d3f90752dcfc9f994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:00 +0000
Subject: [PATCH 39/71] fix: sum() and product() of integers out of the range
 of int32 keep their value

---
 osc_expr.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index 0f7e58d..11018fd 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -3438,13 +3438,13 @@ int osc_expr_product(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom
 	if(doubleup){
 		osc_atom_u_setDouble(osc_atom_array_u_get(*out, 0), val);
 	}else{
-		if(val <= 0x7fffffff){
+		if(val >= -2147483648. && val <= 0x7fffffff){
 			osc_atom_u_setInt32(osc_atom_array_u_get(*out, 0), val);
-		}else if(val <= ((uint32_t)0xffffffff)){
+		}else if(val >= 0 && val <= ((uint32_t)0xffffffff)){
 			osc_atom_u_setUInt32(osc_atom_array_u_get(*out, 0), val);
-		}else if(val <= 0x7fffffffffffffff){
+		}else if(val >= -9223372036854775808. && val < 9223372036854775808.){
 			osc_atom_u_setInt64(osc_atom_array_u_get(*out, 0), val);
-		}else if(val <= 0xffffffffffffffff){
+		}else if(val >= 0 && val < 18446744073709551616.){
 			osc_atom_u_setUInt64(osc_atom_array_u_get(*out, 0), val);
 		}else{
 			osc_atom_u_setDouble(osc_atom_array_u_get(*out, 0), val);
@@ -3479,13 +3479,13 @@ int osc_expr_sum(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_ar_
 	if(doubleup){
 		osc_atom_u_setDouble(osc_atom_array_u_get(*out, 0), val);
 	}else{
-		if(val <= 0x7fffffff){
+		if(val >= -2147483648. && val <= 0x7fffffff){
 			osc_atom_u_setInt32(osc_atom_array_u_get(*out, 0), val);
-		}else if(val <= ((uint32_t)0xffffffff)){
+		}else if(val >= 0 && val <= ((uint32_t)0xffffffff)){
 			osc_atom_u_setUInt32(osc_atom_array_u_get(*out, 0), val);
-		}else if(val <= 0x7fffffffffffffff){
+		}else if(val >= -9223372036854775808. && val < 9223372036854775808.){
 			osc_atom_u_setInt64(osc_atom_array_u_get(*out, 0), val);
-		}else if(val <= 0xffffffffffffffff){
+		}else if(val >= 0 && val < 18446744073709551616.){
 			osc_atom_u_setUInt64(osc_atom_array_u_get(*out, 0), val);
 		}else{
 			osc_atom_u_setDouble(osc_atom_array_u_get(*out, 0), val);
-- 
2.43.0


From 3c30386b3302a8ee644adbab5d99e9e7c977cf5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:00 +0000
Subject: [PATCH 40/71] fix: sortidx() releases the text of its copies

---
 osc_expr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/osc_expr.c b/osc_expr.c
index 11018fd..3e885ce 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -3909,7 +3909,7 @@ int osc_expr_sortidx(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom
     for( int i = 0; i < n; i++ )
     {
         osc_atom_u_setInt32(osc_atom_array_u_get(*out, i), sort_ar[i].index);
-        osc_mem_free(sort_ar[i].a);
+        osc_atom_u_free(sort_ar[i].a);
     }
     
     return 0;
-- 
2.43.0


From 7c1664550b8d96b4105dfeba5609b671676cdf0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:00 +0000
Subject: [PATCH 41/71] fix: sort() compares equal numbers as equal

---
 osc_expr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/osc_expr.c b/osc_expr.c
index 3e885ce..3799a1d 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -3828,7 +3828,7 @@ static int osc_expr_qsortcb(const void *a1, const void *a2)
 		double d2 = osc_atom_u_getDouble(aa2);
 		if(d1 < d2){
 			return -1;
-		}else{
+		}else if(d1 > d2){
 			return 1;
 		}
 	}
-- 
2.43.0


From cbff81febef7924adcd4758f9dcb25d510de8c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:00 +0000
Subject: [PATCH 42/71] fix: not() negates every numeric type

---
 osc_expr.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/osc_expr.c b/osc_expr.c
index 3799a1d..4d9e086 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -4151,11 +4151,17 @@ int osc_expr_not(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_ar_
 	for(i = 0; i < osc_atom_array_u_getLen(*argv); i++){
 		switch(osc_atom_u_getTypetag(osc_atom_array_u_get(*argv, i))){
 			// lazy...
+		case 'c':
+		case 'C':
+		case 'u':
+		case 'U':
 		case 'i':
 		case 'I':
+			osc_atom_u_setInt32(osc_atom_array_u_get(*out, i), !(osc_atom_u_getInt32(osc_atom_array_u_get(*argv, i))));
+			break;
 		case 'h':
 		case 'H':
-			osc_atom_u_setInt32(osc_atom_array_u_get(*out, i), !(osc_atom_u_getInt32(osc_atom_array_u_get(*argv, i))));
+			osc_atom_u_setInt32(osc_atom_array_u_get(*out, i), !(osc_atom_u_getInt64(osc_atom_array_u_get(*argv, i))));
 			break;
 		case 'f':
 		case 'd':
-- 
2.43.0


From 7fdc242db6f9ecba38aa787537f1683b30f71fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:00 +0000
Subject: [PATCH 43/71] fix: min(), max() and extrema() of infinities

---
 osc_expr.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index 4d9e086..926cd35 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -4656,7 +4656,7 @@ int osc_expr_min(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_ar_
 	*out = osc_atom_array_u_alloc(1);
 
 	int i;
-	double min = DBL_MAX;
+	double min = HUGE_VAL;
 	t_osc_atom_u *a = NULL;
 	for(i = 0; i < osc_atom_array_u_getLen(*argv); i++){
 		double f = osc_atom_u_getDouble(osc_atom_array_u_get(*argv, i));
@@ -4677,7 +4677,7 @@ int osc_expr_max(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_ar_
 	*out = osc_atom_array_u_alloc(1);
 
 	int i;
-	double max = -DBL_MAX;
+	double max = -HUGE_VAL;
 	t_osc_atom_u *a = NULL;
 	for(i = 0; i < osc_atom_array_u_getLen(*argv); i++){
 		double f = osc_atom_u_getDouble(osc_atom_array_u_get(*argv, i));
@@ -4698,7 +4698,7 @@ int osc_expr_extrema(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom
 	*out = osc_atom_array_u_alloc(2);
 
 	int i;
-	double min = DBL_MAX, max = -DBL_MAX;
+	double min = HUGE_VAL, max = -HUGE_VAL;
 	t_osc_atom_u *amin = NULL, *amax = NULL;
 	for(i = 0; i < osc_atom_array_u_getLen(*argv); i++){
 		double f = osc_atom_u_getDouble(osc_atom_array_u_get(*argv, i));
@@ -4725,7 +4725,7 @@ int osc_expr_range(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_a
 	*out = osc_atom_array_u_alloc(1);
 
 	int i;
-	double min = DBL_MAX, max = -DBL_MAX;
+	double min = HUGE_VAL, max = -HUGE_VAL;
 	char ttmin = 'i';
 	char ttmax = 'i';
 	//t_osc_atom_u *amin = NULL, *amax = NULL;
-- 
2.43.0


From a22cab0520532ca47481b19abfa40c99469269b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:14 +0000
Subject: [PATCH 44/71] fix: nextafter() takes the two arguments of the
 function it applies

---
 osc_expr_func.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/osc_expr_func.h b/osc_expr_func.h
index 524b4fc..0475039 100644
--- a/osc_expr_func.h
+++ b/osc_expr_func.h
@@ -1249,16 +1249,16 @@ static struct _osc_expr_rec osc_expr_funcsym[] __attribute__((unused)) = {
 	 (void *)logb},
 	//////////////////////////////////////////////////
 	{"nextafter",
-	 "/result = nextafter($1)",
-	 1,
+	 "/result = nextafter($1, $2)",
+	 2,
 	 0,
-	 (char *[]){"x"},
-	 (int []){OSC_EXPR_ARG_TYPE_NUM_LIST_ADDR},
+	 (char *[]){"x", "y"},
+	 (int []){OSC_EXPR_ARG_TYPE_NUM_LIST_ADDR, OSC_EXPR_ARG_TYPE_NUM_LIST_ADDR},
 	 (char *[]){NULL},
 	 (int []){},
 	 (char *[]){"/math/constant", NULL},
 	 "Next representable double-precision floating-point number",
-	 osc_expr_1arg_dbl,
+	 osc_expr_2arg_dbl_dbl,
 	 (void *)nextafter},
 	//////////////////////////////////////////////////
 	{"remainder",
-- 
2.43.0


From 0835716706ebc8a7022c2a41e1f7e376966615e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:14 +0000
Subject: [PATCH 45/71] fix: median() of an empty list does not read outside it

---
 osc_expr.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/osc_expr.c b/osc_expr.c
index 926cd35..6b7f866 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -3779,6 +3779,10 @@ int osc_expr_median(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_
 	*out = osc_atom_array_u_alloc(1);
 
 	long len = osc_atom_array_u_getLen(*argv);
+	if(len == 0){
+		osc_atom_u_setDouble(osc_atom_array_u_get(*out, 0), NAN);
+		return 0;
+	}
 	double *tmp = NULL;
 	osc_atom_array_u_getDoubleArray(*argv, &tmp);
 	qsort((void *)(tmp), len, sizeof(double), comp);
-- 
2.43.0


From a53bce094e93cc158a416e3ae094049869f92535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:57 +0000
Subject: [PATCH 46/71] fix: bitand() and bitor() of uint8 give a uint8

---
 osc_expr.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index 6b7f866..85d4c1c 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -5433,7 +5433,7 @@ int osc_expr_bitand(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_
 		{
 			uint8_t i1 = osc_atom_u_getUInt8(osc_atom_array_u_get(argv[0], 0));
 			uint8_t i2 = osc_atom_u_getUInt8(osc_atom_array_u_get(argv[1], 0));
-			osc_atom_u_setInt8(osc_atom_array_u_get(*out, 0), i1 & i2);
+			osc_atom_u_setUInt8(osc_atom_array_u_get(*out, 0), i1 & i2);
 		}
 		break;
 	}
@@ -5504,7 +5504,7 @@ int osc_expr_bitor(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_a
 		{
 			uint8_t i1 = osc_atom_u_getUInt8(osc_atom_array_u_get(argv[0], 0));
 			uint8_t i2 = osc_atom_u_getUInt8(osc_atom_array_u_get(argv[1], 0));
-			osc_atom_u_setInt8(osc_atom_array_u_get(*out, 0), i1 | i2);
+			osc_atom_u_setUInt8(osc_atom_array_u_get(*out, 0), i1 | i2);
 		}
 		break;
 	}
-- 
2.43.0


From f9b3c197804cee5a1c1ec30bf2eaa760784c6046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:57 +0000
Subject: [PATCH 47/71] fix: strfind() and split() release their texts on every
 path

---
 osc_expr.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/osc_expr.c b/osc_expr.c
index 85d4c1c..f38b7b0 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -5228,6 +5228,8 @@ int osc_expr_strfind(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom
     osc_atom_u_getString(osc_atom_array_u_get(argv[1], 0), 0, &str);
     osc_atom_u_getString(osc_atom_array_u_get(argv[0], 0), 0, &substr);
     if(!substr || !str){
+        osc_mem_free(str);
+        osc_mem_free(substr);
         return 1;
     }
     // strfind( "/foo", "/foo/bar" )
@@ -5236,6 +5238,8 @@ int osc_expr_strfind(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom
     long substrlen = strlen(substr);
     if(substrlen == 0)
     {
+        osc_mem_free(str);
+        osc_mem_free(substr);
         return 0;
     }
     
@@ -5273,6 +5277,8 @@ int osc_expr_split(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_a
 	osc_atom_u_getString(osc_atom_array_u_get(argv[1], 0), 0, &str);
 	osc_atom_u_getString(osc_atom_array_u_get(argv[0], 0), 0, &sep);
 	if(!sep || !str){
+		osc_mem_free(sep);
+		osc_mem_free(str);
 		return 1;
 	}
 	if(strlen(sep) == 0){
@@ -5282,6 +5288,8 @@ int osc_expr_split(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_a
 			t_osc_atom_u *a = osc_atom_array_u_get(*out, i);
 			osc_atom_u_setInt8(a, str[i]);
 		}
+		osc_mem_free(sep);
+		osc_mem_free(str);
 		return 0;
 	}
 	int n = 16;
-- 
2.43.0


From 19a6008899c07aa980bdc8dc9a7a126fcb9845b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:57 +0000
Subject: [PATCH 48/71] fix: join() without a separator does not free a literal

---
 osc_expr.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index f38b7b0..eac1081 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -5329,8 +5329,6 @@ int osc_expr_join(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_ar
 	int seplen = 0;
 	if(sep){
 		seplen = strlen(sep);
-	}else{
-		sep = "";
 	}
 	int n = 0;
 	for(int i = 1; i < argc; i++){
@@ -5363,7 +5361,7 @@ int osc_expr_join(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_ar
 			if(i == n - 1){
 				bufptr += sprintf(bufptr, "%s", ptrs[i]);
 			}else{
-				bufptr += sprintf(bufptr, "%s%s", ptrs[i], sep);
+				bufptr += sprintf(bufptr, "%s%s", ptrs[i], sep ? sep : "");
 			}
 			osc_mem_free(ptrs[i]);
 		}
-- 
2.43.0


From f44d4b503379366792cbfa6f64c5e9c429cc456e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:57 +0000
Subject: [PATCH 49/71] fix: blob() hands its block to the result instead of
 leaking it

---
 osc_expr.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/osc_expr.c b/osc_expr.c
index eac1081..49161ba 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -5959,6 +5959,7 @@ int osc_expr_explicitCast(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc
 					return 1;
 				}
 				osc_atom_u_setBlob(osc_atom_array_u_get(*out, 0), b);
+				osc_mem_free(b);
 			}else{
 				char *blob = osc_mem_alloc(n + 4);
 				for(int i = 0; i < n; i++){
@@ -5967,6 +5968,7 @@ int osc_expr_explicitCast(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc
 				*((int32_t *)blob) = hton32(n);
 				*out = osc_atom_array_u_alloc(1);
 				osc_atom_u_setBlobPtr(osc_atom_array_u_get(*out, 0), blob);
+				osc_atom_u_setShouldFreePtr(osc_atom_array_u_get(*out, 0), 1);
 			}
 		}else{
 			int n = osc_atom_array_u_getLen(*argv);
@@ -6103,6 +6105,7 @@ int osc_expr_explicitCast_blob(t_osc_atom_u *dest, t_osc_atom_u *src)
 	char *blob = NULL;
 	osc_atom_u_getBlobCopy(src, &l, &blob);
 	osc_atom_u_setBlobPtr(dest, blob);
+	osc_atom_u_setShouldFreePtr(dest, 1);
 	return 0;
 }
 
-- 
2.43.0


From 34422bdf407bb921280969e155e445396210dfbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:57 +0000
Subject: [PATCH 50/71] fix: strtotime(), floattotime() and match() stop at a
 wrong number of arguments

---
 osc_expr.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/osc_expr.c b/osc_expr.c
index 49161ba..8c8c101 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -6325,6 +6325,7 @@ int osc_expr_strtotime(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_at
 {
 	if(argc != 1){
 		osc_expr_err_argnum(context, 1, argc, 0, "strtotime");
+		return 1;
 	}
 	if(osc_atom_array_u_getLen(argv[0]) > 1){
 		osc_error(context, OSC_ERR_EXPR_ARGCHK, "strtotime takes a single string as an argument. found a list\n");
@@ -6347,6 +6348,7 @@ int osc_expr_floattotime(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_
 {
 	if(argc != 1){
 		osc_expr_err_argnum(context, 1, argc, 0, "floattotime");
+		return 1;
 	}
 	if(osc_atom_array_u_getLen(argv[0]) > 1){
 		osc_error(context, OSC_ERR_EXPR_ARGCHK, "floattotime takes a single float as an argument. found a list\n");
@@ -6368,6 +6370,7 @@ int osc_expr_match(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_a
 {
 	if(argc != 2){
 		osc_expr_err_argnum(context, 2, argc, 0, "match");
+		return 1;
 	}
 	int npatterns = osc_atom_array_u_getLen(argv[0]);
 	int naddresses = osc_atom_array_u_getLen(argv[1]);
-- 
2.43.0


From 199fa9c41c72b8f81af47c7e625255a71b668eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:45 +0000
Subject: [PATCH 51/71] fix: a math function called without arguments does not
 look at them

---
 osc_expr.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index 8c8c101..db281c6 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -2188,8 +2188,8 @@ t_osc_expr_rec *osc_expr_lookupFunction(char *name)
 
 int osc_expr_1arg_dbl(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_ar_u **out, void *context)
 {
-	long ac = osc_atom_array_u_getLen(*argv);
-	if(argc == 0 || osc_atom_array_u_getLen(*argv) < 1){
+	long ac = argc == 0 ? 0 : osc_atom_array_u_getLen(*argv);
+	if(ac < 1){
         osc_expr_err_argnum( context, 1, 0, 0, f->rec->name );
 		return 1;
 	}
-- 
2.43.0


From b857ca21ec5dba739e6d294411aa418b2b4d553f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:51 +0000
Subject: [PATCH 52/71] fix: assign_to_index() releases the text it replaces

---
 osc_expr.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/osc_expr.c b/osc_expr.c
index db281c6..9ec68e0 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -3380,6 +3380,7 @@ int osc_expr_assign_to_index(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_
 			return 1;
 		}
 		t_osc_atom_u *dest = osc_atom_array_u_get(*out, idx);
+		osc_atom_u_clear(dest);
 		osc_atom_u_copyInto(&dest, osc_atom_array_u_get(argv[2], 0));
 	}else if(nindexes > 1 && ndata == 1){
 		int i, idx;
@@ -3391,6 +3392,7 @@ int osc_expr_assign_to_index(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_
 				continue;
 			}
 			t_osc_atom_u *dest = osc_atom_array_u_get(*out, idx);
+			osc_atom_u_clear(dest);
 			osc_atom_u_copyInto(&dest, a);
 		}
 	}else{
@@ -3406,6 +3408,7 @@ int osc_expr_assign_to_index(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_
 				continue;
 			}
 			t_osc_atom_u *dest = osc_atom_array_u_get(*out, idx);
+			osc_atom_u_clear(dest);
 			osc_atom_u_copyInto(&dest, osc_atom_array_u_get(argv[2], i));
 		}
 	}
-- 
2.43.0


From 8a2a2024cff3217b95f82822b6eceb6631262a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:16:43 +0000
Subject: [PATCH 53/71] fix: if() with an empty list as its test kept its
 result in an array without room

---
 osc_expr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/osc_expr.c b/osc_expr.c
index 9ec68e0..e4542c2 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -1081,7 +1081,7 @@ static int osc_expr_specFunc_if(t_osc_expr *f,
 		return err;
 	}
 
-	int test_result_len = osc_atom_array_u_getLen(argv);
+	int test_result_len = 1; // only the first test counts
 	t_osc_atom_ar_u *boolvec[test_result_len];
 	memset(boolvec, '\0', test_result_len * sizeof(t_osc_atom_ar_u *));
 	int outlen = 0;
-- 
2.43.0


From dad815264043c7e69ddcd55f295bf61ccefde0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:24:02 +0000
Subject: [PATCH 54/71] fix: unbound-address messages printed an argument that
 is no address as one

---
 osc_expr.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/osc_expr.c b/osc_expr.c
index e4542c2..f0c689f 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -6871,7 +6871,7 @@ inline t_osc_expr *osc_expr_arg_getExpr(t_osc_expr_arg *a)
 
 inline char *osc_expr_arg_getOSCAddress(t_osc_expr_arg *a)
 {
-	if(a){
+	if(a && a->type == OSC_EXPR_ARG_TYPE_OSCADDRESS){
 		return a->arg.osc_address;
 	}
 	return NULL;
@@ -7318,6 +7318,10 @@ static void osc_expr_err_badInfixArg(void *context, char *func, char typetag, in
 
 static void osc_expr_err_unbound(void *context, char *address, char *func)
 {
+	if(!address){
+		// the argument is an expression, and an error has already been posted for what was unbound in it
+		return;
+	}
 	osc_error(context, OSC_ERR_EXPR_ADDRESSUNBOUND, "%s: address %s is unbound", func, address);
 }
 
-- 
2.43.0


From 89db4e17d60585ccac51f84c062c78268b2cc801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:24:02 +0000
Subject: [PATCH 55/71] fix: a function was applied although an argument
 failed, and an unbound one leaked its environment

---
 osc_expr.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index f0c689f..ceb4915 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -380,8 +380,14 @@ static int osc_expr_specFunc_apply(t_osc_expr *f,
 		for(int i = 0; (i < nparams) && arg; i++){
 			t_osc_atom_ar_u *atoms = NULL;
 			t_osc_err e = osc_expr_evalArgInLexEnv(arg, lexenv, len, oscbndl, &atoms, context);
-			if(e == OSC_ERR_EXPR_ADDRESSUNBOUND){
-				osc_expr_err_unbound(context, osc_expr_arg_getOSCAddress(arg), "apply");
+			if(e){
+				if(e == OSC_ERR_EXPR_ADDRESSUNBOUND){
+					osc_expr_err_unbound(context, osc_expr_arg_getOSCAddress(arg), "apply");
+				}
+				if(atoms){
+					osc_atom_array_u_free(atoms);
+				}
+				osc_expr_destroyLexenv(lexenv_copy);
 				return e;
 			}
 			osc_expr_bindVarInLexenv(lexenv_copy, params[i], atoms);
-- 
2.43.0


From 4da1f18c187a4826ce453298a83f796dc3d0f59e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:24:02 +0000
Subject: [PATCH 56/71] fix: apply() ignored errors in its first argument and
 leaked what it evaluated to

---
 osc_expr.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/osc_expr.c b/osc_expr.c
index ceb4915..4e12420 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -446,6 +446,11 @@ static int osc_expr_specFunc_apply(t_osc_expr *f,
 			t_osc_err e = osc_expr_evalArgInLexEnv(f_argv, lexenv, len, oscbndl, &ar, context);
 			if(e == OSC_ERR_EXPR_ADDRESSUNBOUND){
 				osc_expr_err_unbound(context, osc_expr_arg_getOSCAddress(f_argv), "apply");
+			}
+			if(e){
+				if(ar){
+					osc_atom_array_u_free(ar);
+				}
 				return e;
 			}
 			if(!ar){
@@ -454,10 +459,12 @@ static int osc_expr_specFunc_apply(t_osc_expr *f,
 			}
 			if(osc_atom_array_u_getLen(ar) != 1){
 				//error
+				osc_atom_array_u_free(ar);
 				return 1;
 			}
 			if(osc_atom_u_getTypetag(osc_atom_array_u_get(ar, 0)) != 's'){
 				//error
+				osc_atom_array_u_free(ar);
 				return 1;
 			}
 			char *stp = osc_atom_u_getStringPtr(osc_atom_array_u_get(ar, 0));
@@ -502,7 +509,7 @@ static int osc_expr_specFunc_apply(t_osc_expr *f,
 					  __LINE__,
 					  OSC_ERR_EXPPARSE,
 					  "unrecognized function %s",
-					  osc_atom_u_getStringPtr(osc_expr_arg_getOSCAtom(f_argv)));
+					  osc_expr_arg_getType(f_argv) == OSC_EXPR_ARG_TYPE_ATOM ? osc_atom_u_getStringPtr(osc_expr_arg_getOSCAtom(f_argv)) : "in apply()");
 			return 1;
 		}
 		t_osc_expr *e = osc_expr_alloc();
-- 
2.43.0


From 973a3d928a4972b3ba3e03483c19690a94167215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:24:02 +0000
Subject: [PATCH 57/71] fix: map() went on after an argument or an application
 failed, and leaked its function

---
 osc_expr.c | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index 4e12420..fb816a6 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -552,10 +552,12 @@ static int osc_expr_specFunc_map(t_osc_expr *f,
 	t_osc_expr_arg *a = f_argv->next;
 	while(a){
 		t_osc_err err = osc_expr_evalArgInLexEnv(a, lexenv, len, oscbndl, args + i, context);
-		if(err == OSC_ERR_EXPR_ADDRESSUNBOUND){
-			osc_expr_err_unbound(context, osc_expr_arg_getOSCAddress(a), "map");
+		if(err){
+			if(err == OSC_ERR_EXPR_ADDRESSUNBOUND){
+				osc_expr_err_unbound(context, osc_expr_arg_getOSCAddress(a), "map");
+			}
 			// assume whoever generated this will post an error
-			for(int j = 0; j < i; j++){
+			for(int j = 0; j < i + 1; j++){
 				if(args[j]){
 					osc_atom_array_u_free(args[j]);
 				}
@@ -585,19 +587,25 @@ static int osc_expr_specFunc_map(t_osc_expr *f,
 	t_osc_atom_ar_u *output[min];
 	memset(output, '\0', min * sizeof(t_osc_atom_ar_u *));
 	int outcount = 0;
+	int err = 0;
 	for(i = 0; i < min; i++){
 		int j;
 		for(j = 0; j < ac; j++){
 			osc_expr_arg_setOSCAtom(func_args[j + 1], osc_atom_array_u_get(args[j], i));
 		}
-		osc_expr_evalInLexEnv(e, lexenv, len, oscbndl, output + i, context);
+		err = osc_expr_evalInLexEnv(e, lexenv, len, oscbndl, output + i, context);
+		if(err){
+			break;
+		}
 		outcount += osc_atom_array_u_getLen(output[i]);
 	}
-	*out = osc_atom_array_u_alloc(outcount);
-	int pos = 0;
-	for(i = 0; i < min; i++){
-		osc_atom_array_u_copyInto(out, output[i], pos);
-		pos += osc_atom_array_u_getLen(output[i]);
+	if(!err){
+		*out = osc_atom_array_u_alloc(outcount);
+		int pos = 0;
+		for(i = 0; i < min; i++){
+			osc_atom_array_u_copyInto(out, output[i], pos);
+			pos += osc_atom_array_u_getLen(output[i]);
+		}
 	}
 	e->argv = NULL;
 	e->argc = 0;
@@ -622,7 +630,7 @@ static int osc_expr_specFunc_map(t_osc_expr *f,
 			osc_atom_array_u_free(output[i]);
 		}
 	}
-	return 0;
+	return err;
 }
 
 static int osc_expr_specFunc_reduce(t_osc_expr *f,
-- 
2.43.0


From 70e20a41aaefb67c8a906b5f299d985d9e6b3807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:24:50 +0000
Subject: [PATCH 58/71] fix: lreduce() and rreduce() went on after an error and
 leaked the value they start from

---
 osc_expr.c | 63 +++++++++++++++++++++++++++---------------------------
 1 file changed, 31 insertions(+), 32 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index fb816a6..4ae2297 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -663,9 +663,11 @@ static int osc_expr_specFunc_reduce(t_osc_expr *f,
 	t_osc_atom_ar_u *args = NULL;
 	t_osc_expr_arg *a = f_argv->next;
 	int err = osc_expr_evalArgInLexEnv(a, lexenv, len, oscbndl, &args, context);
-	if(err == OSC_ERR_EXPR_ADDRESSUNBOUND){
-		osc_expr_err_unbound(context, osc_expr_arg_getOSCAddress(a),
-				     f->rec->func == osc_expr_lreduce ? "lreduce" : "rreduce");
+	if(err){
+		if(err == OSC_ERR_EXPR_ADDRESSUNBOUND){
+			osc_expr_err_unbound(context, osc_expr_arg_getOSCAddress(a),
+					     f->rec->func == osc_expr_lreduce ? "lreduce" : "rreduce");
+		}
 		if(args){
 			osc_atom_array_u_free(args);
 		}
@@ -701,35 +703,18 @@ static int osc_expr_specFunc_reduce(t_osc_expr *f,
 		*out = args;
 	}else{
 		t_osc_atom_ar_u *output = NULL;
+		t_osc_atom_ar_u *sc = NULL;
 		if(f_argc == 3){
-			t_osc_atom_ar_u *sc = NULL;
-			t_osc_err err = osc_expr_evalArgInLexEnv(f_argv->next->next, lexenv, len, oscbndl, &sc, context);
+			err = osc_expr_evalArgInLexEnv(f_argv->next->next, lexenv, len, oscbndl, &sc, context);
 			if(err == OSC_ERR_EXPR_ADDRESSUNBOUND){
-				osc_expr_err_unbound(context, osc_expr_arg_getOSCAddress(a),
+				osc_expr_err_unbound(context, osc_expr_arg_getOSCAddress(f_argv->next->next),
 						     f->rec->func == osc_expr_lreduce ? "lreduce" : "rreduce");
-				if(args){
-					osc_atom_array_u_free(args);
-				}
-				for(int i = 0; i < ac; i++){
-					if(func_args[i]){
-						osc_expr_arg_free(func_args[i]);
-					}
-				}
-				e->argv = NULL;
-				e->argc = 0;
-				osc_expr_free(e);
-				return err;
-			}
-			if(sc){
-				t_osc_atom_u *acopy = NULL;
-				osc_atom_u_copyInto(&acopy, osc_atom_array_u_get(sc, 0));
-				osc_expr_arg_setOSCAtom(func_args[arg0], acopy);
-				if(sc){
-					osc_atom_array_u_free(sc);
-				}
-			}else{
+			}else if(!err && osc_atom_array_u_getLen(sc) < 1){
 				//error
-				return 1;
+				err = 1;
+			}
+			if(!err){
+				osc_expr_arg_setOSCAtom(func_args[arg0], osc_atom_array_u_get(sc, 0));
 			}
 			osc_expr_arg_setOSCAtom(func_args[arg1], osc_atom_array_u_get(args, start));
 			start += delta;
@@ -739,9 +724,19 @@ static int osc_expr_specFunc_reduce(t_osc_expr *f,
 			osc_expr_arg_setOSCAtom(func_args[arg1], osc_atom_array_u_get(args, start));
 			start += delta;
 		}
-		osc_expr_evalInLexEnv(e, lexenv, len, oscbndl, &output, context);
+		if(!err){
+			err = osc_expr_evalInLexEnv(e, lexenv, len, oscbndl, &output, context);
+		}
+		if(sc){
+			osc_atom_array_u_free(sc);
+		}
 
-		for(int i = start; delta > 0 ? i < count : i >= 0; i += delta){
+		for(int i = start; !err && (delta > 0 ? i < count : i >= 0); i += delta){
+			if(osc_atom_array_u_getLen(output) < 1){
+				//error
+				err = 1;
+				break;
+			}
 			t_osc_atom_u *copy1 = NULL;
 			t_osc_atom_u *copy2 = NULL;
 			osc_atom_u_copyInto(&copy1, osc_atom_array_u_get(output, 0));
@@ -750,10 +745,14 @@ static int osc_expr_specFunc_reduce(t_osc_expr *f,
 			osc_expr_arg_setOSCAtom(func_args[arg1], copy2);
 			osc_atom_array_u_free(output);
 			output = NULL;
-			osc_expr_evalInLexEnv(e, lexenv, len, oscbndl, &output, context);
+			err = osc_expr_evalInLexEnv(e, lexenv, len, oscbndl, &output, context);
 			osc_expr_arg_clear(func_args[arg0]);
 			osc_expr_arg_clear(func_args[arg1]);
 		}
+		if(err && output){
+			osc_atom_array_u_free(output);
+			output = NULL;
+		}
 		*out = output;
 		if(args){
 			osc_atom_array_u_free(args);
@@ -775,7 +774,7 @@ static int osc_expr_specFunc_reduce(t_osc_expr *f,
 			osc_mem_free(func_args[i]);
 		}
 	}
-	return 0;
+	return err;
 }
 
 static int osc_expr_specFunc_assign(t_osc_expr *f,
-- 
2.43.0


From 4f0defb930558c98586194b7344e66a20f2cacb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:54 +0000
Subject: [PATCH 59/71] fix: a copied expression lost the lists among its
 arguments

---
 osc_expr.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/osc_expr.c b/osc_expr.c
index 4ae2297..b06f2a0 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -6937,6 +6937,9 @@ t_osc_err osc_expr_arg_copy(t_osc_expr_arg **dest, t_osc_expr_arg *src)
 			(*dest)->arg.func = copy;
 		}
 		break;
+	case OSC_EXPR_ARG_TYPE_LIST:
+		copy->arg.list = osc_atom_array_u_copy(src->arg.list);
+		break;
 	}
 	return OSC_ERR_NONE;
 }
-- 
2.43.0


From 664ef0d7ee6e35a10368874aef22b7cc11653b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:36:53 +0000
Subject: [PATCH 60/71] fix: delete() leaked the text naming the address

---
 osc_expr.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/osc_expr.c b/osc_expr.c
index b06f2a0..7b64384 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -1424,6 +1424,7 @@ static int osc_expr_specFunc_delete(t_osc_expr *f,
 				char *st = NULL;
 				osc_atom_u_getString(a, 0, &st);
 				osc_bundle_s_removeMessage(st, len, *oscbndl, 1);
+				osc_mem_free(st);
 			}
 		}
 		f_argv = f_argv->next;
-- 
2.43.0


From f50c4840fe68cc697140f22dd8a71e9e461a192e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:36:53 +0000
Subject: [PATCH 61/71] fix: emptybundle() leaked its argument and went on when
 it could not be evaluated

---
 osc_expr.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index 7b64384..8734ae0 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -1182,8 +1182,6 @@ static int osc_expr_specFunc_emptybundle(t_osc_expr *f,
 	if(!len || !oscbndl){
 		return 1;
 	}
-	*out = osc_atom_array_u_alloc(1);
-	
 	int f_argc = osc_expr_getArgCount(f);
 	if(f_argc){
 		t_osc_expr_arg *f_argv = osc_expr_getArgs(f);
@@ -1191,8 +1189,14 @@ static int osc_expr_specFunc_emptybundle(t_osc_expr *f,
 		t_osc_err r = osc_expr_evalArgInLexEnv(f_argv, lexenv, len, oscbndl, &ar, context);
 		if(r == OSC_ERR_EXPR_ADDRESSUNBOUND){
 			osc_expr_err_unbound(context, osc_expr_arg_getOSCAddress(f_argv), osc_expr_rec_getName(osc_expr_getRec(f)));
+		}
+		if(r){
+			if(ar){
+				osc_atom_array_u_free(ar);
+			}
 			return r;
 		}
+		*out = osc_atom_array_u_alloc(1);
 		if(ar && osc_atom_array_u_getLen(ar) > 0){
 			t_osc_atom_u *a = osc_atom_array_u_get(ar, 0);
 			if(osc_atom_u_getTypetag(a) == OSC_BUNDLE_TYPETAG){
@@ -1207,7 +1211,11 @@ static int osc_expr_specFunc_emptybundle(t_osc_expr *f,
 		}else{
 			osc_atom_u_setTrue(osc_atom_array_u_get(*out, 0));
 		}
+		if(ar){
+			osc_atom_array_u_free(ar);
+		}
 	}else{
+		*out = osc_atom_array_u_alloc(1);
 		if(*len == OSC_HEADER_SIZE){
 			osc_atom_u_setTrue(osc_atom_array_u_get(*out, 0));
 		}else{
-- 
2.43.0


From 013213f0e79658ee80e6a3ddc32c209676b689c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:36:53 +0000
Subject: [PATCH 62/71] fix: bound() and exists() leaked the address computed
 by their argument

---
 osc_expr.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index 8734ae0..25dd81e 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -1288,7 +1288,13 @@ static int osc_expr_specFunc_existsorbound(t_osc_expr *f,
 			}else{
 				t_osc_atom_ar_u *ar = NULL;
 				int err = osc_expr_evalInLexEnv(osc_expr_arg_getExpr(f_argv), lexenv, len, oscbndl, &ar, context);
-				if(!err && ar){
+				if(err){
+					if(ar){
+						osc_atom_array_u_free(ar);
+					}
+					goto err;
+				}
+				if(ar){
 					if(osc_atom_array_u_getLen(ar) != 1){
 						osc_atom_array_u_free(ar);
 						goto err;
@@ -1303,12 +1309,12 @@ static int osc_expr_specFunc_existsorbound(t_osc_expr *f,
 						goto err;
 					}
 					osc_atom_u_getString(a, 0, &address);
+					osc_atom_array_u_free(ar);
 					if(!address){
-						osc_atom_array_u_free(ar);
 						goto err;
 					}
 					if(address[0] != '/'){
-						osc_atom_array_u_free(ar);
+						osc_mem_free(address);
 						goto err;
 					}
 				}
-- 
2.43.0


From c169044919d8db3f19159c2959a6cde5dc15582b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:36:53 +0000
Subject: [PATCH 63/71] fix: value() succeeded when its argument could not be
 evaluated

---
 osc_expr.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/osc_expr.c b/osc_expr.c
index 25dd81e..e581671 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -1483,6 +1483,11 @@ static int osc_expr_specFunc_value(t_osc_expr *f,
 	t_osc_err err = osc_expr_evalArgInLexEnv(f_argv, lexenv, len, oscbndl, &arg, context);
 	if(err == OSC_ERR_EXPR_ADDRESSUNBOUND){
 		osc_expr_err_unbound(context, osc_expr_arg_getOSCAddress(f_argv), "value");
+	}
+	if(err){
+		if(arg){
+			osc_atom_array_u_free(arg);
+		}
 		return err;
 	}
 	if(arg){
-- 
2.43.0


From 0f5085b088f2826b46a221c416908a68c1f56907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:36:53 +0000
Subject: [PATCH 64/71] fix: assign() leaked the target when it is not an
 address

---
 osc_expr.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/osc_expr.c b/osc_expr.c
index e581671..890c993 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -849,6 +849,9 @@ static int osc_expr_specFunc_assign(t_osc_expr *f,
     t_osc_err err;
 	if((err = osc_error_validateAddress(address))){
 		osc_error(context, OSC_ERR_EXPR_ARGCHK, "the first argument of assign() must be an OSC address.");		
+		if(address){
+			osc_mem_free(address);
+		}
 		return err;
 	}
 
-- 
2.43.0


From 47d88a831191ec03495c2e56e3d88fe1584ca003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:36:53 +0000
Subject: [PATCH 65/71] fix: assigning to an index leaked the message found,
 and took any first argument for an address

---
 osc_expr.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/osc_expr.c b/osc_expr.c
index 890c993..fa05224 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -952,6 +952,9 @@ static int osc_expr_specFunc_assigntoindex(t_osc_expr *f,
 		return 1;
 	}
 	t_osc_expr_arg *f_argv = osc_expr_getArgs(f);
+	if(osc_expr_arg_getType(f_argv) != OSC_EXPR_ARG_TYPE_OSCADDRESS){
+		return 1;
+	}
 	t_osc_msg_ar_s *msg_ar = osc_bundle_s_lookupAddress(*len, *oscbndl, f_argv->arg.osc_address, 1);
 	if(!msg_ar){
 		osc_expr_err_unbound(context, osc_expr_arg_getOSCAddress(f_argv), "assign to index =");
@@ -1041,7 +1044,6 @@ static int osc_expr_specFunc_assigntoindex(t_osc_expr *f,
         t_osc_msg_s *osc_msg_s = osc_message_u_serialize(mm);
         if(msg_ar){
             osc_bundle_s_replaceMessage(len, len, oscbndl, osc_message_array_s_get(msg_ar, 0), osc_msg_s);
-            osc_message_array_s_free(msg_ar);
         }else{
             osc_bundle_s_appendMessage(len, oscbndl, osc_msg_s);
         }
@@ -1052,6 +1054,8 @@ static int osc_expr_specFunc_assigntoindex(t_osc_expr *f,
     }
 
 bail:
+    if (msg_ar)
+        osc_message_array_s_free(msg_ar);
     if (indexes)
         osc_atom_array_u_free(indexes);
     if (data)
-- 
2.43.0


From dec615f4f9231a4c09712bad85190aeb710a1a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:36:53 +0000
Subject: [PATCH 66/71] fix: settimetag() leaked its argument

---
 osc_expr.c | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index fa05224..f0de2a7 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -1767,20 +1767,19 @@ static int osc_expr_specFunc_settimetag(t_osc_expr *f,
 	t_osc_expr_arg *f_argv = osc_expr_getArgs(f);
 	t_osc_atom_ar_u *arg = NULL;
 	t_osc_err err = osc_expr_evalArgInLexEnv(f_argv, lexenv, len, oscbndl, &arg, context);
-	if(err){
-		return 1;
-	}
+	int ret = 1;
 	if(arg){
-		if(osc_atom_array_u_getLen(arg) > 0){
+		if(!err && osc_atom_array_u_getLen(arg) > 0){
 			t_osc_atom_u *a = osc_atom_array_u_get(arg, 0);
 			if(a){
 				t_osc_timetag t = osc_atom_u_getTimetag(a);
 				osc_bundle_s_setTimetag(*len, *oscbndl, t);
-				return 0;
+				ret = 0;
 			}
 		}
+		osc_atom_array_u_free(arg);
 	}
-	return 1;
+	return ret;
 }
 
 static int osc_expr_specFunc_getBundleMember(t_osc_expr *f,
-- 
2.43.0


From 7dc44b2b7ee063c38416075b1f132f92dc29dcfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:36:53 +0000
Subject: [PATCH 67/71] fix: gettimetag() and settimetag() without a bundle

---
 osc_expr.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/osc_expr.c b/osc_expr.c
index f0de2a7..e0c4dd6 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -1751,6 +1751,9 @@ static int osc_expr_specFunc_gettimetag(t_osc_expr *f,
 			    t_osc_atom_ar_u **out,
 					void *context)
 {
+	if(!len || !oscbndl){
+		return 1;
+	}
 	*out = osc_atom_array_u_alloc(1);
 	t_osc_atom_u *a = osc_atom_array_u_get(*out, 0);
 	osc_atom_u_setTimetag(a, osc_bundle_s_getTimetag(*len, *oscbndl));
@@ -1766,6 +1769,9 @@ static int osc_expr_specFunc_settimetag(t_osc_expr *f,
 {
 	t_osc_expr_arg *f_argv = osc_expr_getArgs(f);
 	t_osc_atom_ar_u *arg = NULL;
+	if(!len || !oscbndl){
+		return 1;
+	}
 	t_osc_err err = osc_expr_evalArgInLexEnv(f_argv, lexenv, len, oscbndl, &arg, context);
 	int ret = 1;
 	if(arg){
-- 
2.43.0


From 0d20782048cf9db5f5d840b2957c8a793927392c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:08 +0000
Subject: [PATCH 68/71] fix: assigning to an index left a value behind when it
 failed

---
 osc_expr.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/osc_expr.c b/osc_expr.c
index e0c4dd6..d737c32 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -1054,6 +1054,10 @@ static int osc_expr_specFunc_assigntoindex(t_osc_expr *f,
     }
 
 bail:
+    if (err && *out) {
+        osc_atom_array_u_free(*out);
+        *out = NULL;
+    }
     if (msg_ar)
         osc_message_array_s_free(msg_ar);
     if (indexes)
-- 
2.43.0


From a391fe164bc8d287e2565b33a6dd1ca89699f915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:42:29 +0000
Subject: [PATCH 69/71] fix: assigning to an index went on after an argument
 failed

---
 osc_expr.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/osc_expr.c b/osc_expr.c
index d737c32..894a9a0 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -973,6 +973,8 @@ static int osc_expr_specFunc_assigntoindex(t_osc_expr *f,
         err = osc_expr_evalArgInLexEnv(f_argv, lexenv, len, oscbndl, out, context);
         if(err == OSC_ERR_EXPR_ADDRESSUNBOUND){
             osc_expr_err_unbound(context, osc_expr_arg_getOSCAddress(f_argv), "assign to index");
+        }
+        if(err){
             goto bail;
         }
         int outlen = osc_atom_array_u_getLen(*out);
@@ -982,6 +984,8 @@ static int osc_expr_specFunc_assigntoindex(t_osc_expr *f,
         if(err == OSC_ERR_EXPR_ADDRESSUNBOUND){
             osc_error(context, OSC_ERR_EXPR_ADDRESSUNBOUND, "%s assign to index : address %s is unbound", osc_expr_arg_getOSCAddress(f_argv), osc_expr_arg_getOSCAddress(f_argv->next));
             // osc_expr_err_unbound(context, osc_expr_arg_getOSCAddress(f_argv->next), "assign to index 2");
+        }
+        if(err){
             goto bail;
         }
         int nindexes = osc_atom_array_u_getLen(indexes);
@@ -991,6 +995,8 @@ static int osc_expr_specFunc_assigntoindex(t_osc_expr *f,
             //osc_expr_err_unbound(context, osc_expr_arg_getOSCAddress(f_argv->next->next), "assign to index 3");
             osc_error(context, OSC_ERR_EXPR_ADDRESSUNBOUND, "%s assign to index : address %s is unbound", osc_expr_arg_getOSCAddress(f_argv), osc_expr_arg_getOSCAddress(f_argv->next->next));
 
+        }
+        if(err){
             goto bail;
         }
         int ndata = osc_atom_array_u_getLen(data);
-- 
2.43.0


From 6d3203a0f7c4715e2a19f3b979a1906787f95923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:55:46 +0000
Subject: [PATCH 70/71] fix: storing a key that a table already has leaked the
 entry

---
 osc_hashtab.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/osc_hashtab.c b/osc_hashtab.c
index b69f9b1..71f134e 100644
--- a/osc_hashtab.c
+++ b/osc_hashtab.c
@@ -170,6 +170,7 @@ static void osc_hashtab_store_elem_safe(t_osc_hashtab *ht,
 	while(ee){
 		if(!strcmp(ee->key, key)){
 			// this is not a hash collision, this is a duplicate key
+			osc_mem_free(e);
 			return;
 		}else{
 			ee = ee->next;
-- 
2.43.0


From 70320715b874577f70980f4ebf5f9d62cdf0e662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:55:46 +0000
Subject: [PATCH 71/71] fix: cloning no list read through a null pointer

---
 osc_linkedlist.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/osc_linkedlist.c b/osc_linkedlist.c
index c4633da..d3d2e20 100644
--- a/osc_linkedlist.c
+++ b/osc_linkedlist.c
@@ -91,6 +91,9 @@ void osc_linkedlist_cloneCallback(void *context, int index, void *data)
 
 t_osc_linkedlist *osc_linkedlist_clone(t_osc_linkedlist *ll, void (*copydata)(void**, void*))
 {
+	if(!ll){
+		return NULL;
+	}
 	t_osc_linkedlist *clone = osc_linkedlist_new(ll->dtor);
 	t_osc_linkedlist_cloneContext context;
 	context.clone = clone;
-- 
2.43.0

