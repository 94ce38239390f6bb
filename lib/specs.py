"""Shared C text for reference specifications."""
PRE = r'''
#include <stdint.h>
#include <string.h>
#include <stdlib.h>
#include <math.h>
#include "osc.h"
#include "osc_mem.h"
#include "osc_util.h"
#include "osc_atom_s.h"
#include "osc_atom_s.r"
#include "osc_atom_u.h"
#include "osc_atom_u.r"
#include "osc_timetag.h"
#include "osc_typetag.h"
/* a case the specification leaves open */
extern void M_open(void) __attribute__((noreturn, cold));
#define INL static inline __attribute__((always_inline))
INL uint32_t be32(uint64_t raw){ return __builtin_bswap32((uint32_t)raw); }
INL uint64_t be64(uint64_t raw){ return __builtin_bswap64(raw); }
INL float asf(uint32_t u){ float f; memcpy(&f, &u, 4); return f; }
INL double asd(uint64_t u){ double f; memcpy(&f, &u, 8); return f; }
INL uint32_t fbits(float f){ uint32_t u; memcpy(&u, &f, 4); return u; }
INL uint64_t dbits(double f){ uint64_t u; memcpy(&u, &f, 8); return u; }
'''

# models of the C library's text-to-number functions: the value depends on the text and base only
LIBC_MODELS = r'''
extern long M_strtol(const char*, int) __attribute__((pure));
extern long long M_strtoll(const char*, int) __attribute__((pure));
extern unsigned long M_strtoul(const char*, int) __attribute__((pure));
extern unsigned long long M_strtoull(const char*, int) __attribute__((pure));
extern float M_strtof(const char*) __attribute__((pure));
extern double M_strtod(const char*) __attribute__((pure));
long strtol(const char *s, char **e, int b){ return M_strtol(s, b); }
long long strtoll(const char *s, char **e, int b){ return M_strtoll(s, b); }
unsigned long strtoul(const char *s, char **e, int b){ return M_strtoul(s, b); }
unsigned long long strtoull(const char *s, char **e, int b){ return M_strtoull(s, b); }
float strtof(const char *s, char **e){ return M_strtof(s); }
double strtod(const char *s, char **e){ return M_strtod(s); }
int atoi(const char *s){ return (int)M_strtol(s, 10); }
long atol(const char *s){ return M_strtol(s, 10); }
double atof(const char *s){ return M_strtod(s); }
'''

# The heap: allocation succeeds, fresh bytes are unknown (never conveniently zero), every block carries its
# size and a live mark, and the balance of live blocks and the count of bad releases can be read back.
HEAP = r'''
extern unsigned char M_junk(void) __attribute__((const));
extern size_t M_size(void *) __attribute__((const));
extern void *M_raw(size_t);
static long M_live;
#define M_PAD 32
void *M_alloc(size_t n){ void *p = M_raw(n + M_PAD); memset(p, M_junk(), n + M_PAD); M_live++; return p; }
INL void M_dead(char *p, size_t n){  /* the bytes behind the block must be untouched; a dead block has no contents */
  uint64_t j = M_junk() * 0x0101010101010101ull, g;
#define M_CHK(i) memcpy(&g, p + (n - M_PAD) + i, 8); if(g != j) M_live += 1000;
  M_CHK(0) M_CHK(8) M_CHK(16) M_CHK(24)
  memset(p, M_junk(), n);
}
void M_free(void *p){ if(!p) return; M_live--; M_dead(p, M_size(p)); }
void *M_resize(void *p, size_t n){
  if(!p) return M_alloc(n);
  void *q = M_raw(n + M_PAD);
  memset(q, M_junk(), n + M_PAD);
  size_t o = M_size(p) - M_PAD;
  memcpy(q, p, o < n ? o : n);
  M_dead(p, o + M_PAD);
  return q;
}
size_t M_strlen(const char *s){ size_t n = 0; while(s[n]) n++; return n; }
char *M_strcpy(char *d, const char *s){ size_t n = 0; while((d[n] = s[n])) n++; return d; }
char *M_strncpy(char *d, const char *s, size_t k){ size_t n = 0; while(n < k && s[n]){ d[n] = s[n]; n++; } while(n < k) d[n++] = 0; return d; }
int M_strncmp(const char *a, const char *b, size_t k){ for(size_t i = 0; i < k; i++){ if(a[i] != b[i] || !a[i]) return (unsigned char)a[i] - (unsigned char)b[i]; } return 0; }
int M_memcmp(const void *x, const void *y, size_t k){ const unsigned char *a = x, *b = y; for(size_t i = 0; i < k; i++) if(a[i] != b[i]) return a[i] - b[i]; return 0; }
char *M_strchr(const char *s, int c){ for(;; s++){ if(*s == (char)c) return (char *)s; if(!*s) return 0; } }
void *M_memchr(const void *s, int c, size_t k){ const unsigned char *p = s; for(size_t i = 0; i < k; i++) if(p[i] == (unsigned char)c) return (void *)(p + i); return 0; }
size_t M_strnlen(const char *s, size_t k){ size_t n = 0; while(n < k && s[n]) n++; return n; }
char *M_strcat(char *d, const char *s){ size_t n = 0; while(d[n]) n++; while((d[n++] = *s++)); return d; }
int M_strcmp(const char *a, const char *b){ while(*a && *a == *b){ a++; b++; } return (unsigned char)*a - (unsigned char)*b; }
'''
HEAP_OPAQUE = [("osc_mem_alloc", "model:M_alloc"), ("osc_mem_free", "model:M_free"), ("osc_mem_resize", "model:M_resize"),
               ("strlen", "model:M_strlen"), ("strcpy", "model:M_strcpy"), ("strncpy", "model:M_strncpy"), ("strcmp", "model:M_strcmp"),
               ("strncmp", "model:M_strncmp"), ("memcmp", "model:M_memcmp"), ("bcmp", "model:M_memcmp"), ("strchr", "model:M_strchr"), ("memchr", "model:M_memchr"), ("strnlen", "model:M_strnlen"), ("strcat", "model:M_strcat")]

EXPR = '''
#include "osc_array.h"
#include "osc_array.r"
#include "osc_atom_array_u.h"
#include "osc_expr.h"
#include "osc_expr.r"
#include "osc_expr_rec.h"
#include "osc_expr_rec.r"
#include "osc_expr_func.h"
'''

# tag -> (C type of the value it denotes, storage bits)
NUM = {"c": "int32_t", "u": "int32_t", "i": "int32_t", "C": "uint32_t", "U": "uint32_t", "I": "uint32_t",
       "h": "int64_t", "H": "uint64_t", "f": "float", "d": "double"}
# the C type of the API value for each tag (what set/get by that name carries)
API = {"c": ("Int8", "int8_t"), "u": ("Int16", "int16_t"), "i": ("Int32", "int32_t"), "h": ("Int64", "int64_t"),
       "C": ("UInt8", "uint8_t"), "U": ("UInt16", "uint16_t"), "I": ("UInt32", "uint32_t"), "H": ("UInt64", "uint64_t"),
       "f": ("Float", "float"), "d": ("Double", "double")}


def wire(tag):
    """C expression decoding the big-endian datum of `tag` from the 8 raw bytes `raw`."""
    return {"c": "(int32_t)be32(raw)", "u": "(int32_t)be32(raw)", "i": "(int32_t)be32(raw)",
            "C": "be32(raw)", "U": "be32(raw)", "I": "be32(raw)",
            "h": "(int64_t)be64(raw)", "H": "be64(raw)", "f": "asf(be32(raw))", "d": "asd(be64(raw))"}[tag]


def conv(getter, val):
    """What a getter of that name returns for a value: small integer getters go through 32 bits."""
    m = {"Int8": "(int8_t)(int32_t)", "Int16": "(int16_t)(int32_t)", "Int32": "(int32_t)", "Int64": "(int64_t)",
         "UInt8": "(uint8_t)(uint32_t)", "UInt16": "(uint16_t)(uint32_t)", "UInt32": "(uint32_t)", "UInt64": "(uint64_t)",
         "Float": "(float)", "Double": "(double)", "Int": "(int)"}
    return "%s(%s)" % (m[getter], val)


RET = {"Int8": "int8_t", "Int16": "int16_t", "Int32": "int32_t", "Int64": "int64_t", "UInt8": "uint8_t",
       "UInt16": "uint16_t", "UInt32": "uint32_t", "UInt64": "uint64_t", "Float": "float", "Double": "double", "Int": "int"}
STRTO = {"Int8": "(int32_t)M_strtol(d,10)", "Int16": "(int32_t)M_strtol(d,10)", "Int32": "M_strtol(d,10)",
         "Int": "M_strtol(d,10)", "Int64": "M_strtoll(d,10)", "UInt8": "(uint32_t)M_strtoul(d,10)",
         "UInt16": "(uint32_t)M_strtoul(d,10)", "UInt32": "M_strtoul(d,10)", "UInt64": "M_strtoull(d,10)",
         "Float": "M_strtof(d)", "Double": "M_strtod(d)"}
