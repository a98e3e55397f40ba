// Character encoding, for the analysis. Never run.
#include <new>
#include <char_encoding.h>
#include <error.h>
extern "C" {
// UTF-8, reading: p is NUL terminated somewhere
int u_get(const UTF8* p, UCS4* ch) { const UTF8* c = p; *ch = UTF8Get(c); return (int)(c-p); }
int u_peek(const UTF8* p, UCS4* ch) { const UTF8* c = p; *ch = UTF8Peek(c); return (int)(c-p); }
int u_len(const UTF8* p) { return UTF8Len(p); }
const UTF8* u_backup(const UTF8* p) { return UTF8Backup(p); }
const UTF8* u_backup_lim(const UTF8* p, const UTF8* lim) { return UTF8Backup(p, lim); }
// on a single byte or character
int u_correct(UTF8 c) { return UTF8CorrectLen(c); }
bool u_1st(UTF8 c) { return UTF8Is1st(c); }
bool u_2nd(UTF8 c) { return UTF8Is2nd(c); }
UCS4 u_encill(UTF8 c) { return UTF8EncodeIllegal(c); }
bool u_isill(UCS4 ch) { return UCS4IsIllegal(ch); }
int u_lenof(UCS4 ch) { return UTF8Len(ch); }
int u_put(UTF8* p, UCS4 ch) { UTF8* c = p; UTF8Put(c, ch); return (int)(c-p); }
int u_padzero(UTF8* p, int n) { UTF8* c = p; UTF8PutPaddedZero(c, n); return (int)(c-p); }
UCS4 u_putget(UTF8* b, UCS4 ch, int* put, int* got) { UTF8* c = b; UTF8Put(c, ch); *c = 0; const UTF8* s = b; UCS4 r = UTF8Get(s); *put = (int)(c-b); *got = (int)(s-b); return r; }
bool x_ascii(UCS4 ch) { return UCS4IsASCII(ch); }
bool x_latin1(UCS4 ch) { return UCS4IsLatin1(ch); }
bool x_unicode(UCS4 ch) { return UCS4IsUnicode(ch); }
bool x_utf16(UCS4 ch) { return UCS4IsUTF16(ch); }
int x_digit(UCS4 ch) { return ASCIIDigit(ch); }
// UTF-16
bool w_surr(UTF16 c) { return UTF16IsSurrogate(c); }
bool w_1st(UTF16 c) { return UTF16Is1st(c); }
bool w_2nd(UTF16 c) { return UTF16Is2nd(c); }
UTF16 w_swab(UTF16 c) { return UTF16Swab(c); }
int w_put(UTF16* p, UCS4 ch, bool swap) { UTF16* c = p; UTF16Put(c, ch, swap); return (int)(c-p); }
int w_get(const UTF16* p, bool swap, UCS4* ch) { const UTF16* c = p; *ch = UTF16Get(c, swap); return (int)(c-p); }
int w_lenof(UCS4 ch) { return UTF16Len(ch); }
int w_len(const UTF16* p, bool swap) { return UTF16Len(p, swap); }
// Error numbers
int e_make(int set, int msg) { return ErrNum(set, msg); }
int e_wrap(int32_t setmsg) { return ErrNum(setmsg); }
int e_set(int set, int msg) { return ErrNum(set, msg).set(); }
int e_msg(int set, int msg) { return ErrNum(set, msg).msg(); }
int e_rewrap(int set, int msg) { int32_t v = ErrNum(set, msg); return ErrNum(v); }
int e_none() { return ErrNum(); }
bool e_eq(int32_t a, int32_t b) { return ErrNum(a) == ErrNum(b); }
bool e_ne(int32_t a, int32_t b) { return ErrNum(a) != ErrNum(b); }
bool e_eqi(int32_t a, int32_t b) { return ErrNum(a) == b; }
bool e_lti(int32_t a, int32_t b) { return ErrNum(a) < b; }
bool e_gti(int32_t a, int32_t b) { return ErrNum(a) > b; }
int e_copy(int32_t a) { ErrNum e(a); ErrNum f(e); ErrNum g; g = f; return g; }
}
