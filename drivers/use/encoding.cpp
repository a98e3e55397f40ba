// Character encodings
#include <char_encoding.h>
long use(UCS4 c, const UTF8* p, UTF8* w, const UTF16* q, UTF16* v)
{
	long	n = ASCIIDigit(c) + UCS4IsAlphabetic(c) + UCS4Digit(c) + UCS4IsDecimal(c) + UCS4HexDigit(c) + UCS4ToUpper(c) + UCS4ToLower(c) + UCS4ToTitle(c) + UCS4IsWhite(c)
		+ UCS4IsASCII(c) + UCS4IsASCIIPrintable(c) + UCS4IsLatin1(c) + UCS4IsUnicode(c) + UCS4IsUTF16(c)
		+ isalpha(c) + isdigit(c) + isalnum(c) + toupper(c) + tolower(c) + isspace(c) + islower(c) + isupper(c)
		+ UCS4IsIllegal(c) + UTF8EncodeIllegal('\x80') + UTF8Is1st('x') + UTF8Is2nd('x') + UTF8Len(c) + UTF8CorrectLen('x') + UTF8Len(p) + UTF8Get(p) + UTF8Peek(p)
		+ (UTF8Backup(p) != UTF8Backup(p, p)) + UTF16IsSurrogate(1) + UTF16Is1st(1) + UTF16Is2nd(1) + UCS4HighSurrogate(c) + UCS4LowSurrogate(c) + UTF16Swab(1)
		+ UTF16Get(q) + UTF16Get(q, true) + UTF16Len(c) + UTF16Len(q) + UTF16Len(q, true);
	UTF8PutPaddedZero(w, 2); UTF8Put(w, c); UTF16Put(v, c); UTF16Put(v, c, true);
	return n;
}
