// Character classes and conversions, for the analysis. Never run.
#include <char_encoding.h>
extern "C" {
UCS4 t_upper(UCS4 ch) { return UCS4ToUpper(ch); }
UCS4 t_lower(UCS4 ch) { return UCS4ToLower(ch); }
int t_digit(UCS4 ch) { return UCS4Digit(ch); }
UCS4 t_title(UCS4 ch) { return UCS4ToTitle(ch); }
bool t_alpha(UCS4 ch) { return UCS4IsAlphabetic(ch); }
int t_hex(UCS4 ch) { return UCS4HexDigit(ch); }
bool t_decimal(UCS4 ch) { return UCS4IsDecimal(ch); }
bool t_white(UCS4 ch) { return UCS4IsWhite(ch); }
UCS4 t_toupper(UCS4 ch) { return toupper(ch); }
UCS4 t_tolower(UCS4 ch) { return tolower(ch); }
bool t_isalpha(UCS4 ch) { return isalpha(ch); }
bool t_isdigit(UCS4 ch) { return isdigit(ch); }
bool t_isalnum(UCS4 ch) { return isalnum(ch); }
}
