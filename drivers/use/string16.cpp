// Strings of another width of index
#include <variant.h>
template class StrBodyI<unsigned short>;
template class StrRefI<unsigned short>;
template class StrValI<unsigned short>;
StrValB<16>	narrow;
StrValB<32>	wide;
using S = StrValI<unsigned short>;
bool use(S a, S b) { a += b; a += UCS4('x'); a.toLower(); a.toUpper(); a.insert(1, b); return a == b || a < b || (a + b).find(b) >= 0 || a.substr(1, 2).asLower() == b; }
