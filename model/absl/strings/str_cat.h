// Verification model (trusted): the text of concatenations is not modelled beyond being some string.
#pragma once
#include <string>
namespace absl { enum PadSpec { kNoPad, kZeroPad2, kZeroPad4, kZeroPad8, kZeroPad16 };
struct Hex { unsigned long long v; template <class T> explicit Hex(T x, PadSpec = kNoPad) : v(x) {} };
struct Dec { unsigned long long v; template <class T> explicit Dec(T x, PadSpec = kNoPad) : v(x) {} };
#ifdef VP_STR_ID
template <class... A> std::string StrCat(const A&...) { std::string s; s.id = __vp_fresh_id(); return s; }
template <class... A> void StrAppend(std::string* s, const A&...) { s->id = __vp_fresh_id(); }
#else
template <class... A> void StrAppend(std::string*, const A&...) {}
template <class... A> std::string StrCat(const A&...) { return std::string(); }
#endif
}
