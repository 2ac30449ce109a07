// Declaration standing in for RE2, which is not installed here; nothing under contract matches expressions.
#ifndef VP_RE2_H_
#define VP_RE2_H_
class RE2 {};
#endif
