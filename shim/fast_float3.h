// Included ahead of codon/parser/ast/expr.cpp (-include). The source defines these two options
// empty, which fast_float 6 takes and Ubuntu's fast_float 3.9 (#if NAME) does not.
#define FASTFLOAT_ALLOWS_LEADING_PLUS 1
#define FASTFLOAT_SKIP_WHITE_SPACE 1
#include "fast_float/fast_float.h"
#undef FASTFLOAT_ALLOWS_LEADING_PLUS
#undef FASTFLOAT_SKIP_WHITE_SPACE
