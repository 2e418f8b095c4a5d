// The checks by property.
#include "core.h"
#define ALL(X) X(01, c01) X(02, c02) X(03, c03) X(04, c04) X(05, c05) X(06, c06) X(07, c07) X(08, c08) X(09, c09) X(10, c10) X(11, c11) X(12, c12) X(13, c13) X(14, c14) X(15, c15) X(16, c16) X(17, c17) X(18, c18) X(19, c19) X(23, c23) X(24, c24)
#define D(n, f) void run_##f();
ALL(D)
#define T(n, f) {"C" #n, run_##f},
Check g_checks[] = {ALL(T) {nullptr, nullptr}};
