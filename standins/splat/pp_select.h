#pragma once
// stand-in for splat pp_select: SPLAT_ITERATE_WITH(M, a, b, ...) expands to M(a, 0), M(b, 1), ...
#define I_SPLAT_0(M, ...)
#define I_SPLAT_1(M, x0) M(x0, 0)
#define I_SPLAT_2(M, x0, x1) M(x0, 0), M(x1, 1)
#define I_SPLAT_3(M, x0, x1, x2) M(x0, 0), M(x1, 1), M(x2, 2)
#define I_SPLAT_4(M, x0, x1, x2, x3) M(x0, 0), M(x1, 1), M(x2, 2), M(x3, 3)
#define I_SPLAT_5(M, x0, x1, x2, x3, x4) M(x0, 0), M(x1, 1), M(x2, 2), M(x3, 3), M(x4, 4)
#define I_SPLAT_6(M, x0, x1, x2, x3, x4, x5) M(x0, 0), M(x1, 1), M(x2, 2), M(x3, 3), M(x4, 4), M(x5, 5)
#define I_SPLAT_7(M, x0, x1, x2, x3, x4, x5, x6) M(x0, 0), M(x1, 1), M(x2, 2), M(x3, 3), M(x4, 4), M(x5, 5), M(x6, 6)
#define I_SPLAT_8(M, x0, x1, x2, x3, x4, x5, x6, x7) M(x0, 0), M(x1, 1), M(x2, 2), M(x3, 3), M(x4, 4), M(x5, 5), M(x6, 6), M(x7, 7)
#define I_SPLAT_9(M, x0, x1, x2, x3, x4, x5, x6, x7, x8) M(x0, 0), M(x1, 1), M(x2, 2), M(x3, 3), M(x4, 4), M(x5, 5), M(x6, 6), M(x7, 7), M(x8, 8)
#define I_SPLAT_10(M, x0, x1, x2, x3, x4, x5, x6, x7, x8, x9) M(x0, 0), M(x1, 1), M(x2, 2), M(x3, 3), M(x4, 4), M(x5, 5), M(x6, 6), M(x7, 7), M(x8, 8), M(x9, 9)
#define I_SPLAT_11(M, x0, x1, x2, x3, x4, x5, x6, x7, x8, x9, x10) M(x0, 0), M(x1, 1), M(x2, 2), M(x3, 3), M(x4, 4), M(x5, 5), M(x6, 6), M(x7, 7), M(x8, 8), M(x9, 9), M(x10, 10)
#define I_SPLAT_12(M, x0, x1, x2, x3, x4, x5, x6, x7, x8, x9, x10, x11) M(x0, 0), M(x1, 1), M(x2, 2), M(x3, 3), M(x4, 4), M(x5, 5), M(x6, 6), M(x7, 7), M(x8, 8), M(x9, 9), M(x10, 10), M(x11, 11)
#define I_SPLAT_13(M, x0, x1, x2, x3, x4, x5, x6, x7, x8, x9, x10, x11, x12) M(x0, 0), M(x1, 1), M(x2, 2), M(x3, 3), M(x4, 4), M(x5, 5), M(x6, 6), M(x7, 7), M(x8, 8), M(x9, 9), M(x10, 10), M(x11, 11), M(x12, 12)
#define I_SPLAT_14(M, x0, x1, x2, x3, x4, x5, x6, x7, x8, x9, x10, x11, x12, x13) M(x0, 0), M(x1, 1), M(x2, 2), M(x3, 3), M(x4, 4), M(x5, 5), M(x6, 6), M(x7, 7), M(x8, 8), M(x9, 9), M(x10, 10), M(x11, 11), M(x12, 12), M(x13, 13)
#define I_SPLAT_15(M, x0, x1, x2, x3, x4, x5, x6, x7, x8, x9, x10, x11, x12, x13, x14) M(x0, 0), M(x1, 1), M(x2, 2), M(x3, 3), M(x4, 4), M(x5, 5), M(x6, 6), M(x7, 7), M(x8, 8), M(x9, 9), M(x10, 10), M(x11, 11), M(x12, 12), M(x13, 13), M(x14, 14)
#define I_SPLAT_16(M, x0, x1, x2, x3, x4, x5, x6, x7, x8, x9, x10, x11, x12, x13, x14, x15) M(x0, 0), M(x1, 1), M(x2, 2), M(x3, 3), M(x4, 4), M(x5, 5), M(x6, 6), M(x7, 7), M(x8, 8), M(x9, 9), M(x10, 10), M(x11, 11), M(x12, 12), M(x13, 13), M(x14, 14), M(x15, 15)
#define I_SPLAT_17(M, x0, x1, x2, x3, x4, x5, x6, x7, x8, x9, x10, x11, x12, x13, x14, x15, x16) M(x0, 0), M(x1, 1), M(x2, 2), M(x3, 3), M(x4, 4), M(x5, 5), M(x6, 6), M(x7, 7), M(x8, 8), M(x9, 9), M(x10, 10), M(x11, 11), M(x12, 12), M(x13, 13), M(x14, 14), M(x15, 15), M(x16, 16)
#define I_SPLAT_18(M, x0, x1, x2, x3, x4, x5, x6, x7, x8, x9, x10, x11, x12, x13, x14, x15, x16, x17) M(x0, 0), M(x1, 1), M(x2, 2), M(x3, 3), M(x4, 4), M(x5, 5), M(x6, 6), M(x7, 7), M(x8, 8), M(x9, 9), M(x10, 10), M(x11, 11), M(x12, 12), M(x13, 13), M(x14, 14), M(x15, 15), M(x16, 16), M(x17, 17)
#define I_SPLAT_19(M, x0, x1, x2, x3, x4, x5, x6, x7, x8, x9, x10, x11, x12, x13, x14, x15, x16, x17, x18) M(x0, 0), M(x1, 1), M(x2, 2), M(x3, 3), M(x4, 4), M(x5, 5), M(x6, 6), M(x7, 7), M(x8, 8), M(x9, 9), M(x10, 10), M(x11, 11), M(x12, 12), M(x13, 13), M(x14, 14), M(x15, 15), M(x16, 16), M(x17, 17), M(x18, 18)
#define I_SPLAT_20(M, x0, x1, x2, x3, x4, x5, x6, x7, x8, x9, x10, x11, x12, x13, x14, x15, x16, x17, x18, x19) M(x0, 0), M(x1, 1), M(x2, 2), M(x3, 3), M(x4, 4), M(x5, 5), M(x6, 6), M(x7, 7), M(x8, 8), M(x9, 9), M(x10, 10), M(x11, 11), M(x12, 12), M(x13, 13), M(x14, 14), M(x15, 15), M(x16, 16), M(x17, 17), M(x18, 18), M(x19, 19)
#define I_SPLAT_SEL(_0, _1, _2, _3, _4, _5, _6, _7, _8, _9, _10, _11, _12, _13, _14, _15, _16, _17, _18, _19, _20, N, ...) N
#define SPLAT_ITERATE_WITH(M, ...) I_SPLAT_SEL(M, ##__VA_ARGS__, I_SPLAT_20, I_SPLAT_19, I_SPLAT_18, I_SPLAT_17, I_SPLAT_16, I_SPLAT_15, I_SPLAT_14, I_SPLAT_13, I_SPLAT_12, I_SPLAT_11, I_SPLAT_10, I_SPLAT_9, I_SPLAT_8, I_SPLAT_7, I_SPLAT_6, I_SPLAT_5, I_SPLAT_4, I_SPLAT_3, I_SPLAT_2, I_SPLAT_1, I_SPLAT_0)(M, ##__VA_ARGS__)
