// Conversion of multiple matrices: the real element-wise operations.
#include "vp.h"
template <class X, class Y> inline MultipleMatrix<X, Y> both(X& a, Y& b) { return MultipleMatrix<X, Y>(std::shared_ptr<X>(std::shared_ptr<X>(), &a), std::shared_ptr<Y>(std::shared_ptr<Y>(), &b)); }
#define CONV(a, X, b, Y, c, Z) DRV drv_conv_##a##_##b##_##c(X& A, Y& B) { probe("A", A); probe("B", B); Z C(both(A, B)); probe("C", C); probe("A2", A); probe("B2", B); }
CONV(sd, SD, sf, SF, dd, DD) CONV(sd, SD, df, DF, dd, DD) CONV(sd, SD, sf, SF, df, DF) CONV(sd, SD, df, DF, df, DF) CONV(dd, DD, dd, DD, dd, DD)
#define SEE(T, M) probe(#T, M)
#define S3(op, O, a, X, b, Y, c, Z) \
DRV drv_##op##_m##a##b##_##c(X& A, Y& B, Z& E) { probe("A", A); probe("B", B); probe("E", E); auto C = both(A, B) O E; probe("C", C); probe("A2", A); probe("B2", B); probe("E2", E); } \
DRV drv_##op##_##c##_m##a##b(X& A, Y& B, Z& E) { probe("A", A); probe("B", B); probe("E", E); auto C = E O both(A, B); probe("C", C); probe("A2", A); probe("B2", B); probe("E2", E); }
#define A3(op, O, a, X, b, Y, c, Z) \
DRV drv_##op##_##c##_m##a##b(X& A, Y& B, Z& E) { probe("A", A); probe("B", B); probe("E", E); auto M = both(A, B); E O M; probe("C", E); probe("A2", A); probe("B2", B); }
#define BOTH(a, X, b, Y, c, Z) S3(add, +, a, X, b, Y, c, Z) S3(sub, -, a, X, b, Y, c, Z) A3(ads, +=, a, X, b, Y, c, Z) A3(sus, -=, a, X, b, Y, c, Z)
BOTH(sd, SD, df, DF, dd, DD) BOTH(sd, SD, df, DF, df, DF) BOTH(dd, DD, df, DF, dd, DD)
