// Generated matrices: which engine is made, what is drawn from it and what every element becomes.
#include "vp.h"
#include "MatrixFactory/MatrixGenerator.cpp"
#define SET(s) vp_probe("S", (size_t)s.seed, s.minValue, s.maxValue)
DRV drv_gen_call(size_t r, size_t c, MatrixGenerator::Settings const& s) {
    MatrixGenerator const G(r, c, s);   // of known type: its virtual functions are followed
    vp_probe("G", (size_t)G.nbRows, (size_t)G.nbColumns); SET(G.settings);
    Matrix<Dense, double> C(G()); probe("C", C);
    vp_probe("G2", (size_t)G.nbRows, (size_t)G.nbColumns); vp_probe("S2", (size_t)G.settings.seed, G.settings.minValue, G.settings.maxValue); }
DRV drv_gen_make(size_t r, size_t c, MatrixGenerator::Settings const& s) {
    SET(s); MatrixGenerator G(r, c, s);
    vp_probe("G", (size_t)G.getNbRows(), (size_t)G.getNbColumns(), (size_t)G.nbRows, (size_t)G.nbColumns);
    vp_probe("S2", (size_t)G.settings.seed, G.settings.minValue, G.settings.maxValue); }
