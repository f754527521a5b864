// Common prelude of the analysis drivers (never executed: only compiled to IR).
#pragma once
#include <boost/serialization/base_object.hpp>
#include <array>
#include <cassert>
#include <complex>
#include <iostream>
#include <memory>
#include <vector>
#include "BlasBooster/Core/AllMatrixTypes.h"
#include "BlasBooster/Core/Multiplication_Native.h"

using namespace BlasBooster;

// Opaque observation point: the values passed are what the API reports there.
extern "C" void vp_probe(const char* tag, ...) noexcept;

typedef Parameter<size_t, ColumnMajor> ColP;
typedef Parameter<size_t, RowMajor> RowP;
typedef Matrix<Dense, double> DD;
typedef Matrix<Dense, float> DF;
typedef Matrix<Sparse, double> SD;
typedef Matrix<Sparse, float> SF;
typedef Matrix<Zero> ZZ;
typedef Matrix<Dense, double, RowP> DDr;
typedef Matrix<Dense, float, RowP> DFr;
typedef Matrix<Sparse, double, RowP> SDr;
typedef Matrix<Sparse, float, RowP> SFr;
typedef Matrix<Zero, NullType, RowP> ZZr;

template <class T, class P> inline void probe(const char* tag, Matrix<Dense,T,P>& m)
{
    typedef typename Matrix<Dense,T,P>::storage storage;
    vp_probe(tag, (size_t)sizeof(T), (size_t)m.getNbRows(), (size_t)m.getNbColumns(), (size_t)m.getSize(),
        (size_t)static_cast<storage const&>(m).size(), m.getDataPointer());
}

// Sparse matrices own their arrays: no constructor takes external ones (needs -fno-access-control).
#ifdef VP_OWNS
template <class M> inline auto owns(M& m, int) -> decltype((void)m.value_.ownMemory_, (void)m.key_.ownMemory_, (void)m.offset_.ownMemory_)
{ if (!m.value_.ownMemory_ || !m.key_.ownMemory_ || !m.offset_.ownMemory_) __builtin_unreachable(); }
#endif
template <class M> inline void owns(M&, long) {}

template <class T, class P> inline void probe(const char* tag, Matrix<Sparse,T,P>& m)
{
    if (tag[0] == 'A' || tag[0] == 'B' || (tag[0] == 'C' && tag[1] == '0')) owns(m, 0);
    vp_probe(tag, (size_t)sizeof(T), (size_t)m.getNbRows(), (size_t)m.getNbColumns(), (size_t)m.getSize(), (size_t)m.nnz(),
        (size_t)m.sizeOffset(), (size_t)(m.endKey() - m.beginKey()),
        &*m.begin(), &*m.beginKey(), &*m.beginOffset());
}

template <class P> inline void probe(const char* tag, Matrix<Zero,NullType,P>& m)
{
    vp_probe(tag, (size_t)m.getNbRows(), (size_t)m.getNbColumns(), (size_t)m.getSize());
}

template <class M> inline void probe(const char* tag, M const& m) { probe(tag, const_cast<M&>(m)); }

#define DRV extern "C" void
