#pragma once
#include "vp_streams.h"
#include <boost/serialization/nvp.hpp>
namespace boost { namespace archive {
class binary_iarchive {
    char h_[8];
public:
    template <int D> explicit binary_iarchive(std::vp_stream<D>& s, unsigned = 0) { vp_io_archive(this, &s, 2); }
    binary_iarchive(binary_iarchive const&) = delete;
    ~binary_iarchive() { vp_io_end(this); }
    template <class T> binary_iarchive& operator>>(boost::serialization::nvp<T> const& n) { vp_io_load(this, n.name(), &n.value()); return *this; }
    template <class T> binary_iarchive& operator>>(T& t) { vp_io_load(this, 0, &t); return *this; }
    template <class T> binary_iarchive& operator&(boost::serialization::nvp<T> const& n) { return *this >> n; }
    template <class T> binary_iarchive& operator&(T& t) { return *this >> t; }
};
} }
