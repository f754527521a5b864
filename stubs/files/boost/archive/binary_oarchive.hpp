#pragma once
#include "vp_streams.h"
#include <boost/serialization/nvp.hpp>
namespace boost { namespace archive {
class binary_oarchive {
    char h_[8];
public:
    template <int D> explicit binary_oarchive(std::vp_stream<D>& s, unsigned = 0) { vp_io_archive(this, &s, 2 + 10); }
    binary_oarchive(binary_oarchive const&) = delete;
    ~binary_oarchive() { vp_io_end(this); }
    template <class T> binary_oarchive& operator<<(boost::serialization::nvp<T> const& n) { vp_io_save(this, n.name(), &n.value()); return *this; }
    template <class T> binary_oarchive& operator<<(T& t) { vp_io_save(this, 0, &t); return *this; }
    template <class T> binary_oarchive& operator&(boost::serialization::nvp<T> const& n) { return *this << n; }
    template <class T> binary_oarchive& operator&(T& t) { return *this << t; }
};
} }
