#pragma once
#include "vp_streams.h"
#include <boost/serialization/nvp.hpp>
namespace boost { namespace archive {
class xml_iarchive {
    char h_[8];
public:
    template <int D> explicit xml_iarchive(std::vp_stream<D>& s, unsigned = 0) { vp_io_archive(this, &s, 1); }
    xml_iarchive(xml_iarchive const&) = delete;
    ~xml_iarchive() { vp_io_end(this); }
    template <class T> xml_iarchive& operator>>(boost::serialization::nvp<T> const& n) { vp_io_load(this, n.name(), &n.value()); return *this; }
    template <class T> xml_iarchive& operator>>(T& t) { vp_io_load(this, 0, &t); return *this; }
    template <class T> xml_iarchive& operator&(boost::serialization::nvp<T> const& n) { return *this >> n; }
    template <class T> xml_iarchive& operator&(T& t) { return *this >> t; }
};
} }
