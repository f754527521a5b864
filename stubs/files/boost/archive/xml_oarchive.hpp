#pragma once
#include "vp_streams.h"
#include <boost/serialization/nvp.hpp>
namespace boost { namespace archive {
class xml_oarchive {
    char h_[8];
public:
    template <int D> explicit xml_oarchive(std::vp_stream<D>& s, unsigned = 0) { vp_io_archive(this, &s, 1 + 10); }
    xml_oarchive(xml_oarchive const&) = delete;
    ~xml_oarchive() { vp_io_end(this); }
    template <class T> xml_oarchive& operator<<(boost::serialization::nvp<T> const& n) { vp_io_save(this, n.name(), &n.value()); return *this; }
    template <class T> xml_oarchive& operator<<(T& t) { vp_io_save(this, 0, &t); return *this; }
    template <class T> xml_oarchive& operator&(boost::serialization::nvp<T> const& n) { return *this << n; }
    template <class T> xml_oarchive& operator&(T& t) { return *this << t; }
};
} }
