#pragma once
#include "ptree.hpp"
#include "vp_streams.h"
namespace boost { namespace property_tree {
template <class S> void read_xml(S& s, ptree& t) { vp_io_tree(&s, &t); }
inline void read_xml(std::string const& s, ptree& t) { vp_io_tree((void*)&s, &t); }
} }
