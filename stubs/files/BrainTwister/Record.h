// Stand-in for BrainTwister/Record.h: members are read from the tree one by one; texts are opaque.
#pragma once
#include <boost/preprocessor/seq/for_each.hpp>
#include <boost/preprocessor/tuple/elem.hpp>
#include <boost/preprocessor/stringize.hpp>
#include <boost/property_tree/ptree.hpp>
#include "vp_streams.h"
template <class T> struct vp_member { typedef T type; };
template <> struct vp_member<std::string> { typedef std::vp_text type; };
#define VP_RECORD_MEMBER(r, data, elem) \
    typename vp_member<BOOST_PP_TUPLE_ELEM(3, 0, elem)>::type BOOST_PP_TUPLE_ELEM(3, 1, elem) = BOOST_PP_TUPLE_ELEM(3, 2, elem);
#define VP_RECORD_LOAD(r, data, elem) \
    vp_load(BOOST_PP_STRINGIZE(BOOST_PP_TUPLE_ELEM(3, 1, elem)), BOOST_PP_TUPLE_ELEM(3, 1, elem));
#define BRAINTWISTER_RECORD(NAME, SEQ) \
    struct NAME { \
        BOOST_PP_SEQ_FOR_EACH(VP_RECORD_MEMBER, _, SEQ) \
        NAME() = default; \
        explicit NAME(boost::property_tree::ptree const&) { BOOST_PP_SEQ_FOR_EACH(VP_RECORD_LOAD, _, SEQ) } \
        template <class T> static void vp_load(const char* n, T& x) { x = T(vp_io_field(n)); } \
        static void vp_load(const char* n, std::vp_text& x) { x.p = vp_io_text(n); } \
    };
