// Stand-in for BrainTwister/Record.h (not installed here): a plain aggregate
// with the declared members and their defaults, constructible from a
// property tree.
#pragma once
#include <boost/preprocessor/seq/for_each.hpp>
#include <boost/preprocessor/tuple/elem.hpp>
#include <boost/property_tree/ptree.hpp>
#include <string>

#define VP_RECORD_MEMBER(r, data, elem) \
    BOOST_PP_TUPLE_ELEM(3, 0, elem) BOOST_PP_TUPLE_ELEM(3, 1, elem) = BOOST_PP_TUPLE_ELEM(3, 2, elem);
#define VP_RECORD_LOAD(r, data, elem) \
    BOOST_PP_TUPLE_ELEM(3, 1, elem) = tree.get<BOOST_PP_TUPLE_ELEM(3, 0, elem)>( \
        BOOST_PP_STRINGIZE(BOOST_PP_TUPLE_ELEM(3, 1, elem)), BOOST_PP_TUPLE_ELEM(3, 1, elem));

#define BRAINTWISTER_RECORD(NAME, SEQ) \
    struct NAME { \
        BOOST_PP_SEQ_FOR_EACH(VP_RECORD_MEMBER, _, SEQ) \
        NAME() = default; \
        explicit NAME(boost::property_tree::ptree const& doc) { \
            boost::property_tree::ptree const& tree = doc.get_child(#NAME, doc); \
            BOOST_PP_SEQ_FOR_EACH(VP_RECORD_LOAD, _, SEQ) \
        } \
    };
