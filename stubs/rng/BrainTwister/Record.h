// Stand-in for BrainTwister/Record.h (not installed here): a record whose
// constructor gives every member its default.
#pragma once
#include <boost/preprocessor/seq/for_each.hpp>
#include <boost/preprocessor/tuple/elem.hpp>
#define VP_RECORD_MEMBER(r, data, elem) BOOST_PP_TUPLE_ELEM(3, 0, elem) BOOST_PP_TUPLE_ELEM(3, 1, elem);
#define VP_RECORD_INIT(r, data, elem) BOOST_PP_TUPLE_ELEM(3, 1, elem) = BOOST_PP_TUPLE_ELEM(3, 2, elem);
#define BRAINTWISTER_RECORD(NAME, SEQ) \
    struct NAME { \
        BOOST_PP_SEQ_FOR_EACH(VP_RECORD_MEMBER, _, SEQ) \
        NAME() { BOOST_PP_SEQ_FOR_EACH(VP_RECORD_INIT, _, SEQ) } \
        template <class Tree> explicit NAME(Tree const&);  \
    };
