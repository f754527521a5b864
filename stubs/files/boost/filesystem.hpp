// stand-in: paths whose existence is asked of an unknown function
#pragma once
#include <string>
#include <boost/system/error_code.hpp>
extern "C" bool vp_io_exists(const void*) noexcept;
namespace boost { namespace filesystem {
class path {
    std::string s_;
public:
    path(); path(std::string const&); path(const char*);
    std::string const& string() const { return s_; }
    std::string const& native() const { return s_; }
    const char* c_str() const { return s_.c_str(); }
    operator std::string() const { return s_; }
    bool empty() const { return s_.empty(); }
};
inline bool exists(path const& p) { return vp_io_exists(&p); }
inline bool exists(path const& p, boost::system::error_code&) { return vp_io_exists(&p); }
inline bool is_regular_file(path const& p) { return vp_io_exists(&p); }
} }
