// stand-in: a tree whose entries are unknown
#pragma once
extern "C" unsigned long vp_io_field(const char*) noexcept;
extern "C" const char* vp_io_text(const char*) noexcept;
extern "C" void vp_io_tree(void*, void*) noexcept;
namespace boost { namespace property_tree { class ptree {}; } }
