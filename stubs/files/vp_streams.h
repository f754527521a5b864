// stand-ins for the file streams: every operation is a call of an unknown function
#pragma once
#include <fstream>
#include <iostream>
#include <string>
extern "C" {
void vp_io_open(void* stream, __attribute__((noescape)) const char* name, int mode, int dir) noexcept;
void vp_io_close(void* stream) noexcept;
bool vp_io_good(const void* stream) noexcept;
bool vp_io_bad(const void* stream) noexcept;
bool vp_io_eof(const void* stream) noexcept;
bool vp_io_isopen(const void* stream) noexcept;
void vp_io_clear(void* stream) noexcept;
int vp_io_peek(void* stream) noexcept;
void vp_io_read(void* stream, void* to, long n) noexcept;
void vp_io_write(void* stream, const void* from, long n) noexcept;
void vp_io_seek(void* stream, long off, int whence) noexcept;
long vp_io_tell(void* stream) noexcept;
long vp_io_count(void* stream) noexcept;
void vp_io_archive(void* ar, void* stream, int kind) noexcept;
void vp_io_end(void* ar) noexcept;
void vp_io_load(void* ar, const char* name, void* obj) noexcept;
void vp_io_save(void* ar, const char* name, const void* obj) noexcept;
}
namespace boost { namespace filesystem { class path; } }
namespace std {
string vp_string(const char*);
struct vp_text { const char* p; vp_text(const char* q = "") : p(q) {} const char* c_str() const { return p; } operator string() const { return vp_string(p); } };
string operator+(const char*, vp_text);
string operator+(string const&, vp_text);
template <int Dir> class vp_stream {
    char h_[16];
public:
    typedef ios_base::openmode openmode; typedef ios_base::seekdir seekdir;
    static const openmode in = ios_base::in, out = ios_base::out, binary = ios_base::binary, trunc = ios_base::trunc, app = ios_base::app, ate = ios_base::ate;
    static const seekdir cur = ios_base::cur, beg = ios_base::beg, end = ios_base::end;
    typedef long pos_type; typedef long off_type;
    vp_stream() {}
    explicit vp_stream(const char* n, openmode m = openmode(0)) { vp_io_open(this, n, int(m), Dir); }
    explicit vp_stream(string const& n, openmode m = openmode(0)) { vp_io_open(this, n.c_str(), int(m), Dir); }
    explicit vp_stream(vp_text const& n, openmode m = openmode(0)) { vp_io_open(this, n.c_str(), int(m), Dir); }
    void open(vp_text const& n, openmode m = openmode(0)) { vp_io_open(this, n.c_str(), int(m), Dir); }
    vp_stream(vp_stream const&) = delete;
    ~vp_stream() { vp_io_close(this); }
    void open(const char* n, openmode m = openmode(0)) { vp_io_open(this, n, int(m), Dir); }
    void open(string const& n, openmode m = openmode(0)) { vp_io_open(this, n.c_str(), int(m), Dir); }
    void close() { vp_io_close(this); }
    bool good() const { return vp_io_good(this); }
    bool is_open() const { return vp_io_isopen(this); }
    bool fail() const { return !vp_io_good(this); }
    bool bad() const { return vp_io_bad(this); }
    void clear() { vp_io_clear(this); }
    int peek() { return vp_io_peek(this); }
    bool eof() const { return vp_io_eof(this); }
    explicit operator bool() const { return vp_io_good(this); }
    bool operator!() const { return !vp_io_good(this); }
    vp_stream& read(char* p, long n) { vp_io_read(this, p, n); return *this; }
    vp_stream& write(const char* p, long n) { vp_io_write(this, p, n); return *this; }
    vp_stream& seekg(long p) { vp_io_seek(this, p, 0); return *this; }
    vp_stream& seekg(long p, seekdir d) { vp_io_seek(this, p, int(d)); return *this; }
    vp_stream& ignore(long n = 1) { vp_io_seek(this, n, 1); return *this; }
    long tellg() { return vp_io_tell(this); }
    long gcount() const { return vp_io_count(const_cast<vp_stream*>(this)); }
};
typedef vp_stream<0> vp_ifstream;
typedef vp_stream<1> vp_ofstream;
typedef vp_stream<2> vp_fstream;
}
