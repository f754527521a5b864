// Reading and writing settings: which files are looked at, opened, and what is passed to the archive.
#define DRV extern "C" __attribute__((noinline)) void
#include "vp_streams.h"
#include <string>
#define ifstream vp_ifstream
#define ofstream vp_ofstream
#define fstream vp_fstream
#include "BlasBooster/Utilities/FileIO.h"
using namespace BlasBooster;
struct Settings { long a[4]; };
typedef boost::filesystem::path path;
DRV drv_file_read_xml(Settings& S, std::string const& N, path const& F) { readXML(S, N, F); }
DRV drv_file_read_binary(Settings& S, std::string const& N, path const& F) { readBinary(S, N, F); }
DRV drv_file_write_xml(Settings& S, std::string const& N, path const& F, bool O) { writeXML(S, N, F, O); }
DRV drv_file_write_binary(Settings& S, std::string const& N, path const& F, bool O) { writeBinary(S, N, F, O); }
DRV drv_file_write_xmld(Settings& S, std::string const& N, path const& F) { writeXML(S, N, F); }
DRV drv_file_write_binaryd(Settings& S, std::string const& N, path const& F) { writeBinary(S, N, F); }
#ifdef PART2
#include "BlasBooster/Core/Matrix.h"
#include "BlasBooster/Core/DenseMatrix.h"
typedef Matrix<Dense, double> DD; typedef Matrix<Dense, float> DF;
extern "C" void vp_probe(const char*, ...) noexcept;
DRV drv_matrix_read_d(std::istream& S, DD& C) { S >> C; vp_probe("C", (size_t)C.getNbRows(), (size_t)C.getNbColumns(), C.getDataPointer()); }
DRV drv_matrix_read_f(std::istream& S, DF& C) { S >> C; vp_probe("C", (size_t)C.getNbRows(), (size_t)C.getNbColumns(), C.getDataPointer()); }
#endif
