// Stand-in for photospline's splinetable (not installed here): a table whose values are a multilinear polynomial of the
// coordinates, which a first-order spline reproduces exactly. Same interface, same refusals: a file or buffer that is no table,
// reading into a table that has data already, and points outside the table, which have no centre.
#pragma once
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <map>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>
namespace photospline {
template <class Alloc = std::allocator<void>> class splinetable {
    std::vector<double> lo, hi, c; std::map<std::string, std::string> keys; uint32_t ndim = 0;
    void parse(std::string const &s) {
        if (ndim) throw std::runtime_error("splinetable already contains data, cannot read from FITS file");
        std::istringstream i(s); std::string magic; uint32_t n = 0; if (!(i >> magic >> n) || magic != "SPLINE" || n < 1 || n > 8) throw std::runtime_error("not a spline table");
        std::vector<double> l(n), h(n), k(size_t(1) << n); for (uint32_t d = 0; d < n; ++d) if (!(i >> l[d] >> h[d])) throw std::runtime_error("incomplete spline table"); for (auto &x : k) if (!(i >> x)) throw std::runtime_error("incomplete spline table");
        std::map<std::string, std::string> m; size_t nk = 0; if (!(i >> nk)) throw std::runtime_error("incomplete spline table"); for (size_t q = 0; q < nk; ++q) { std::string a, b; if (!(i >> a >> b)) throw std::runtime_error("incomplete spline table"); m[a] = b; }
        lo = l; hi = h; c = k; keys = m; ndim = n; }
    std::string text() const { std::ostringstream o; o.precision(17); o << "SPLINE " << ndim; for (uint32_t d = 0; d < ndim; ++d) o << " " << lo[d] << " " << hi[d]; for (double x : c) o << " " << x; o << " " << keys.size(); for (auto &k : keys) o << " " << k.first << " " << k.second; o << "\n"; return o.str(); }
public:
    typedef void *benchmark_results;
    splinetable() {} splinetable(splinetable &&) = default; splinetable &operator=(splinetable &&) = default; splinetable(splinetable const &) = delete; splinetable &operator=(splinetable const &) = delete;
    explicit splinetable(std::string const &path) { read_fits(path); }
    void read_fits(std::string const &path) { std::ifstream f(path, std::ios::binary); if (!f) throw std::runtime_error("cannot open " + path); std::stringstream s; s << f.rdbuf(); parse(s.str()); }
    void read_fits_mem(void *buffer, size_t size) { parse(std::string((char *)buffer, size)); }
    std::pair<void *, size_t> write_fits_mem() const { std::string s = text(); void *p = std::malloc(s.size()); std::memcpy(p, s.data(), s.size()); return {p, s.size()}; }
    void write_fits(std::string const &path) const { std::ofstream(path, std::ios::binary) << text(); }
    uint32_t get_ndim() const { return ndim; } double lower_extent(uint32_t d) const { return lo.at(d); } double upper_extent(uint32_t d) const { return hi.at(d); }
    template <class T> bool read_key(char const *k, T &v) const { auto i = keys.find(k); if (i == keys.end()) return false; std::istringstream s(i->second); T x; if (!(s >> x)) return false; v = x; return true; }
    bool searchcenters(double const *x, int *centers) const { for (uint32_t d = 0; d < ndim; ++d) { if (!(x[d] >= lo[d] && x[d] <= hi[d])) return false; centers[d] = 7 + d; } return true; }
    double ndsplineeval(double const *x, int const *centers, int derivatives) const { if (derivatives) throw std::runtime_error("stand-in: derivatives"); for (uint32_t d = 0; d < ndim; ++d) if (centers[d] != int(7 + d)) throw std::runtime_error("stand-in: no centre was searched for this point"); double s = 0; for (size_t m = 0; m < c.size(); ++m) { double t = c[m]; for (uint32_t d = 0; d < ndim; ++d) if (m >> d & 1) t *= x[d]; s += t; } return s; }
    bool operator==(splinetable const &o) const { return ndim == o.ndim && lo == o.lo && hi == o.hi && c == o.c && keys == o.keys; } bool operator!=(splinetable const &o) const { return !(*this == o); }
};
}
