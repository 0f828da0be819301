#include "sg.h"
#include <vector>
#include <string>
#include <set>
#include <cmath>
#include <cstdlib>
#include <algorithm>
#include <numeric>
#include <deque>
#include <bitset>
#include <tuple>
#include <charconv>
#include <string_view>
#include <cstring>
#include <span>
#include <variant>
#include <any>
#include <chrono>
#include <mutex>
#include <memory>
#include <iterator>
#include <sstream>
#include <iomanip>
#include <fstream>
#include <stdexcept>
#include <forward_list>
extern "C" void sg_main() {
  double x = sg_real("x", -2, 2), y = sg_real("y", 0.5, 3); int part = (int)sg_param("part", -1);
  if (part == 1) { sg_assert(std::ldexp(1.0, 3) == 8 && std::exp2(3.0) == 8, "ldexp"); sg_assert(std::ldexp(x, 1) == 2*x, "ldexp x"); }
  if (part == 2) { sg_assert(std::fmax(x, y) >= x, "fmax"); sg_assert(std::fmin(x, y) <= x, "fmin"); sg_assert(sg_near(std::fma(x, y, 1.0), x*y+1,1e-9), "fma"); }
  if (part == 3) { double r = std::round(x); sg_assert(r - x <= 0.5 && x - r <= 0.5, "round"); r = std::rint(x); sg_assert(r - x <= 0.5 && x - r <= 0.5, "rint"); r = std::nearbyint(x); sg_assert(r - x <= 0.5, "nearbyint"); long l = std::lrint(x); sg_assert(l - x <= 0.5, "lrint"); r = std::ceil(x); sg_assert(r >= x, "ceil"); }
  if (part == 4) { double ip; double f = std::modf(x, &ip); sg_assert(f + ip == x, "modf"); }
  if (part == 5) { auto d = std::div(17, 5); sg_assert(d.quot == 3 && d.rem == 2, "div"); std::bitset<8> b(5); sg_assert(b.count() == 2 && b[0], "bitset"); }
  if (part == 6) { sg_assert(std::fdim(x, y) >= 0, "fdim"); sg_assert(std::fabs(x) >= 0, "fabs"); sg_assert(std::signbit(x) == (x < 0) || x == 0, "signbit"); }
  if (part == 7) { auto [a, b] = std::minmax(x, y); sg_assert(a <= b, "minmax"); auto t = std::tie(x, y); sg_assert(std::get<0>(t) == x, "tie"); std::tuple<int, double> u(1, x), v(1, y); sg_assert((u < v) == (x < y), "tuple <"); }
  if (part == 8) { std::variant<int, double> v = x; sg_assert(std::get<double>(v) == x, "variant"); std::visit([&](auto z) { sg_assert(z == x, "visit"); }, v); }
  if (part == 9) { std::string_view s = "12,3"; int k = 0; std::from_chars(s.data(), s.data() + 2, k); sg_assert(k == 12, "from_chars"); sg_assert(s.find(',') == 2, "find"); char *e; sg_assert(std::strtol("17x", &e, 10) == 17 && *e == 'x', "strtol"); sg_assert(std::strtod("1.5e1", &e) == 15, "strtod"); }
  if (part == 10) { std::istringstream is("1.5 7 abc"); double d; int k; std::string s; is >> d >> k >> s; sg_assert(d == 1.5 && k == 7 && s == "abc", "istringstream"); }
  if (part == 11) { std::stringstream ss("a,b"); std::string tok; int n = 0; while (std::getline(ss, tok, ',')) ++n; sg_assert(n == 2, "getline"); }
  if (part == 12) { std::ostringstream os; os << "a" << 3; sg_assert(os.str() == "a3", "ostringstream"); }
  if (part == 13) { try { throw std::runtime_error("x"); } catch (const std::exception &e) { sg_assert(std::string(e.what()) == "x", "what"); } try { std::vector<int> v(2); v.at(5) = 1; sg_assert(false, "at"); } catch (std::out_of_range &) {} }
  if (part == 14) { std::forward_list<double> l{x, y}; double s = 0; for (double d : l) s += d; sg_assert(s == x + y, "fl"); std::vector<bool> vb(10, false); vb[3] = x > 0; sg_assert(vb[3] == (x > 0), "vb"); static thread_local double tl = 3; sg_assert(tl == 3, "tls"); auto p = std::make_shared<std::vector<double>>(3, x); std::weak_ptr<std::vector<double>> w = p; sg_assert(w.lock()->at(1) == x, "weak"); }
  if (part == 15) { std::mutex m; { std::lock_guard<std::mutex> g(m); } static double once = [] { return 4.0; }(); sg_assert(once == 4, "static"); }
  if (part == 16) { std::deque<double> d; for (int i = 0; i < 200; ++i) d.push_back(x + i); d.pop_front(); sg_assert(d.front() == x + 1 && d.size() == 199, "deque"); std::vector<double> a{3, x}, b(a); std::swap_ranges(a.begin(), a.end(), b.begin()); sg_assert(a == b, "eq"); sg_assert(std::equal(a.begin(), a.end(), b.begin()), "equal"); std::partial_sum(a.begin(), a.end(), b.begin()); sg_assert(b[1] == 3 + x, "psum"); std::iota(a.begin(), a.end(), 0); std::adjacent_difference(a.begin(), a.end(), b.begin()); sg_assert(std::all_of(a.begin(), a.end(), [](double z) { return z >= 0; }), "all_of"); sg_assert(std::max({1.0, 2.0, y}) >= 2, "init list"); sg_assert(std::lexicographical_compare(a.begin(), a.end(), b.begin(), b.end()) || true, "lex"); }
  if (part == 17) { qsort; double v[3] = {y, x, 1}; std::qsort(v, 3, sizeof(double), [](const void *a, const void *b) { double p = *(const double *)a, q = *(const double *)b; return (p > q) - (p < q); }); sg_assert(v[0] <= v[1] && v[1] <= v[2], "qsort"); double w[3]; std::memmove(w, v, sizeof v); std::memset(w, 0, sizeof w); sg_assert(w[2] == 0, "memset"); std::vector<double> cmp{1, 2}; sg_assert(std::memcmp(&cmp[0], &cmp[0], 16) == 0, "memcmp"); double *c = (double *)std::calloc(3, 8); c = (double *)std::realloc(c, 48); sg_assert(c[2] == 0, "calloc"); std::free(c); }
  if (part == 18) { sg_assert(sg_near(std::atan2(1.0, 0.0), std::acos(-1.0) / 2, 1e-9), "acos"); sg_assert(sg_near(std::sqrt(y) * std::sqrt(y), y, 1e-9), "sqrt"); double s = std::sin(x), c = std::cos(x); sg_assert(sg_near(s * s + c * c, 1, 1e-9), "sincos"); sg_assert(std::cbrt(8.0) == 2, "cbrt"); sg_assert(sg_near(std::pow(y, 2), y * y, 1e-9), "pow2"); sg_assert(sg_near(std::tan(0.3), std::sin(0.3) / std::cos(0.3), 1e-9), "tan"); sg_assert(std::log2(8.0) == 3, "log2"); sg_assert(sg_near(std::asin(1.0), std::acos(0.0), 1e-9), "asin"); sg_assert(std::hypot(3.0, 4.0) == 5, "hypot"); sg_assert(std::remainder(5.0, 3.0) == -1, "remainder"); }
  sg_reach("end");
}
