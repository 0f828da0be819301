#include "sg.h"
#include <algorithm>
#include <array>
#include <cmath>
#include <deque>
#include <functional>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <numeric>
#include <optional>
#include <queue>
#include <set>
#include <string>
#include <tuple>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <complex>
#include <valarray>
#include <iterator>
#include <cstring>
#include <utility>
struct P2 { double x, y; }; struct P3 { double x, y, z; }; struct Big { double a[6]; int n; };
static P2 mk(double a, double b) { return {a, b}; }
static P3 mk3(double a, double b) { return {a, b, a + b}; }
static double use(Big b) { b.a[0] += 1; return b.a[0] + b.n; }
static double use3(P3 p) { return p.x + p.y + p.z; }
struct Base { virtual ~Base() {} virtual double f(double x) const = 0; };
struct D1 : Base { double f(double x) const override { return 2 * x; } }; struct D2 : Base { double f(double x) const override { return 3 * x; } };
static const std::vector<int> gv = {1, 2, 3}; static const std::string gs = "a longer string than fits in the object";
namespace { constexpr std::array<int, 4> ga = {4, 5, 6, 7}; }
template <class... T> double sum(T... t) { return (t + ...); }
void sg_main() {
  double x = sg_real("x", -2, 2), y = sg_real("y", 0.5, 3); int part = (int)sg_param("part", -1);
  auto on = [&](int k) { return part < 0 || part == k; };
  if (on(0)) { P2 p = mk(x, y); auto [a, b] = p; sg_assert(a == x && b == y, "p2"); P3 q = mk3(x, y); sg_assert(sg_near(use3(q), 2 * (x + y), 1e-12), "p3"); Big g{{x}, 4}; sg_assert(use(g) == x + 5 && g.a[0] == x, "byval"); std::array<double, 2> r = {x, y}; auto sw = [](std::array<double, 2> v) { std::swap(v[0], v[1]); return v; }; auto s = sw(r); sg_assert(s[0] == y && r[0] == x, "array"); auto t = std::make_tuple(x, y, 3); sg_assert(std::get<1>(t) == y, "tuple"); std::pair<double, double> pr(x, y); auto f2 = [](std::pair<double, double> p) { return std::make_pair(p.second, p.first); }; sg_assert(f2(pr).first == y, "pair"); }
  if (on(1)) { std::unordered_map<int, double> m; for (int i = 0; i < 40; ++i) m[i * 7] = x + i; double s = 0; for (auto &k : m) s += k.second; sg_assert(m.at(14) == x + 2 && m.count(15) == 0, "umap"); std::unordered_set<std::string> us{"ab", "cd"}; us.insert("ab"); sg_assert(us.size() == 2, "uset"); sg_assert(sg_near(s, 40 * x + 780, 1e-9), "umap sum"); }
  if (on(2)) { std::list<double> l{1, 2, 3}; l.push_front(x); l.remove(7); l.reverse(); sg_assert(l.back() == x && l.size() == 4, "list"); std::deque<double> d; for (int i = 0; i < 100; ++i) d.push_back(i); d.push_front(x); d.pop_back(); sg_assert(d[0] == x && d.size() == 100, "deque"); std::priority_queue<double> q; q.push(x); q.push(5); sg_assert(q.top() == 5, "pq"); }
  if (on(3)) { std::unique_ptr<Base> b(new D1); std::shared_ptr<Base> c = std::make_shared<D2>(); auto c2 = c; std::function<double(double)> f = [&](double z) { return b->f(z) + c2->f(y); }; sg_assert(sg_near(f(x), 2 * x + 3 * y, 1e-9), "virtual, function"); std::vector<std::unique_ptr<Base>> v; v.push_back(std::make_unique<D1>()); sg_assert(v[0]->f(1) == 2, "vector of unique_ptr"); Base *bp = c.get(); sg_assert(bp->f(1) == 3, "virtual"); }
  if (on(4)) { std::vector<double> v{3, x, y, 1}; std::stable_sort(v.begin(), v.end()); sg_assert(std::is_sorted(v.begin(), v.end()), "stable_sort"); auto mm = std::minmax_element(v.begin(), v.end()); sg_assert(*mm.first <= *mm.second, "minmax"); sg_assert(sg_near(std::accumulate(v.begin(), v.end(), 0.0), x + y + 4, 1e-9), "accumulate"); sg_assert(std::clamp(x, -1.0, 1.0) <= 1, "clamp"); std::sort(v.begin(), v.end(), std::greater<double>()); sg_assert(v[0] >= v[3], "greater"); std::partial_sort(v.begin(), v.begin() + 2, v.end()); std::nth_element(v.begin(), v.begin() + 1, v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); v.erase(std::remove_if(v.begin(), v.end(), [](double z) { return z > 2; }), v.end()); std::vector<double> w; std::transform(v.begin(), v.end(), std::back_inserter(w), [](double z) { return 2 * z; }); sg_assert(w.size() == v.size(), "transform"); auto it = std::lower_bound(v.begin(), v.end(), 0.0); (void)it; std::rotate(w.begin(), w.begin() + (w.size() > 1), w.end()); std::reverse(w.begin(), w.end()); sg_assert(std::inner_product(v.begin(), v.end(), v.begin(), 0.0) >= 0, "inner"); }
  if (on(5)) { sg_assert(std::isfinite(x) && !std::isnan(x), "finite"); sg_assert(std::hypot(x, y) >= y - 1e-9, "hypot"); sg_assert(std::lround(y) >= 0 && std::lround(y) <= 3, "lround"); sg_assert(std::fmod(y, 1.0) < 1, "fmod"); sg_assert(std::signbit(-1.0), "signbit"); sg_assert(std::pow(x, 2) >= 0, "pow"); sg_assert(std::copysign(y, -1.0) < 0, "copysign"); sg_assert(std::trunc(y) <= y, "trunc"); sg_assert(std::max({x, y, -5.0}) >= y, "max list"); sg_assert(std::abs(x) >= 0, "abs"); }
  if (on(6)) { sg_assert(gv[1] == 2 && gs.size() > 20 && ga[2] == 6, "globals"); static const std::vector<double> loc = {1, 2}; sg_assert(loc[1] == 2, "static local"); std::map<std::pair<int, int>, double> m; m[{1, 2}] = x; m.emplace(std::make_pair(0, 1), y); auto [it, ok] = m.insert({{1, 2}, y}); sg_assert(!ok && it->second == x, "map"); std::set<std::array<size_t, 3>> s; s.insert({1, 2, 3}); s.insert({1, 2, 3}); sg_assert(s.size() == 1, "set of array"); std::multimap<int, double> mm; mm.insert({1, x}); mm.insert({1, y}); sg_assert(mm.count(1) == 2, "multimap"); std::map<std::vector<size_t>, int> mv; mv[{1, 2}]++; m.erase(m.begin()); std::vector<bool> vb(10, false); vb[3] = true; sg_assert(std::count(vb.begin(), vb.end(), true) == 1, "vector<bool>"); }
  if (on(7)) { std::string s = "abc" + std::to_string(12) + "x"; sg_assert(s == "abc12x" && s.find("12") == 3 && s.substr(1, 2) == "bc", "string"); std::vector<std::string> t; std::string u = "1,2,,3"; size_t a = 0; for (size_t p; (p = u.find_first_of(",", a)) != std::string::npos; a = p + 1) t.emplace_back(u, a, p - a); t.push_back(u.substr(a)); sg_assert(t.size() == 4 && t[3] == "3", "split"); sg_assert(std::stoi("42") == 42 && std::stod("2.5") == 2.5, "stoi"); s.erase(0, 1); s.insert(0, "zz"); s += 'q'; s.replace(0, 2, "k"); sg_assert(s[0] == 'k' && s.back() == 'q', "edit"); sg_assert(!s.empty() && s.compare("k") > 0, "compare"); sg_assert(sum(x, y, 1) == x + y + 1, "fold"); }
  if (on(8)) { std::optional<double> o; sg_assert(!o, "optional"); o = x; sg_assert(*o == x, "optional value"); std::optional<P2> op = P2{x, y}; sg_assert(op->y == y, "optional struct"); double arr[2][3] = {{x, 1, 2}, {3, y, 5}}; double s = 0; for (auto &r : arr) for (double e : r) s += e; sg_assert(sg_near(s, x + y + 11, 1e-9), "range for"); enum class E { A, B }; E e = x > 0 ? E::A : E::B; switch (e) { case E::A: sg_assert(x > 0, "A"); break; case E::B: sg_assert(x <= 0, "B"); break; } std::valarray<double> va{x, y}; sg_assert(sg_near((va * va).sum(), x * x + y * y, 1e-9), "valarray"); double buf[2]; double src[2] = {x, y}; std::copy_n(src, 2, buf); std::memcpy(buf, src, sizeof buf); sg_assert(buf[1] == y, "memcpy"); std::fill(std::begin(buf), std::end(buf), 0.0); int k = 5; do { if (k == 3) goto out; } while (--k); out: sg_assert(k == 3, "goto"); try { if (k == 4) throw 1; } catch (int) { sg_assert(false, "no"); } }
  if (on(9)) { std::complex<double> z(x, y); z *= std::complex<double>(0, 1); sg_assert(sg_near(z.real(), -y, 1e-9) & sg_near(z.imag(), x, 1e-9), "complex"); }
  sg_reach("end");
}
