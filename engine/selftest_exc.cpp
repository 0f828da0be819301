#include "sg.h"
#include <stdexcept>
#include <string>
#include <vector>
#include <memory>
#include <map>
#include <optional>
struct Mine : std::runtime_error { int k; Mine(int k) : std::runtime_error("mine"), k(k) {} };
struct Guard { int &n; Guard(int &n) : n(n) { ++n; } ~Guard() { --n; } };
static int deep(double x, int &n) { Guard g(n); std::vector<double> v(3, x); if (x > 0) throw Mine(7); return v.size(); }
static int mid(double x, int &n) { Guard g(n); try { return deep(x, n); } catch (const std::logic_error &) { return -1; } }
extern "C" void sg_main() {
  double x = sg_real("x", -2, 2); long h0 = sg_heap_live();
  { int n = 0, r = 0; try { r = mid(x, n); } catch (const std::exception &e) { r = 100; sg_assert(std::string(e.what()) == "mine", "what"); sg_assert(dynamic_cast<const Mine *>(&e)->k == 7, "dyn"); }
    sg_assert(n == 0, "unwound"); sg_assert(r == (x > 0 ? 100 : 3), "result"); }
  { int s = 0; try { try { throw std::string("abc"); } catch (std::string &t) { s = t.size(); throw; } } catch (std::string t) { s += t.size(); } sg_assert(s == 6, "rethrow"); }
  { double v = 0; try { v = std::stod("abc"); } catch (const std::invalid_argument &) { v = -1; } sg_assert(v == -1, "stod"); try { v = std::stoi("12x"); } catch (...) { v = 0; } sg_assert(v == 12, "stoi"); }
  { int k = 0; try { throw 3; } catch (double) { k = 9; } catch (int i) { k = i; } sg_assert(k == 3, "int"); try { throw "s"; } catch (const char *p) { k = p[0]; } sg_assert(k == 's', "ptr"); }
  { std::map<int, int> m; bool t = false; try { m.at(3); } catch (std::out_of_range &) { t = true; } sg_assert(t, "map at"); try { std::optional<int> o; o.value(); t = false; } catch (std::bad_optional_access &) {} sg_assert(t, "opt"); }
  sg_assert(sg_heap_live() == h0, "leak");
  if (sg_param("un", 0)) { std::vector<int> v(2); v.at(x > 1 ? 5 : 0) = 1; }
  sg_reach("end");
}
