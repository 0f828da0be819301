// C22: command line parsing
#include "H.h"
#include "CmdLineArgParser.h"
#include <cstring>
static bool eq(const std::string &a, const char *b) { return a.size() == strlen(b) && a.compare(b) == 0; }
// the value of the argument following the last occurrence of name that is followed by one, or d
static const char *follows(int n, char **a, const char *name, const char *d) { for (int i = 1; i + 1 < n; ++i) if (!strcmp(a[i], name)) d = a[i + 1]; return d; }
static int times(int n, char **a, const char *name) { int c = 0; for (int i = 1; i < n; ++i) c += !strcmp(a[i], name); return c; }
static const char *BYTES = "0123456789-+. ,eab";
// symbolic text of length 0..n over the bytes above (first many of them)
static void text(char *s, int n, int many, const char *name) {
  int len = (int)sg_choose(nm(name, -1), 0, n);
  for (int i = 0; i < len; ++i) { long c = sg_int(nm(name, i), 32, 101); bool ok = false; for (int k = 0; k < many; ++k) ok |= c == BYTES[k]; sg_assume(ok); s[i] = (char)c; }
  s[len] = 0;
}
static const char *WORDS[] = {"-i", "-d", "-s", "-b", "--dd", "--ss", "7", "-5", "x", "1.5", "", "-", "-2.5e1", "-q", "--", "--s", "-bb", "-h", "--help", "ab,c", "-s", "a value of more than fifteen bytes, with a comma", "--ss", "-d", "123456.789012345678",
  "a value of more than a hundred bytes: abcdefghijklmnopqrstuvwxyz, ABCDEFGHIJKLMNOPQRSTUVWXYZ, 0123456789, -+.:;!? and so on, until this end"};
static char buf[48][320]; static char *argv_[49];
void sg_main() {
  int mode = (int)sg_param("mode", 0), n = (int)sg_param("n", 3), pad = (int)sg_param("pad", 0); n += pad;
  {
    CmdLineArgParser p; p.setPurpose("check");
    if (mode == 0 || mode == 1) {
      p.set("-i", 42, "int"); p.set("-d", 0.25, "double"); p.set("-s", std::string("dflt"), "string"); p.set("-b", true, "flag"); p.set("--dd", -1.5, "double"); p.set("--ss", "other", "string"); if (sg_param("two", 0)) { p.set("-i", 1, "again"); p.set("--ii", 3, "int"); p.set("-i", 42, "last"); for (int k = 0; k < 20 * (sg_param("two", 0) == 2); ++k) { char o[4] = {'-', '-', (char)('A' + k), 0}; p.set(o, k, "more"); } }
      int argc = n + 1, lo = (int)sg_param("wlo", 0), hi = (int)sg_param("whi", 10), sym = (int)sg_param("sym", 0); strcpy(buf[0], "prog"); argv_[0] = buf[0];
      for (int a = 1; a < argc; ++a) { argv_[a] = buf[a];
        if (a <= pad) { if (a & 1) strcpy(buf[a], a % 6 == 1 ? "-i" : a % 6 == 3 ? "--ss" : "-d"); else { buf[a][0] = (char)('0' + a / 10); buf[a][1] = (char)('0' + a % 10); buf[a][2] = 0; } }
        else if (a - pad == sym) text(buf[a], (int)sg_param("len", 3), (int)sg_param("many", 16), "c"); else { long w = sg_choose(nm("w", a), lo, hi); strcpy(buf[a], WORDS[w]); } }
      argv_[argc] = nullptr; char keep[48][320]; for (int a = 0; a < argc; ++a) strcpy(keep[a], buf[a]);
      static const char *KNOWN[] = {"-i", "-d", "-s", "-b", "--dd", "--ss", "-h", "--help"}; bool good = true;
      for (int a = 1; a < argc; ++a) { const char *s = argv_[a]; bool option = s[0] == '-' && s[1] != 0 && !(s[1] >= '0' && s[1] <= '9'), known = false; for (auto k : KNOWN) known |= !strcmp(s, k); if (sg_param("two", 0)) known |= !strcmp(s, "--ii"); if (option && !known) good = false; }
      bool ok = p.parse(argc, argv_);
      sg_assert(ok == good, "parsing fails if and only if there is an unknown option");
      const char *vi = nullptr, *vd = nullptr, *vs = "dflt", *vdd = nullptr, *vss = "other", *vii = nullptr; int fb = 0, fh = 0, fhh = 0;
      if (good) { vi = follows(argc, argv_, "-i", vi); vd = follows(argc, argv_, "-d", vd); vs = follows(argc, argv_, "-s", vs); vdd = follows(argc, argv_, "--dd", vdd); vss = follows(argc, argv_, "--ss", vss); vii = follows(argc, argv_, "--ii", vii);
        fb = times(argc, argv_, "-b"); fh = times(argc, argv_, "-h"); fhh = times(argc, argv_, "--help"); }
      sg_assert(p.get<int>("-i") == (vi ? atoi(vi) : 42), "int option has the value after its name"); sg_assert(p.get<double>("-d") == (vd ? atof(vd) : 0.25), "double option has the value after its name"); sg_assert(p.get<double>("--dd") == (vdd ? atof(vdd) : -1.5), "second double option has the value after its name");
      sg_assert(eq(p.get<std::string>("-s"), vs), "string option has the value after its name"); sg_assert(eq(p.get<std::string>("--ss"), vss) && !strcmp(p.get<const char *>("--ss"), vss), "second string option has the value after its name");
      sg_assert(p.get<bool>("-b") == ((fb & 1) == 0), "flag is flipped"); sg_assert(p.get<bool>("-h") == ((fh & 1) == 1) && p.get<bool>("--help") == ((fhh & 1) == 1), "help flags");
      if (sg_param("two", 0)) sg_assert(p.get<int>("--ii") == (vii ? atoi(vii) : 3), "second int option");
      for (int a = 0; a < argc; ++a) sg_assert(argv_[a] == buf[a] && !strcmp(keep[a], buf[a]), "arguments are not modified");
      // options of other types or names are not there
      sg_assert(p.get<int>("-d") == -std::numeric_limits<int>::max() && p.get<double>("-i") == -std::numeric_limits<double>::max() && p.get<std::string>("-i").empty() && !p.get<bool>("-i") && !*p.get<const char *>("-b"), "no value under another type");
      sg_out("i", p.get<int>("-i")); sg_out("d", p.get<double>("-d")); sg_out("ok", ok);
    }
    if (mode == 2 || mode == 3) { // lists
      char t[300]; int pre = (int)sg_param("pre", 0); strcpy(t, pre == 4 ? "123456789,-1234567890,0.000000012345,00000000000000017,  +12345.678901234567,1234567.5e-10," : pre ? "10,-20,3.5,40,50,600,7," : ""); text(t + strlen(t), n, (int)sg_param("many", 15), "c"); if (pre == 2) strcpy(t + strlen(t), ",81,-92"); if (pre == 3) for (int k = 0; k < 40; ++k) { char e[6] = {',', (char)('0' + k / 10), (char)('0' + k % 10), k % 7 ? '.' : 'e', '1', 0}; strcpy(t + strlen(t), e); } if (sg_param("some", 0)) sg_assume(t[0] != 0);
      p.set("-v", "1,2", "list"); strcpy(buf[0], "prog"); strcpy(buf[1], "-v"); strcpy(buf[2], t); argv_[0] = buf[0]; argv_[1] = buf[1]; argv_[2] = buf[2];
      if (sg_param("direct", 0)) p.set("-v", t, "list"); else { bool r = p.parse(3, argv_); if (!sg_split(r)) { sg_reach("rejected"); return; } }
      char part[64][48]; int np = 0, k = 0; for (int i = 0; t[0]; ++i) { if (t[i] == ',' || !t[i]) { part[np][k] = 0; ++np; k = 0; if (!t[i]) break; } else part[np][k++] = t[i]; }
      if (mode == 2) { std::vector<int> v = p.get<std::vector<int> >("-v"); sg_assert((int)v.size() == np, "list has its number of elements"); for (int i = 0; i < np; ++i) sg_assert(v[i] == atoi(part[i]), "element of an int list"); sg_out("n", v.size()); if (np) sg_out("last", v[np - 1]);
        sg_assert(p.get<std::vector<int> >("-w").empty(), "unknown list is empty"); }
      else { std::vector<double> v = p.get<std::vector<double> >("-v"); sg_assert((int)v.size() == np, "list has its number of elements"); for (int i = 0; i < np; ++i) sg_assert(v[i] == atof(part[i]), "element of a double list"); sg_out("n", v.size()); if (np) sg_out("last", v[np - 1]);
        sg_assert(p.get<std::vector<double> >("-w").empty(), "unknown list is empty"); }
    }
    if (mode == 4) { // text of the string option kept as it is
      char t[16]; text(t, n, 18, "c"); p.set("-s", t, "s"); p.set("-o", std::string(t), "o"); sg_assert(eq(p.get<std::string>("-s"), t) && eq(p.get<std::string>("-o"), t) && !strcmp(p.get<const char *>("-s"), t), "string default is kept"); sg_assert(!p.get<bool>("-h") && !p.get<bool>("--help"), "help is off"); sg_out("n", p.get<std::string>("-s").size());
      p.help(); p.addFootnote("note"); p.help();
    }
  }
  sg_assert(sg_heap_live() == 0, "nothing leaks");
  sg_reach("parsed");
}
