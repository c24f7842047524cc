// C14: the input parser against a model of the file.
#include <algorithm>
#include <fstream>
#include "gals.h"
#include "gals/input-parser.h"
typedef GALS::INPUT_FIELDS::InputFields IF;

struct KV {
  const char *key;  // "a.b" : nested
  int type;         // 0 double, 1 string, 2 int list (cells), 3 double list, 4 double list of 3
};
struct Sec {
  const char *name;
  std::vector<KV> keys;
};
static const Sec secs[5] = {
    {"general", {{"output_directory", 1}}},
    {"grid", {{"box.x_min", 0}, {"box.x_max", 0}, {"box.y_min", 0}, {"box.y_max", 0}, {"box.z_min", 0}, {"box.z_max", 0}, {"cells", 2}}},
    {"time", {{"start", 0}, {"end", 0}, {"dt", 0}, {"constant_dt", 1}}},
    {"velocity", {{"name", 1}, {"vector", 3}, {"center", 3}, {"gradient.scheme", 1}}},
    {"levelset", {{"name", 1}, {"center", 4}, {"radius", 0}, {"gradient.scheme", 1}}},
};
// A flat image of the whole object: one entry per key.
struct Val {
  std::string s;
  std::vector<double> d;
  bool operator==(const Val &o) const { return s == o.s && d.size() == o.d.size() && (d.empty() || !memcmp(&d[0], &o.d[0], 8 * d.size())); }
};
typedef std::vector<std::vector<Val>> Img;
static Val dv(double x) { return {"", {x}}; }
static Img image(const IF &f)
{
  Img r(5);
  r[0] = {{f.m_general->output_directory, {}}};
  auto &g = *f.m_grid;
  r[1] = {dv(g.x_min), dv(g.x_max), dv(g.y_min), dv(g.y_max), dv(g.z_min), dv(g.z_max), {"", {(double)g.nx, (double)g.ny, (double)g.nz}}};
  r[2] = {dv(f.m_time->start), dv(f.m_time->end), dv(f.m_time->dt), {f.m_time->constant_dt, {}}};
  r[3] = {{f.m_velocity->name, {}}, {"", f.m_velocity->vector}, {"", f.m_velocity->center}, {f.m_velocity->gradient_scheme, {}}};
  auto c = f.m_levelset->center;
  r[4] = {{f.m_levelset->name, {}}, {"", {c[0], c[1], c[2]}}, dv(f.m_levelset->radius), {f.m_levelset->gradient_scheme, {}}};
  return r;
}
static void poison(IF &f)
{
  f.m_general->output_directory = "untouched";
  *f.m_grid = {901, 902, 903, 904, 905, 906, 907, 908, 909};
  f.m_time->start = 911, f.m_time->end = 912, f.m_time->dt = 913, f.m_time->constant_dt = "untouched-dt";
  f.m_velocity->name = "untouched-v", f.m_velocity->vector = {921, 922}, f.m_velocity->center = {923}, f.m_velocity->gradient_scheme = "untouched-vg";
  f.m_levelset->name = "untouched-l", f.m_levelset->center = V3(931, 932, 933), f.m_levelset->radius = 934, f.m_levelset->gradient_scheme = "untouched-lg";
}
// The text written for a key, and the value it denotes.
struct Lit {
  std::string text;
  Val v;
};
static std::string num(double x)
{
  char b[64];
  snprintf(b, 64, "%.17g", x);
  return b;
}
static std::string list(const std::vector<double> &d)
{
  std::string s = "[";
  for (size_t i = 0; i < d.size(); ++i) s += (i ? ", " : "") + num(d[i]);
  return s + "]";
}
static Lit lit(int s, int k, int salt)
{
  const int t = secs[s].keys[k].type;
  const double x = (s + 1) * 100 + (k + 1) * 10 + salt * 0.25 - (k % 2 ? 500 : 0);
  if (t == 1) {
    char b[64];
    snprintf(b, 64, "w%d-%d-%d", s, k, salt);
    return {b, {b, {}}};
  }
  std::vector<double> d;
  if (t == 0) d = {x};
  if (t == 2) d = {(double)(3 + salt), (double)(40 + salt), (double)(500 + salt)};
  if (t == 3 || t == 4) d = {x, -x - 1, x / 8};
  return {t == 0 ? num(x) : list(d), {"", d}};
}
typedef std::vector<std::vector<Lit>> Doc;  // per section per key; empty text = key absent
static Doc doc(int salt)
{
  Doc d(5);
  for (int s = 0; s < 5; ++s)
    for (size_t k = 0; k < secs[s].keys.size(); ++k) d[s].push_back(lit(s, k, salt));
  return d;
}
// Renders section s with its keys in the given order. style 0 block, 1 flow, 2 block with comments and odd indentation.
static std::string render(const Doc &d, int s, const std::vector<int> &order, int style)
{
  std::string out = std::string(secs[s].name) + ":", ind = style == 2 ? "     " : "   ";
  out += style == 1 ? " {" : style == 2 ? "   # section\n" : "\n";
  std::vector<std::string> groups;  // top-level keys in order of first appearance
  for (int k : order) {
    std::string key = secs[s].keys[k].key, top = key.substr(0, key.find('.'));
    if (!d[s][k].text.empty() && std::find(groups.begin(), groups.end(), top) == groups.end()) groups.push_back(top);
  }
  bool first = true;
  for (auto &g : groups) {
    bool nested = false;
    std::string body;
    bool f2 = true;
    for (int k : order) {
      std::string key = secs[s].keys[k].key, top = key.substr(0, key.find('.'));
      if (top != g || d[s][k].text.empty()) continue;
      size_t dot = key.find('.');
      if (dot == std::string::npos) {
        body = d[s][k].text;
      } else {
        nested = true;
        std::string sub = key.substr(dot + 1) + ": " + d[s][k].text;
        body += style == 1 ? (f2 ? "" : ", ") + sub : ind + ind + sub + (style == 2 ? "   # x: 5\n" : "\n");
        f2 = false;
      }
    }
    if (style == 1)
      out += (first ? "" : ", ") + g + ": " + (nested ? "{" + body + "}" : body);
    else
      out += ind + g + ":" + (nested ? "\n" + body : (style == 2 ? "      " : " ") + body + (style == 2 ? "  # c\n" : "\n"));
    first = false;
  }
  return out + (style == 1 ? "}\n" : style == 2 ? "\n" : "");
}
static std::vector<int> ident(int s)
{
  std::vector<int> o;
  for (size_t k = 0; k < secs[s].keys.size(); ++k) o.push_back(k);
  return o;
}
static void put(const char *f, const std::string &t)
{
  std::ofstream o(f);
  o << t;
}
static bool parse(IF &f, const char *file)
{
  mc::step();
  GALS::INPUT_PARSER::InputParser p;
  try {
    p.parse(file, &f);
  } catch (std::exception &) {
    return false;
  }
  return true;
}
static std::unordered_set<std::string> seen_states;
static void same(const Img &got, const Img &want, const std::string &text)
{
  std::string key;
  for (auto &sec : got)
    for (auto &v : sec) key += v.s + list(v.d) + ";";
  if (seen_states.insert(key).second) mc::state();  // distinct object states
  for (int s = 0; s < 5; ++s)
    for (size_t k = 0; k < want[s].size(); ++k)
      if (!(got[s][k] == want[s][k]))
        mc::fail("%s.%s: got '%s%s', expected '%s%s'; file:\n%s", secs[s].name, secs[s].keys[k].key, got[s][k].s.c_str(), list(got[s][k].d).c_str(), want[s][k].s.c_str(), list(want[s][k].d).c_str(), text.c_str());
}
static void overlay(Img &m, const Doc &d, int s)
{
  for (size_t k = 0; k < m[s].size(); ++k) m[s][k] = d[s][k].v;
}
static void expect_ok(IF &f, Img &model, const std::string &text)
{
  put("in", text);
  if (!parse(f, "in")) mc::fail("a complete file was rejected:\n%s", text.c_str());
  same(image(f), model, text);
}
static void expect_error(const std::string &text, const char *why)
{
  IF f;
  poison(f);
  put("in", text);
  if (parse(f, "in")) mc::fail("%s was accepted; file:\n%s", why, text.c_str());
  mc::counters["rejected files"]++;
}
int main(int argc, char **argv)
{
  mc::init(argc, argv);
  const Doc d = doc(1);
  // 1. every ordered subset of sections, three styles, on a poisoned object
  for (int mask = 0; mask < 32; ++mask) {
    std::vector<int> o;
    for (int s = 0; s < 5; ++s)
      if (mask >> s & 1) o.push_back(s);
    do
      for (int style = 0; style < 3; ++style) {
        std::string nm;
        for (int s : o) nm += std::string(secs[s].name) + " ";
        if (!mc::begin("sections [%s] style %d", nm.c_str(), style)) continue;
        IF f;
        poison(f);
        Img m = image(f);
        std::string text = o.empty() ? (style == 1 ? "{}\n" : style == 2 ? "# nothing\nother: 1\n" : "other: {a: 1}\n") : "";
        for (int s : o) text += render(d, s, ident(s), style), overlay(m, d, s);
        expect_ok(f, m, text);
        mc::counters["section orders"]++;
      }
    while (std::next_permutation(o.begin(), o.end()));
  }
  // 2. every order of the keys of each section
  for (int s = 0; s < 5; ++s) {
    auto o = ident(s);
    int i = 0;
    do {
      int style = i++ % 3;
      if (!mc::begin("key order %d of section %s", i - 1, secs[s].name)) continue;
      IF f;
      poison(f);
      Img m = image(f);
      overlay(m, d, s);
      expect_ok(f, m, render(d, s, o, style));
      mc::counters["key orders"]++;
    } while (std::next_permutation(o.begin(), o.end()));
  }
  // 3. every literal form of every key, others as they are
  {
    std::vector<Lit> nums;
    for (const char *t : {"0", "1", "-1", "-1.5", "1e-4", "1E5", ".5", "1.", "-0.0", "0.1", "3.141592653589793", "1e300", "-2.5e-300", "123456789012", "\"2.5\"", "'7'", "1e+2", "00.25"}) {
      std::string q = t;
      if (q[0] == '"' || q[0] == '\'') q = q.substr(1, q.size() - 2);
      nums.push_back({t, dv(strtod(q.c_str(), 0))});
    }
    std::vector<Lit> strs;
    for (const char *t : {"NO", "YES", "no", "true", "1", "1.5", "CIRCLE", "CENTRAL", "project-1/case-1", "/abs/path/", "a b c", "../x", "UPPER_lower-9"}) strs.push_back({t, {t, {}}});
    strs.push_back({"\"\"", {"", {}}});
    strs.push_back({"\"quoted # not a comment\"", {"quoted # not a comment", {}}});
    strs.push_back({"'it''s'", {"it's", {}}});
    strs.push_back({"\"tab\\tend\"", {"tab\tend", {}}});
    for (int s = 0; s < 5; ++s)
      for (size_t k = 0; k < secs[s].keys.size(); ++k) {
        std::vector<Lit> ls;
        const int t = secs[s].keys[k].type;
        if (t == 0) ls = nums;
        if (t == 1) ls = strs;
        if (t == 2) {
          for (int a : {1, 2, 10, 1000000})
            for (int b : {1, 7})
              for (int c : {1, 64}) ls.push_back({list({(double)a, (double)b, (double)c}), {"", {(double)a, (double)b, (double)c}}});
          ls.push_back({"[4, 5, 6, 7]", {"", {4, 5, 6}}});
          ls.push_back({"\n      - 11\n      - 12\n      - 13", {"", {11, 12, 13}}});
        }
        if (t == 3) {
          std::vector<double> v;
          for (int n = 0; n < 7; ++n) {
            ls.push_back({list(v), {"", v}});
            v.push_back(n * 1.25 - 2);
          }
          ls.push_back({"\n      - 1.5\n      - -2\n      - 1e-3", {"", {1.5, -2, 1e-3}}});
        }
        if (t == 4) {
          for (double a : {0., -1.5, 1e-4})
            for (double b : {0., 2., 1e5})
              for (double c : {0., 0.1}) ls.push_back({list({a, b, c}), {"", {a, b, c}}});
          ls.push_back({"\n      - 1.5\n      - -2\n      - 1e-3", {"", {1.5, -2, 1e-3}}});
        }
        for (auto &l : ls) {
          if (!mc::begin("%s.%s: %s", secs[s].name, secs[s].keys[k].key, l.text.c_str())) continue;
          IF f;
          poison(f);
          Img m = image(f);
          Doc e = d;
          e[s][k] = l;
          std::string text;
          for (int q = 0; q < 5; ++q) text += render(e, q, ident(q), 0), overlay(m, e, q);
          expect_ok(f, m, text);
          mc::counters["literals"]++;
        }
      }
  }
  // 3b. every pair of keys, each over a small lattice of values (equal, reversed, zero, related values)
  {
    auto lattice = [&](int s, int k) {
      std::vector<Lit> r;
      const int t = secs[s].keys[k].type;
      if (t == 0)
        for (double x : {0., -1., 1., 0.25, 2.}) r.push_back({num(x), dv(x)});
      if (t == 1)
        for (const char *x : {"NO", "YES", "CIRCLE", "CIRCULAR", "ANALYTICAL", "NOT_DEFINED"}) r.push_back({x, {x, {}}});
      if (t == 2)
        for (int q = 0; q < 5; ++q) {
          std::vector<double> v = q == 0 ? std::vector<double>{1, 1, 1} : q == 1 ? std::vector<double>{8, 8, 1} : q == 2 ? std::vector<double>{8, 1, 8} : q == 3 ? std::vector<double>{1, 8, 8} : std::vector<double>{8, 8, 8};
          r.push_back({list(v), {"", v}});
        }
      if (t == 3 || t == 4)
        for (int q = 0; q < 5; ++q) {
          std::vector<double> v = q == 0 ? std::vector<double>{0, 0, 0} : q == 1 ? std::vector<double>{1, 1, 1} : q == 2 ? std::vector<double>{0.25, 2, -1} : q == 3 ? std::vector<double>{1, 0, 0} : std::vector<double>{0, 0, 1};
          r.push_back({list(v), {"", v}});
        }
      return r;
    };
    std::vector<std::pair<int, int>> ks;
    for (int s = 0; s < 5; ++s)
      for (size_t k = 0; k < secs[s].keys.size(); ++k) ks.push_back({s, (int)k});
    for (size_t p = 0; p < ks.size(); ++p)
      for (size_t q = p + 1; q < ks.size(); ++q) {
        if (!mc::begin("all value pairs of %s.%s and %s.%s", secs[ks[p].first].name, secs[ks[p].first].keys[ks[p].second].key, secs[ks[q].first].name, secs[ks[q].first].keys[ks[q].second].key)) continue;
        for (auto &l1 : lattice(ks[p].first, ks[p].second))
          for (auto &l2 : lattice(ks[q].first, ks[q].second)) {
            IF f;
            poison(f);
            Img m = image(f);
            Doc e = d;
            e[ks[p].first][ks[p].second] = l1, e[ks[q].first][ks[q].second] = l2;
            std::string text;
            for (int z = 0; z < 5; ++z) text += render(e, z, ident(z), 0), overlay(m, e, z);
            expect_ok(f, m, text);
            mc::counters["value pairs"]++;
          }
      }
  }
  // 4. every non-empty set of missing keys in every section is an error (in the presence of the other sections or alone)
  for (int s = 0; s < 5; ++s)
    for (unsigned miss = 1; miss < (1u << secs[s].keys.size()); ++miss)
      for (int alone = 0; alone < 2; ++alone) {
        if (!mc::begin("section %s without keys %x, %s", secs[s].name, miss, alone ? "alone" : "in a full file")) continue;
        Doc e = d;
        for (size_t k = 0; k < secs[s].keys.size(); ++k)
          if (miss >> k & 1) e[s][k].text = "";
        bool empty = miss + 1 == (1u << secs[s].keys.size());
        std::string text;
        for (int q = 0; q < 5; ++q)
          if (q == s)
            text += empty ? std::string(secs[s].name) + ": {}\n" : render(e, q, ident(q), 0);
          else if (!alone)
            text += render(e, q, ident(q), 0);
        expect_error(text, "a file with a missing key");
        mc::counters["missing keys"]++;
      }
  // 5. short cells lists, values that are not numbers, and unreadable files are errors
  for (const char *c : {"[]", "[5]", "[5, 6]", "\n      - 4\n      - 5"})
    if (mc::begin("cells: %s", c)) {
      Doc e = d;
      e[1][6].text = c;
      expect_error(render(e, 1, ident(1), 0), "a cells list with fewer than three entries");
    }
  for (int s = 0; s < 5; ++s)
    for (size_t k = 0; k < secs[s].keys.size(); ++k) {
      if (secs[s].keys[k].type == 1) continue;
      for (const char *c : {"abc", "[a, b, c]", "{x: 1}"})
        if (mc::begin("%s.%s: %s", secs[s].name, secs[s].keys[k].key, c)) {
          Doc e = d;
          e[s][k].text = c;
          expect_error(render(e, s, ident(s), 0), "a value that is not a number");
        }
    }
  if (mc::begin("missing file")) {
    IF f;
    poison(f);
    Img m = image(f);
    if (parse(f, "does-not-exist")) mc::fail("a missing file was accepted");
    same(image(f), m, "(missing file)");
  }
  // 6. all sequences of files on two objects: menu = section subsets with two value sets
  {
    std::vector<std::pair<int, int>> menu;  // mask, salt
    for (int mask : {31, 1, 2, 4, 8, 16, 0, 14, 21}) menu.push_back({mask, 2 + mask % 5});
    menu.push_back({31, 9});
    menu.push_back({24, 8});
    const int depth = mc::thorough ? 5 : 4, nm = menu.size();
    std::vector<std::string> texts;
    std::vector<Doc> docs;
    for (auto &e : menu) {
      docs.push_back(doc(e.second));
      std::string t = "note: x\n";
      for (int s = 4; s >= 0; --s)
        if (e.first >> s & 1) t += render(docs.back(), s, ident(s), e.second % 3);
      texts.push_back(t);
    }
    long tot = 1;
    for (int i = 0; i < depth - 2; ++i) tot *= nm;
    for (long c = 0; c < tot; ++c) {
      if (!mc::begin("file histories with prefix %ld, depth %d", c, depth)) continue;
      for (int i = 0; i < nm; ++i) {
        char fn[16];
        snprintf(fn, 16, "m%d", i);
        put(fn, texts[i]);
      }
      for (int l2 = 0; l2 < nm * nm; ++l2) {
        IF f[2];
        poison(f[0]), poison(f[1]);
        Img m[2] = {image(f[0]), image(f[1])};
        long r = c;
        for (int st = 0; st < depth; ++st) {
          int a = st < depth - 2 ? r % nm : st == depth - 2 ? l2 % nm : l2 / nm;
          r /= nm;
          int ob = (a + st) % 3 == 0;
          char fn[16];
          snprintf(fn, 16, "m%d", a);
          if (!parse(f[ob], fn)) mc::fail("file %d rejected:\n%s", a, texts[a].c_str());
          for (int s = 0; s < 5; ++s)
            if (menu[a].first >> s & 1) overlay(m[ob], docs[a], s);
          if (st >= depth - 2) same(image(f[ob]), m[ob], texts[a]), same(image(f[1 - ob]), m[1 - ob], "(the other object)");
        }
        mc::counters["file histories"]++;
      }
    }
  }
  mc::finish();
}
