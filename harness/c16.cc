// C16: file utilities: complete transition system over small trees, all short histories, and the format of written fields.
#include <dirent.h>
#include <sys/stat.h>
#include <fstream>
#include <sstream>
#include "gals.h"
#include "gals/utilities/file-utils.h"
using GALS::UTILITIES::FileUtils;

// ---- model: path -> kind; 'd' directory, 'x'/'y' regular file with one of two contents
typedef std::map<std::string, char> Tree;
static const char *names[] = {"a", "a/b", "a/b/c", "a/g", "d"};
static const int NN = 5;
static std::string parent(const std::string &p)
{
  size_t q = p.rfind('/');
  return q == std::string::npos ? "" : p.substr(0, q);
}
static char kind(const Tree &t, const std::string &p)
{
  if (p.empty()) return 'd';
  auto i = t.find(p);
  return i == t.end() ? 0 : i->second;
}
static std::string content[2];
static std::string slurp(const std::string &f)
{
  std::ifstream i(f);
  std::stringstream s;
  s << i.rdbuf();
  return s.str();
}
static void scan(const std::string &base, const std::string &rel, Tree &t)
{
  DIR *d = opendir((base + (rel.empty() ? "" : "/" + rel)).c_str());
  if (!d) mc::fail("cannot list %s", base.c_str());
  while (dirent *e = readdir(d)) {
    std::string n = e->d_name;
    if (n == "." || n == "..") continue;
    std::string r = rel.empty() ? n : rel + "/" + n, full = base + "/" + r;
    struct stat sb;
    if (lstat(full.c_str(), &sb)) mc::fail("cannot stat %s", full.c_str());
    if (S_ISDIR(sb.st_mode)) {
      t[r] = 'd';
      scan(base, r, t);
    } else if (S_ISREG(sb.st_mode)) {
      std::string c = slurp(full);
      t[r] = c == content[0] ? 'x' : c == content[1] ? 'y' : '?';
    } else
      t[r] = '?';
  }
  closedir(d);
}
static void wipe(const std::string &p)
{
  DIR *d = opendir(p.c_str());
  if (!d) return;
  std::vector<std::string> v;
  while (dirent *e = readdir(d)) {
    std::string n = e->d_name;
    if (n != "." && n != "..") v.push_back(n);
  }
  closedir(d);
  for (auto &n : v) {
    struct stat sb;
    std::string f = p + "/" + n;
    if (lstat(f.c_str(), &sb)) continue;
    if (S_ISDIR(sb.st_mode))
      chmod(f.c_str(), 0700), wipe(f), rmdir(f.c_str());
    else
      unlink(f.c_str());
  }
}
static void materialise(const Tree &t)
{
  wipe("w");
  mkdir("w", 0700);
  for (auto &e : t) {  // parents sort before children
    std::string f = "w/" + e.first;
    if (e.second == 'd')
      mkdir(f.c_str(), 0700);
    else {
      std::ofstream o(f);
      o << content[e.second == 'y'];
    }
  }
}
static std::string show(const Tree &t)
{
  std::string s;
  for (auto &e : t) s += e.first + ":" + e.second + " ";
  return s.empty() ? "(empty)" : s;
}
struct Act {
  int op;  // 0 create 1 removeFile 2 removeDirectory 3 write x 4 write y 5 set root
  int name;
  int form;  // 0 relative, 1 ./, 2 absolute, 3 trailing slash, 4 doubled slash
};
static const char *opn[] = {"createDirectory", "removeFile", "removeDirectory", "write(field 1)", "write(field 2)", "setRootDirectory"};
static std::string cwd;
static std::string spell(const Act &a)
{
  std::string n = std::string("w/") + names[a.name];
  switch (a.form) {
    case 1:
      return "./" + n;
    case 2:
      return cwd + "/" + n;
    case 3:
      return n + "/";
    case 4:
      return "w//" + std::string(names[a.name]);
  }
  return n;
}
// Model step. Returns false when the call is outside the property (removeFile on a directory).
static bool model(const Act &a, Tree &t, bool &ret)
{
  const std::string p = names[a.name];
  const char k = kind(t, p);
  auto blocked = [&](const std::string &q) {  // an ancestor is a regular file
    for (std::string s = parent(q); !s.empty(); s = parent(s))
      if (kind(t, s) && kind(t, s) != 'd') return true;
    return false;
  };
  switch (a.op) {
    case 0:
      if (blocked(p) || (k && k != 'd')) {
        ret = false;
        return true;
      }
      for (std::string s = p; !s.empty(); s = parent(s)) t[s] = 'd';
      ret = true;
      return true;
    case 1:
      if (k == 'd') return false;
      ret = k != 0;
      if (a.form == 3) {  // "file/" does not name a file
        if (k) ret = false;
        return true;
      }
      t.erase(p);
      return true;
    case 2:
      if (k && k != 'd') {
        ret = false;
        return true;
      }
      ret = k == 'd';
      if (k)
        for (auto i = t.begin(); i != t.end();)
          if (i->first == p || i->first.compare(0, p.size() + 1, p + "/") == 0)
            i = t.erase(i);
          else
            ++i;
      return true;
    case 3:
    case 4:
      if (a.form == 3) return false;
      if (k == 'd' || kind(t, parent(p)) != 'd') return true;  // cannot be written: nothing changes
      t[p] = a.op == 3 ? 'x' : 'y';
      return true;
  }
  return true;
}
typedef A<2, V3> Field;
static Field *field[2];
static void act(FileUtils &f, const Act &a, Tree &t, std::string &root, const std::string &hist)
{
  bool ret = true;
  Tree before = t;
  const std::string s = spell(a);
  if (a.op == 5) {
    root = s;
    f.setRootDirectory(s);
  } else {
    Tree m = t;
    if (!model(a, m, ret)) return;
    t = m;
    bool got = ret;
    if (a.op == 0) got = f.createDirectory(s);
    if (a.op == 1) got = f.removeFile(s);
    if (a.op == 2) got = f.removeDirectory(s);
    if (a.op == 3) f.write(s, *field[0]);
    if (a.op == 4) f.write(s, *field[1]);
    if (got != ret) mc::fail("%s: %s(%s) returned %d in state %s, expected %d", hist.c_str(), opn[a.op], s.c_str(), got, show(before).c_str(), ret);
  }
  mc::step();
  if (f.getRootDirectory() != root) mc::fail("%s: the root directory reads back as '%s', expected '%s'", hist.c_str(), f.getRootDirectory().c_str(), root.c_str());
  Tree now;
  scan("w", "", now);
  if (now != t) mc::fail("%s: after %s(%s) in state %s the tree is %s, expected %s", hist.c_str(), opn[a.op], s.c_str(), show(before).c_str(), show(now).c_str(), show(t).c_str());
}
static void queries(const FileUtils &f, const Tree &t, const std::string &hist)
{
  for (int n = 0; n < NN; ++n)
    for (int form = 0; form < 5; ++form) {
      if (form == 3 && kind(t, names[n]) != 'd') continue;
      Act a = {0, n, form};
      bool want = kind(t, names[n]) != 0, got = f.fileExists(spell(a));
      if (got != want) mc::fail("%s: fileExists(%s) is %d in state %s", hist.c_str(), spell(a).c_str(), got, show(t).c_str());
      mc::state();
    }
}
// ---- written fields
template <class E>
struct Cmp;
template <>
struct Cmp<double> {
  enum { N = 1 };
  static double get(const double &e, int) { return e; }
  static void set(double &e, int, double v) { e = v; }
};
template <>
struct Cmp<V3> {
  enum { N = 3 };
  static double get(const V3 &e, int c) { return e[c]; }
  static void set(V3 &e, int c, double v) { e[c] = v; }
};
template <int D, class E>
void roundtrip(const int *n, int pad, const Box &b, int salt)
{
  GridOf<D> g(n, pad, b);
  A<D, E> f(g.g);
  auto val = [&](size_t t, int c, int s) {
    double v = gen(t * 4 + c, s);
    return t % 5 == 1 ? v * 1e-9 : t % 5 == 2 ? v * 1e12 : t % 5 == 3 ? floor(v * 100) : v;
  };
  FileUtils fu;
  static const char *outs[] = {"out.txt", "o", "a-long-output-file-name-a-long-output-file-name-a-long-output-file-name-a-long-output-file-name.dat", "./levelset", "out put.csv"};
  const char *out = outs[(n[0] + 2 * n[1] + 3 * n[2] + pad) % 5];
  for (int rep = 0; rep < 2; ++rep) {  // the second write replaces the first
    for (size_t t = 0; t < f.size(); ++t)
      for (int c = 0; c < Cmp<E>::N; ++c) Cmp<E>::set(f[t], c, val(t, c, salt + rep));
    if (!rep) {
      std::ofstream o(out);
      for (int i = 0; i < 4000; ++i) o << "old content of the file\n";
    }
    fu.write(out, f);
    mc::step();
    std::ifstream in(out);
    std::string line;
    long ln = 0;
    for (int i = 0; i < n[0]; ++i)
      for (int j = 0; j < n[1]; ++j)
        for (int k = 0; k < n[2]; ++k) {
          if (!std::getline(in, line)) mc::fail("the file ends after %ld lines", ln);
          ++ln;
          mc::state();
          std::istringstream ls(line);
          const int id[3] = {i, j, k};
          std::string w;
          for (int c = 0; c < 3 + Cmp<E>::N; ++c) {
            double x;
            if (!(ls >> x)) mc::fail("line %ld '%s' has fewer than %d numbers", ln, line.c_str(), 3 + Cmp<E>::N);
            LD want = c >= 3 ? (LD)val(g.g.index(i, j, k), c - 3, salt + rep) : c < D ? coord(b, n, c, id[c]) : 0;
            LD tol = 1e-5L * fabsl(want) + (c < 3 && c < D ? 1e-13L * box_scale(b, n, pad, c) : 0);
            if (!(fabsl(x - want) <= tol)) mc::fail("line %ld '%s' of node (%d,%d,%d): number %d is %.9g, expected %.9Lg", ln, line.c_str(), i, j, k, c, x, want);
          }
          if (ls >> w) mc::fail("line %ld '%s' has surplus text", ln, line.c_str());
        }
    if (std::getline(in, line)) mc::fail("surplus line '%s' after %ld lines", line.c_str(), ln);
  }
  mc::counters["fields written"]++;
}
template <int D, class E>
void fields(const char *en)
{
  for (auto &s : sizes<D>(2, D == 1 ? 16 : D == 2 ? 6 : 3)) {
    long vol = (long)s.n[0] * s.n[1] * s.n[2];
    for (int pad : {0, 1, 2, 3}) {
      if (too_big(s, pad, vol, mc::thorough ? 60000 : 3000)) continue;
      int bi = (s.n[0] + s.n[1] + pad) % NB;
      if (!mc::begin("write of a %s field, dim %d cells %dx%dx%d padding %d box %s", en, D, s.n[0], s.n[1], s.n[2], pad, boxes[bi].name)) continue;
      roundtrip<D, E>(s.n, pad, boxes[bi], pad);
    }
  }
}
int main(int argc, char **argv)
{
  mc::init(argc, argv);
  mc::drop();
  char b[4096];
  cwd = getcwd(b, sizeof b);
  int n[3] = {2, 2, 1};
  GridOf<2> g(n, 1, boxes[0]);
  Field f0(g.g), f1(g.g);
  for (int i = 0; i < 2; ++i)
    for (int j = 0; j < 2; ++j) f0(i, j, 0) = V3(i, j, 5), f1(i, j, 0) = V3(-3, i, j);
  field[0] = &f0, field[1] = &f1;
  for (int q = 0; q < 2; ++q) {
    std::ostringstream o;
    o << *field[q];
    content[q] = o.str();
  }
  // 1. the complete transition system: breadth-first over the model, every transition executed on the real code
  {
    std::vector<Tree> queue(1);
    std::set<std::string> seen;
    seen.insert(show(Tree()));
    FileUtils persistent;
    std::string proot;
    for (size_t h = 0; h < queue.size(); ++h) {
      const Tree st = queue[h];
      bool mine = mc::begin("file tree state %s: all operations", show(st).c_str());
      if (mine) mc::counters["tree states"]++;
      for (int op = 0; op < 6; ++op)
        for (int nm = 0; nm < NN; ++nm)
          for (int form = 0; form < 5; ++form) {
            Act a = {op, nm, form};
            bool ret;
            Tree t = st;
            if (op < 5 && !model(a, t, ret)) continue;
            if (form == 0 && seen.insert(show(t)).second) queue.push_back(t);
            if (!mine) continue;
            materialise(st);
            Tree u = st;
            if ((op + nm + form) % 2) {
              FileUtils f;
              std::string root;
              act(f, a, u, root, "fresh object");
              queries(f, u, "fresh object");
            } else {
              act(persistent, a, u, proot, "used object");
              queries(persistent, u, "used object");
            }
            mc::counters["tree transitions"]++;
          }
    }
  }
  // 2. all histories from the empty tree
  {
    std::vector<Act> menu;
    for (int op = 0; op < 6; ++op)
      for (int nm = 0; nm < NN; ++nm) menu.push_back({op, nm, op == 0 && nm == 2 ? 3 : 0});
    const int m = menu.size(), depth = mc::thorough ? 4 : 3;
    for (int c = 0; c < m * m; ++c) {
      if (!mc::begin("file histories of length %d starting with %s(%s), %s(%s)", depth, opn[menu[c % m].op], names[menu[c % m].name], opn[menu[c / m].op], names[menu[c / m].name])) continue;
      long tot = depth == 4 ? m * m : m;
      for (long l = 0; l < tot; ++l) {
        materialise(Tree());
        Tree t;
        FileUtils f, g;
        std::string root;
        for (int d = 0; d < depth; ++d) {
          const Act &a = menu[d == 0 ? c % m : d == 1 ? c / m : d == 2 ? l % m : l / m];
          act(f, a, t, root, "history");
        }
        queries(f, t, "history");
        if (!g.getRootDirectory().empty()) mc::fail("an unrelated object has a root directory");
        mc::counters["file histories"]++;
      }
    }
  }
  // 3. root directory strings
  if (mc::begin("root directory strings")) {
    FileUtils f, h;
    h.setRootDirectory("other");
    for (const char *r : {"", "/", "a", "a/", "a//b/", "../x", " spaced name ", "root_dir/proj/case/", "\xc3\xa9", "very-long-very-long-very-long-very-long-very-long-very-long-very-long/"}) {
      f.setRootDirectory(r);
      mc::state();
      if (f.getRootDirectory() != r) mc::fail("root directory '%s' reads back as '%s'", r, f.getRootDirectory().c_str());
      if (h.getRootDirectory() != "other") mc::fail("setting the root of one object changed another");
    }
  }
  // 3b. the root directory never takes part in other calls: same-named files below it, in the current directory, in both
  for (int at = 0; at < 4; ++at)
    for (int rd = 0; rd < 4; ++rd) {
      if (!mc::begin("same names below the root directory and in the current one, case %d root %d", at, rd)) continue;
      const char *rs[] = {"w", "w/", "./w", ""};
      for (int op = 0; op < 6; ++op) {
        materialise(Tree());
        unlink("twin"), rmdir("twin/sub"), rmdir("twin");
        FileUtils f;
        f.setRootDirectory(rd == 3 ? cwd + "/w" : rs[rd]);
        bool here = at & 1, there = at & 2, dir = op == 2 || op == 3;
        auto kindof = [&](const char *p) {
          struct stat sb;
          return lstat(p, &sb) ? 0 : S_ISDIR(sb.st_mode) ? 2 : 1;
        };
        if (here) dir ? (void)mkdir("twin", 0700) : (void)(std::ofstream("twin") << "here");
        if (there) dir ? (void)mkdir("w/twin", 0700) : (void)(std::ofstream("w/twin") << "there");
        bool got = here;
        int k = here ? (dir ? 2 : 1) : 0;
        if (op == 0) got = f.fileExists("twin");
        if (op == 1) got = f.removeFile("twin"), k = 0;
        if (op == 2) got = f.removeDirectory("twin"), k = 0;
        if (op == 3) got = f.createDirectory("twin") ? here : !here, k = 2;
        if (op == 4) f.write("twin", f1), k = 1;
        if (op == 5) got = f.removeDirectory("twin") ? !here : here;
        mc::step(), mc::state();
        if (got != here) mc::fail("operation %d on 'twin' reported the wrong result", op);
        if (kindof("twin") != k) mc::fail("operation %d on 'twin': the entry in the current directory is of kind %d, expected %d", op, kindof("twin"), k);
        if (kindof("w/twin") != (there ? dir ? 2 : 1 : 0)) mc::fail("operation %d on 'twin' changed the entry below the root directory", op);
        if (there && !dir && slurp("w/twin") != "there") mc::fail("operation %d on 'twin' changed the file below the root directory", op);
        unlink("twin"), rmdir("twin");
      }
    }
  // 4. unusual names: long, spaced, dotted, hidden, names that are prefixes of each other, long paths
  {
    std::vector<std::string> nm;
    for (int len : {1, 8, 14, 15, 16, 17, 31, 32, 33, 60, 63, 64, 65, 99, 100, 127, 128, 129, 200, 250, 255}) nm.push_back(std::string(len - 1, 'n') + "k");
    for (const char *s : {"with space", " lead", "trail ", ".hidden", "x.txt", "x.tar.gz", "two..dots", "..x", "x.", "-dash", "--", "*", "?", "a;b", "$HOME", "~", "'q'", "\"dq\"", "back\\slash", "a&b", "\xc3\xa9t\xc3\xa9", "tab\tname", "#c", "%s", "%d%n", "UPPER", "velocity", "0"}) nm.push_back(s);
    for (size_t q = 0; q < nm.size(); ++q)
      for (int deep = 0; deep < 3; ++deep) {
        if (!mc::begin("file operations on the name '%s' at depth %d", nm[q].c_str(), deep)) continue;
        if (deep && nm[q].size() > 200) continue;
        const std::string top = "w", pre = deep == 0 ? top : deep == 1 ? top + "/" + nm[q] : top + "/" + nm[q] + "/" + nm[q] + "/sub/" + nm[q];
        const std::string p = pre + "/" + nm[q], near1 = pre + "/" + nm[q].substr(0, nm[q].size() - 1) + "_", keep = pre + "/keep";
        std::string chop = nm[q].size() > 40 ? pre + "/" + nm[q].substr(0, 40) : "";
        materialise(Tree());
        FileUtils f;
        auto is = [&](const std::string &path) {
          struct stat sb;
          return lstat(path.c_str(), &sb) ? 0 : S_ISDIR(sb.st_mode) ? 'd' : 'f';
        };
        auto count = [&](const std::string &d) {
          Tree t;
          scan(d, "", t);
          return t.size();
        };
        auto expect = [&](bool ok, const char *what) {
          mc::step(), mc::state();
          if (!ok) mc::fail("name '%s', depth %d: %s", nm[q].c_str(), deep, what);
        };
        if (deep) expect(f.createDirectory(pre) && is(pre) == 'd', "creating nested directories");
        expect(!f.fileExists(p), "exists before it was created");
        f.write(keep, f0), f.write(near1, f1);
        size_t base = count(pre);
        expect(base == 2 && slurp(keep) == content[0] && slurp(near1) == content[1], "writing the neighbour files");
        f.write(p, f1);
        expect(is(p) == 'f' && slurp(p) == content[1], "written file");
        f.write(p, f0);
        expect(is(p) == 'f' && slurp(p) == content[0] && count(pre) == 3, "rewritten file");
        expect(f.fileExists(p), "fileExists of a written file");
        if (!chop.empty()) expect(!f.fileExists(chop), "fileExists of a shortened name");
        expect(!f.createDirectory(p) && is(p) == 'f', "createDirectory over a file");
        expect(!f.removeDirectory(p) && is(p) == 'f', "removeDirectory of a file");
        expect(f.removeFile(p) && is(p) == 0 && count(pre) == 2, "removeFile");
        expect(!f.removeFile(p), "removeFile of a missing file");
        expect(f.createDirectory(p) && is(p) == 'd' && f.createDirectory(p), "createDirectory (twice)");
        f.write(p + "/" + nm[q].substr(0, 20), f0);
        expect(count(p) == 1 && f.fileExists(p), "file in the directory");
        expect(f.removeDirectory(p) && is(p) == 0, "removeDirectory");
        expect(count(pre) == 2 && slurp(keep) == content[0] && slurp(near1) == content[1], "the neighbours of a removed directory");
        expect(!f.removeDirectory(p), "removeDirectory of a missing directory");
        f.setRootDirectory(nm[q]);
        expect(f.getRootDirectory() == nm[q], "root directory");
        mc::counters["unusual names"]++;
      }
  }
  // 5. written fields
  fields<1, double>("scalar");
  fields<1, V3>("vector");
  fields<2, double>("scalar");
  fields<2, V3>("vector");
  fields<3, V3>("vector");
  mc::finish();
}
