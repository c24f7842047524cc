// C20: concurrent library operations. Every ordered pair of operations runs as two logical threads under the access
// recorder; a pair without conflicting accesses has a single equivalence class of interleavings, so the executed one
// stands for all of them. Each pair starts in a pristine process image (cold statics) and is then repeated warm.
#include <sys/mman.h>
#include <sys/wait.h>
#include "gals/input-parser.h"
#include "gals/utilities/file-utils.h"
#include "rec.h"
#include "world.h"
enum { X_GRIDGEN = NOPS, X_GRIDQ, X_ARRAY, X_CONT, X_VEC, X_PARSE, X_WRITE, X_FILES, X_POINT, X_END };
static const char *xname[] = {"grid generation", "grid queries", "array copy and assignment", "container construction and copy", "vector and matrix arithmetic", "input parsing", "file writing", "file queries and removal", "point interpolation"};
static std::string scratch;
static int cfg = 0;  // configuration of sizes, boxes, data and time step
static const int NCFG = 7;
static const int csize[NCFG][2][3] = {{{3, 2, 2}, {4, 3, 2}}, {{1, 1, 1}, {2, 1, 1}}, {{5, 5, 5}, {5, 5, 5}}, {{9, 2, 1}, {1, 7, 2}}, {{3, 3, 3}, {4, 4, 4}}, {{2, 3, 4}, {3, 2, 2}}, {{33, 9, 5}, {17, 17, 3}}};
static const int cbox[NCFG][2] = {{2, 1}, {0, 3}, {4, 4}, {5, 6}, {1, 2}, {7, 8}, {3, 9}};
static const double cdt[NCFG] = {0.2, 0, 0.2, -0.125, 0.5, 1e-3, 0.2};
static const int cdata[NCFG] = {0, 1, 2, 0, 3, 4, 0};
// data sets: generic, all zero, small integers (ties), huge, one constant
template <int D>
void data_of(World<D> &w, uint64_t salt)
{
  w.fill(salt, 0, 0, cdt[cfg] == 0 ? 0.2 : cdt[cfg]);
  if (cdata[cfg] == 0) return;
  w.fields([&](auto &f, int id) {
    typedef typename ElOf<typename std::remove_reference<decltype(f)>::type>::type E;
    if (id == F_POS || id == F_VEL) return;
    for (size_t t = 0; t < f.size(); ++t)
      for (int c = 0; c < El<E>::N; ++c) {
        double x = El<E>::get(f[t], c);
        El<E>::set(f[t], c, cdata[cfg] == 1 ? 0 : cdata[cfg] == 2 ? std::floor(3 * x) : cdata[cfg] == 3 ? 1e30 * x : 2.5);
      }
  });
  if (cdata[cfg] == 2 || cdata[cfg] == 4)  // queries at nodes, fluid at rest
    nodes<D>(w.n, w.pad - 1, [&](int i, int j, int k) {
      w.pos(i, j, k) = w.g.x(i, j, k);
      for (int a = 0; a < D; ++a) w.v.velocity()(i, j, k)[a] = 0;
    });
}
struct Item {
  int D, op;
};
static std::string text(const Item &i) { return std::string(i.op < NOPS ? ops[i.op].name : xname[i.op - NOPS]) + " " + std::to_string(i.D) + "D"; }

template <int D>
struct Write {
  static void go(GALS::UTILITIES::FileUtils &f, World<D> &in) { f.write(f.getRootDirectory() + "/a", in.v.velocity()); }
};
template <int D>
struct Lin {
  static void go(World<D> &, World<D> &, std::vector<double> &) {}
};
template <>
struct Lin<1> {
  static void go(World<1> &in, World<1> &w, std::vector<double> &res)
  {
    GALS::CPU::Interpolate<double, G<1>, GALS::INTERPOLATION::Linear<double, G<1>>>::compute(in.pos, in.s1, w.s2);
    for (int i = 0; i < in.n[0]; ++i) res.push_back(GALS::INTERPOLATION::Linear<double, G<1>>().linearInterpolation(in.g, in.pos(i, 0, 0), in.s1));
  }
};
// in: shared inputs (never written); out: this thread's own objects
template <int D>
void apply2(World<D> &in, World<D> &w, int op, double dt, std::vector<double> &res, int who)
{
  using namespace GALS::CPU;
  switch (op) {
    case OP_G2S: Gradient<double, G<D>, SecondOrderCentral<double, G<D>>>::compute(in.s1, w.v1); break;
    case OP_G3S: Gradient<double, G<D>, ThirdOrder<double, G<D>>>::compute(in.s1, w.v1); break;
    case OP_G2V: Gradient<double, G<D>, SecondOrderCentral<double, G<D>>>::compute(in.v2, w.m1); break;
    case OP_G3V: Gradient<double, G<D>, ThirdOrder<double, G<D>>>::compute(in.v2, w.m1); break;
    case OP_HERM: Interpolate<double, G<D>, GALS::INTERPOLATION::Hermite<double, G<D>>>::compute(in.pos, w.l); break;
    case OP_LIN: Lin<D>::go(in, w, res); break;
    case OP_HERMQ: {
      int m[3];
      for (int a = 0; a < 3; ++a) m[a] = (in.n[a] + 1) / 2;
      GridOf<D> q(m, 2, boxes[1]);
      A<D, V3> x(q.g);
      interior(m, [&](int i, int j, int k) { x(i, j, k) = in.pos(i, j, k); });
      Interpolate<double, G<D>, GALS::INTERPOLATION::Hermite<double, G<D>>>::compute(x, w.l);
      break;
    }
    case X_POINT:
      for (int lim = 0; lim < 2; ++lim) {
        GALS::INTERPOLATION::Hermite<double, G<D>> h;
        auto r = h.interpolate(in.g, in.pos(0, 0, 0), in.l, lim == 1);
        res.push_back(r.phi_interpolated);
        for (int a = 0; a < D; ++a) res.push_back(r.psi_interpolated[a]);
      }
      break;
    case OP_LIM:
      interior(in.n, [&](int i, int j, int k) {
        if (in.g.size() > 200 && (i + j + k) % 7) return;
        for (int lim = 0; lim < 2; ++lim) {
          auto r = GALS::INTERPOLATION::Hermite<double, G<D>>().interpolate(in.g, in.pos(i, j, k), in.l, lim == 0);
          res.push_back(r.phi_interpolated);
          for (int a = 0; a < D; ++a) res.push_back(r.psi_interpolated[a]);
        }
        const I3 bn = in.g.baseNodeId(in.pos(i, j, k));
        for (int a = 0; a < D; ++a) res.push_back(bn[a]);
      });
      break;
    case OP_CIRCLE: GALS::ANALYTICAL_FIELDS::Levelset<G<D>, double>(in.g, in.li).compute(in.pos, w.l); break;
    case OP_ROT_A:
    case OP_ROT_N: {
      GALS::INPUT_FIELDS::Velocity vi = in.vi;
      vi.gradient_scheme = op == OP_ROT_A ? "ANALYTICAL" : "NUMERICAL";
      GALS::ANALYTICAL_FIELDS::Velocity<G<D>, double>(in.g, vi).compute(in.pos, 0.25, w.v);
      break;
    }
    case OP_UNKNOWN: {
      GALS::INPUT_FIELDS::Levelset li = in.li;
      GALS::INPUT_FIELDS::Velocity vi = in.vi;
      li.name = "SQUARE" + std::to_string(who), vi.name = "SHEAR" + std::to_string(who);
      GALS::ANALYTICAL_FIELDS::Levelset<G<D>, double>(in.g, li).compute(in.pos, w.l);
      GALS::ANALYTICAL_FIELDS::Velocity<G<D>, double>(in.g, vi).compute(in.pos, 0.25, w.v);
      break;
    }
    case OP_EULER: Temporal<double, G<D>, GALS::TEMPORAL_SCHEMES::Euler<double, G<D>>>::compute(dt, in.v, w.l); break;
    case OP_SL: Temporal<double, G<D>, GALS::TEMPORAL_SCHEMES::SEMI_LAGRANGIAN::Euler<double, G<D>>>::compute(dt, in.v, w.l); break;
    case OP_GPHI: Gradient<double, G<D>>::compute(w.l.phi(), w.l.psi()); break;
    case OP_GVEL: Gradient<double, G<D>, SecondOrderCentral<double, G<D>>>::compute(in.v.velocity(), w.v.velocityGradient()); break;
    case X_GRIDGEN: {
      G<D> g(in.n[0] + 1, D > 1 ? in.n[1] : 1, D > 2 ? in.n[2] + 2 : 1);
      g.setPadding(2);
      generate(g, boxes[4]);
      res.push_back(g.x(1, 0, 0)[0]), res.push_back(g.dX()[0]), res.push_back(g.size());
      break;
    }
    case X_GRIDQ:
      interior(in.n, [&](int i, int j, int k) {
        res.push_back(in.g.index(i, j, k)), res.push_back(in.g(i, j, k)[0]), res.push_back(in.g.x(i, j, k)[D - 1]);
        const I3 bn = in.g.baseNodeId(in.pos(i, j, k));
        res.push_back(bn[0]);
      });
      for (int c = 0; c < 3; ++c) res.push_back(in.g.dX()[c]), res.push_back(in.g.oneOverDX()[c]), res.push_back(in.g.numCells()[c]), res.push_back(in.g.getMask()[c]);
      res.push_back(in.g.size()), res.push_back(in.g.getPadding()), res.push_back(in.g.totalCells());
      break;
    case X_ARRAY: {
      A<D, double> a(in.g), c(in.s1);
      a = in.s1;
      w.s2 = in.s2;
      w.v1 = in.v2;
      w.m1 = in.m1;
      a(0, 0, 0) = c(0, 0, 0) + 1;
      res.push_back(a(0, 0, 0)), res.push_back(a[0]), res.push_back(c.size());
      break;
    }
    case X_CONT: {
      LS<D> l(in.g);
      LV<D> v(in.g);
      l.phi() = in.l.phi(), l.psi() = in.l.psi();
      v.velocity() = in.v.velocity();
      w.l.phiPrev() = w.l.phi();
      res.push_back(l.phi()(0, 0, 0)), res.push_back(v.velocity()(0, 0, 0)[0]);
      break;
    }
    case X_VEC: {
      V3 a(1, 2, 3), b = in.v1(0, 0, 0);
      M3 m = in.m1(0, 0, 0);
      V3 c = m.dot(a - b * 2.0), d(std::vector<double>{1.5, 2.5, -1}), e;
      M3 k = m - m * 0.5;
      e = c / d;
      I3 u(1, 2, 3), v = u * 2 - I3(4, 5, 6) * u;
      GALS::CPU::VecN<double, 4> q, r;
      q[1] = a[1], r = q, r[3] = 2;
      res.push_back(d.mag()), res.push_back(v.min()), res.push_back(k(1, 2)), res.push_back(k == m), res.push_back(u == v), res.push_back(e.mag()), res.push_back(r[1] + q[3]), res.push_back((c * d)[2]), res.push_back(v.mag());
      res.push_back(c[0]), res.push_back(a.min()), res.push_back(c == b), res.push_back((a - b)[1]);
      break;
    }
    case X_PARSE: {
      GALS::INPUT_FIELDS::InputFields f;
      GALS::INPUT_PARSER::InputParser p;
      p.parse(scratch + "/in", &f);
      res.push_back(f.m_grid->nx), res.push_back(f.m_levelset->radius), res.push_back(f.m_time->dt), res.push_back(f.m_velocity->center.at(1));
      for (char c : f.m_velocity->name + f.m_levelset->name) res.push_back(c);
      break;
    }
    case X_FILES: {
      GALS::UTILITIES::FileUtils f;
      const std::string d = scratch + "/f" + std::to_string(who);
      f.setRootDirectory(d);
      res.push_back(f.createDirectory(d + "/x/y")), res.push_back(f.fileExists(d)), res.push_back(f.fileExists(d + "/z")), res.push_back(f.removeFile(d + "/z"));
      res.push_back(f.createDirectory(d + "/x")), res.push_back(f.removeDirectory(d)), res.push_back(f.fileExists(d)), res.push_back(f.getRootDirectory().size());
      break;
    }
    case X_WRITE: {
      GALS::UTILITIES::FileUtils f;
      f.setRootDirectory(scratch + "/out" + std::to_string(who) + "/");
      f.createDirectory(f.getRootDirectory());
      Write<D>::go(f, in);
      break;
    }
  }
}
template <int D>
bool can(int op)
{
  if (op == OP_LIN && D != 1) return false;
  if (op < NOPS) return applicable<D>(op, 2);
  return true;
}
struct Pair {
  int D, a, b, Db;
  bool shared;
  int cfg;
};
static char *shm;
struct Out {
  std::vector<double> r[2];
};
static char pairtext[512];
static void on_race(const rec::Race &r)
{
  mc::fail("data race: %s by thread %d at %s, %s by thread %d at %s, same address, no order between them", r.w1 ? "write" : "read", r.t1, rec::where(r.pc1), r.w2 ? "write" : "read", r.t2, rec::where(r.pc2));
}
typedef std::function<void()> Fn;
static void __attribute__((noinline)) run_as(int tid, Fn &f)
{
  uintptr_t top = (uintptr_t)__builtin_frame_address(0);
  rec::thread(tid, top - (64ul << 20), top);
  f();
  rec::thread(0, 0, 0);
}
template <int D>
struct Side {
  World<D> &in;
  World<D> w;
  int op, who;
  std::vector<double> res;
  Side(World<D> &in_, int op_, int who_) : in(in_), w(in_), op(op_), who(who_) { set_inputs(w, OP_CIRCLE); }
  void reset()
  {
    data_of(w, who + 7);
    res.clear();
    res.reserve(40000);
  }
  void go() { apply2<D>(in, w, op, cdt[cfg], res, who); }
  std::vector<double> result()
  {
    std::vector<double> o = res;
    for (auto &f : w.snapshot()) o.insert(o.end(), f.begin(), f.end());
    return o;
  }
};
// mode bits: 1 = thread 1 takes part, 2 = thread 2 takes part, 4 = thread 2's operation is executed first
template <int D, int E>
void execute(int a, int b, bool shared, int mode, Out &out, bool warm)
{
  const auto &c = csize[cfg];
  int n1[3] = {c[0][0], D > 1 ? c[0][1] : 1, D > 2 ? c[0][2] : 1};
  int n2[3] = {c[1][0], E > 1 ? c[1][1] : 1, E > 2 ? c[1][2] : 1};
  World<D> in1(n1, 2, boxes[cbox[cfg][0]]);
  World<E> in2(n2, 2, boxes[cbox[cfg][1]]);
  data_of(in1, 1), data_of(in2, 2);
  set_inputs(in1, OP_CIRCLE), set_inputs(in2, OP_CIRCLE);
  Side<D> s1(in1, a, 1);
  // sharing is only possible between operations of one dimension; the cast is the identity then
  World<E> &inb = shared && D == E ? *reinterpret_cast<World<E> *>(&in1) : in2;
  Side<E> s2(inb, b, 2);
  for (int rep = 0; rep <= (warm ? 1 : 0); ++rep) {
    s1.reset(), s2.reset();
    Fn f1 = [&] { s1.go(); }, f2 = [&] { s2.go(); };
    rec::begin();
    if (mode & 4) {
      if (mode & 2) run_as(2, f2);
      if (mode & 1) run_as(1, f1);
    } else {
      if (mode & 1) run_as(1, f1);
      if (mode & 2) run_as(2, f2);
    }
    rec::end();
    out.r[0] = s1.result(), out.r[1] = s2.result();
    if (warm && rep == 0) continue;
  }
}
static void go(const Pair &p, int mode, Out &o, bool warm)
{
  cfg = p.cfg;
  if (p.D == 1 && p.Db == 1) return execute<1, 1>(p.a, p.b, p.shared, mode, o, warm);
  if (p.D == 2 && p.Db == 2) return execute<2, 2>(p.a, p.b, p.shared, mode, o, warm);
  if (p.D == 3 && p.Db == 3) return execute<3, 3>(p.a, p.b, p.shared, mode, o, warm);
  if (p.D == 1 && p.Db == 2) return execute<1, 2>(p.a, p.b, p.shared, mode, o, warm);
  if (p.D == 1 && p.Db == 3) return execute<1, 3>(p.a, p.b, p.shared, mode, o, warm);
  if (p.D == 2 && p.Db == 3) return execute<2, 3>(p.a, p.b, p.shared, mode, o, warm);
}
static const size_t CAP = 1 << 20;
static void child(const Pair &p, int mode, bool warm, Out &o, uint64_t &acc)
{
  double *d = (double *)shm;
  d[0] = -1;
  pid_t c = fork();
  if (c == 0) {
    Out q;
    go(p, mode, q, warm);
    if (q.r[0].size() + q.r[1].size() + 4 < CAP) {
      memcpy(d + 4, q.r[0].data(), 8 * q.r[0].size());
      memcpy(d + 4 + q.r[0].size(), q.r[1].data(), 8 * q.r[1].size());
      d[1] = q.r[0].size(), d[2] = q.r[1].size(), d[3] = rec::accesses;
      d[0] = 1;
    }
    _exit(0);
  }
  int st;
  waitpid(c, &st, 0);
  if (WIFEXITED(st) && WEXITSTATUS(st) == 42) _exit(42);  // reported by the child
  if (d[0] < 0) mc::fail("the operations end the process (status %d)", st);
  o.r[0].assign(d + 4, d + 4 + (size_t)d[1]);
  o.r[1].assign(d + 4 + (size_t)d[1], d + 4 + (size_t)d[1] + (size_t)d[2]);
  acc = (uint64_t)d[3];
}
int main(int argc, char **argv)
{
  mc::init(argc, argv);
  scratch = getenv("VERIF_SCRATCH") ? getenv("VERIF_SCRATCH") : ".";
  FILE *f = fopen((scratch + "/in").c_str(), "w");
  fprintf(f, "general:\n  output_directory: d\ngrid:\n  box:\n    x_min: 0\n    x_max: 4\n    y_min: -2.5\n    y_max: 2\n    z_min: 0\n    z_max: 1\n  cells: [4, 5, 6]\ntime:\n  start: 0\n  end: 1\n  dt: 0.1\n  constant_dt: NO\nvelocity:\n  name: V\n  vector: [1, 2, 3]\n  center: [1, 0, 1]\n  gradient:\n    scheme: S\nlevelset:\n  name: L\n  center: [1, 2, 3]\n  radius: 1.5\n  gradient:\n    scheme: T\n");
  fclose(f);
  shm = (char *)mmap(0, 8 * CAP, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  rec::on_race = on_race;
  std::vector<Pair> ps;
  auto ok = [](int D, int op) { return D == 1 ? can<1>(op) : D == 2 ? can<2>(op) : can<3>(op); };
  for (int D = 1; D <= 3; ++D)
    for (int a = 0; a < X_END; ++a)
      for (int b = 0; b < X_END; ++b)
        if (ok(D, a) && ok(D, b)) {
          ps.push_back({D, a, b, D, true, 0});
          if (a <= b) ps.push_back({D, a, b, D, false, 0});
        }
  for (int D = 1; D <= 3; ++D)
    for (int E = D + 1; E <= 3; ++E)
      for (int a = 0; a < X_END; ++a)
        for (int b = 0; b < X_END; ++b)
          if (ok(D, a) && ok(E, b)) ps.push_back({D, a, b, E, false, 0});
  // other configurations: every operation against itself, a step and a point interpolation (thorough: every pair)
  for (int q = 1; q < NCFG; ++q)
    for (int D = 1; D <= 3; ++D)
      for (int a = 0; a < X_END; ++a)
        for (int b = a; b < X_END; ++b)
          if (ok(D, a) && ok(D, b) && (mc::thorough || a == b || (q < 6 && (b == X_POINT || b == OP_SL))))
            for (int sh = 0; sh < 2; ++sh) ps.push_back({D, a, b, D, sh == 1, q});
  for (auto &p : ps) {
    if (!mc::begin("[%s] || [%s] %s, configuration %d", text({p.D, p.a}).c_str(), text({p.Db, p.b}).c_str(), p.shared ? "sharing grid and inputs" : "on separate grids", p.cfg)) continue;
    uint64_t acc, tot = 0;
    Out alone1, alone2, o;
    child(p, 1, false, alone1, acc);
    child(p, 2, false, alone2, acc);
    for (int mode : {3, 7})
      for (int warm = 0; warm < 2; ++warm) {
        child(p, mode, warm, o, acc);
        tot += acc;
        mc::state();
        if (o.r[0].size() != alone1.r[0].size() || !same_bits(o.r[0].data(), alone1.r[0].data(), 8 * o.r[0].size())) mc::fail("first operation gives another result than alone (order %s)", mode == 3 ? "1,2" : "2,1");
        if (o.r[1].size() != alone2.r[1].size() || !same_bits(o.r[1].data(), alone2.r[1].data(), 8 * o.r[1].size())) mc::fail("second operation gives another result than alone (order %s)", mode == 3 ? "1,2" : "2,1");
      }
    mc::step(tot);
    if (tot == 0) mc::fail("recorder saw no access: the check itself is broken");
    mc::counters["recorded_accesses"] += tot;
    mc::counters["pairs"]++;
  }
  mc::finish();
}
