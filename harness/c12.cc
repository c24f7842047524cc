// C12: history independence. Every operation is first run in a pristine process image (forked before any library call)
// to get its reference bits; then all operation sequences up to a depth run in one process, each result compared.
#include <sys/mman.h>
#include <sys/wait.h>
#include "gals/input-parser.h"
#include "world.h"

struct Item {
  int D, op, size, pad, box;
  int n[3];
  double dt;
};
static std::vector<Item> items;
static std::vector<std::vector<double>> ref;

template <int D>
void run_d(const Item &it, std::vector<double> &out)
{
  World<D> w(it.n, it.pad, boxes[it.box]);
  set_inputs(w, it.op, it.size);
  w.fill(it.size + 3, 0, 0, it.dt);
  std::vector<double> res;
  apply(w, it.op, it.dt, res);
  auto s = w.snapshot();
  for (auto &f : s) out.insert(out.end(), f.begin(), f.end());
  out.insert(out.end(), res.begin(), res.end());
}
static std::string scratch;
static void run_parse(const Item &it, std::vector<double> &out)
{
  GALS::INPUT_FIELDS::InputFields f;
  f.m_levelset->radius = -5, f.m_time->dt = -6, f.m_time->start = -7, f.m_time->end = -8;
  f.m_grid->nx = f.m_grid->ny = f.m_grid->nz = -9;
  f.m_grid->x_min = f.m_grid->x_max = f.m_grid->y_min = f.m_grid->y_max = f.m_grid->z_min = f.m_grid->z_max = -10;
  GALS::INPUT_PARSER::InputParser p;
  p.parse(scratch + "/in" + std::to_string(it.size), &f);
  for (double x : {f.m_levelset->radius, f.m_time->dt, f.m_time->start, f.m_time->end, f.m_grid->x_min, f.m_grid->x_max, f.m_grid->y_min, f.m_grid->y_max, f.m_grid->z_min, f.m_grid->z_max}) out.push_back(x);
  out.push_back(f.m_grid->nx), out.push_back(f.m_grid->ny), out.push_back(f.m_grid->nz);
  for (double x : f.m_velocity->center) out.push_back(x);
  for (double x : f.m_velocity->vector) out.push_back(x);
  for (char c : f.m_velocity->name + "|" + f.m_levelset->name + "|" + f.m_general->output_directory + "|" + f.m_time->constant_dt + "|" + f.m_velocity->gradient_scheme + "|" + f.m_levelset->gradient_scheme) out.push_back(c);
}
// Alterations of one argument, in place on otherwise unchanged objects: every element or the middle element of one field,
// one of the option values, the step size. A result remembered from before the alteration shows.
static const int NALT = 2 * NFIELDS + 9;
template <int D>
void alter(World<D> &w, const Item &it, int alt, double &dt)
{
  if (alt < 2 * NFIELDS) {
    const int field = alt / 2;
    w.fields([&](auto &f, int id) {
      if (id != field) return;
      typedef typename ElOf<typename std::remove_reference<decltype(f)>::type>::type E;
      const size_t mid = w.g.index((w.n[0] - 1) / 2, (w.n[1] - 1) / 2, (w.n[2] - 1) / 2);
      for (size_t t = 0; t < f.size(); ++t)
        for (int c = 0; c < El<E>::N; ++c)
          if (alt % 2 == 0 || t == mid) {
            const double x = El<E>::get(f[t], c);
            El<E>::set(f[t], c, id == F_VEL ? 0.5 * x : id == F_POS ? (c < D ? 0.5 * (x + 0.5 * (w.b.lo[c] + w.b.hi[c])) : 0) : -0.75 * x + 0.125);
          }
    });
    return;
  }
  switch (alt - 2 * NFIELDS) {
    case 0: dt = 0; break;
    case 1: dt = -dt; break;
    case 2: dt = 0.5 * dt; break;
    case 3: w.li.radius += 0.125; break;
    case 4: w.li.center[0] += 0.5; break;
    case 5: w.vi.center[1] -= 0.25; break;
    case 6: w.vi.gradient_scheme = w.vi.gradient_scheme == "ANALYTICAL" ? "NUMERICAL" : "ANALYTICAL"; break;
    case 7: w.li.name = w.li.name == "CIRCLE" ? "CIRCLF" : "CIRCLE"; break;
    case 8: w.vi.name = w.vi.name == "CIRCULAR" ? "CIRCULAS" : D > 1 ? "CIRCULAR" : "X"; break;
  }
}
template <int D>
void once_d(World<D> &w, const Item &it, int alt, std::vector<double> &out)
{
  double dt = it.dt;
  set_inputs(w, it.op, it.size);
  w.fill(it.size + 3, 0, 0, it.dt);
  if (alt >= 0) alter(w, it, alt, dt);
  std::vector<double> res;
  apply(w, it.op, dt, res);
  auto s = w.snapshot();
  out.clear();
  for (auto &f : s) out.insert(out.end(), f.begin(), f.end());
  out.insert(out.end(), res.begin(), res.end());
}
template <int D>
void alt_ref(const Item &it, int alt, std::vector<double> &out)
{
  World<D> w(it.n, it.pad, boxes[it.box]);
  once_d(w, it, alt, out);
}
// base, altered, base, altered on one set of objects
template <int D>
void alt_seq(const Item &it, int alt, const std::vector<double> &base, const std::vector<double> &want)
{
  World<D> w(it.n, it.pad, boxes[it.box]);
  for (int r = 0; r < 4; ++r) {
    std::vector<double> o;
    once_d(w, it, r % 2 ? alt : -1, o);
    const std::vector<double> &x = r % 2 ? want : base;
    mc::step(), mc::state();
    if (o.size() != x.size() || !same_bits(&o[0], &x[0], 8 * o.size())) mc::fail("%s: call %d on the same objects, after an argument was changed in place (%s, case %d), differs from a fresh process", ops[it.op].name, r + 1, alt < 2 * NFIELDS ? fname[alt / 2] : "options", alt);
  }
}
// histories that reuse one set of objects: repeat the operation on the same world
template <int D>
void rerun_d(const Item &it, std::vector<double> &out)
{
  World<D> w(it.n, it.pad, boxes[it.box]);
  for (int rep = 0; rep < 3; ++rep) {
    // regenerate the grid between repetitions: same geometry, so the same results
    if (rep) generate(w.g, boxes[(it.box + 1) % NB]), generate(w.g, boxes[it.box]);
    set_inputs(w, it.op, it.size);
    w.fill(it.size + 3, 0, 0, it.dt);
    std::vector<double> res, o;
    apply(w, it.op, it.dt, res);
    auto s = w.snapshot();
    for (auto &f : s) o.insert(o.end(), f.begin(), f.end());
    o.insert(o.end(), res.begin(), res.end());
    if (rep && (o.size() != out.size() || !same_bits(&o[0], &out[0], 8 * o.size()))) mc::fail("%s: repetition %d on the same objects gives another result", ops[it.op].name, rep);
    out = o;
  }
}
static void run(const Item &it, std::vector<double> &out, bool again = false)
{
  if (it.D == 0) return run_parse(it, out);
  if (it.D == 1) return again ? rerun_d<1>(it, out) : run_d<1>(it, out);
  if (it.D == 2) return again ? rerun_d<2>(it, out) : run_d<2>(it, out);
  again ? rerun_d<3>(it, out) : run_d<3>(it, out);
}
static std::string text(const Item &it)
{
  char b[256];
  if (it.D == 0)
    snprintf(b, sizeof b, "parse file %d", it.size);
  else
    snprintf(b, sizeof b, "%s %dD %dx%dx%d pad %d", ops[it.op].name, it.D, it.n[0], it.n[1], it.n[2], it.pad);
  return b;
}

int main(int argc, char **argv)
{
  mc::init(argc, argv);
  scratch = getenv("VERIF_SCRATCH") ? getenv("VERIF_SCRATCH") : ".";
  // same shape with another box / padding / data, a transposed shape, a bigger and a smaller one
  struct Conf {
    int n[3], pad, box;
    double dt;
  };
  static const Conf cf[] = {{{5, 3, 2}, 3, 2, 0.2}, {{5, 3, 2}, 3, 4, 0.2}, {{5, 3, 2}, 2, 2, -0.4}, {{3, 5, 2}, 3, 2, 0.2}, {{2, 2, 2}, 2, 1, 0.1}, {{17, 6, 5}, 2, 3, 0.2}, {{1, 1, 1}, 2, 2, 0.2}};
  for (int D = 1; D <= 3; ++D)
    for (int s = 0; s < 7; ++s)
      for (int op = 0; op < NOPS; ++op) {
        Item it = {D, op, s, cf[s].pad, cf[s].box, {cf[s].n[0], D > 1 ? cf[s].n[1] : 1, D > 2 ? cf[s].n[2] : 1}, cf[s].dt};
        bool ok = D == 1 ? applicable<1>(op, it.pad) : D == 2 ? applicable<2>(op, it.pad) : applicable<3>(op, it.pad);
        if (ok) items.push_back(it);
      }
  for (int f = 0; f < 3; ++f) {
    FILE *o = fopen((scratch + "/in" + std::to_string(f)).c_str(), "w");
    if (f != 1) fprintf(o, "general:\n  output_directory: dir%d\n", f);
    if (f != 2) fprintf(o, "grid:\n  box:\n    x_min: %d\n    x_max: 4\n    y_min: -2.5\n    y_max: %d\n    z_min: 0\n    z_max: 1\n  cells: [4, 5, %d]\n", -f, f + 2, f + 6);
    fprintf(o, "time:\n  start: %d\n  end: %d\n  dt: 0.%d\n  constant_dt: %s\n", f, f + 3, f + 1, f ? "YES" : "NO");
    if (f != 0) fprintf(o, "velocity:\n  name: V%d\n  vector: [1, 2, %d]\n  center: [%d, 0, 1]\n  gradient:\n    scheme: S%d\n", f, f, f, f);
    if (f != 1) fprintf(o, "levelset:\n  name: L%d\n  center: [1, 2, %d]\n  radius: %d.5\n  gradient:\n    scheme: T%d\n", f, f, f, f);
    fclose(o);
    items.push_back({0, 0, f, 0, 0, {0, 0, 0}, 0});
  }
  const size_t M = items.size();
  // pristine references: one forked image per operation, results through shared memory
  ref.resize(M);
  const size_t CAP = 1 << 20;
  double *shm = (double *)mmap(0, 8 * (CAP + 8), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  for (size_t i = 0; i < M; ++i) {
    snprintf(mc::desc, sizeof mc::desc, "pristine run of: %s", text(items[i]).c_str());
    shm[0] = -1;
    pid_t p = fork();
    if (p == 0) {
      std::vector<double> o;
      run(items[i], o);
      if (o.size() < CAP) {
        memcpy(shm + 1, &o[0], 8 * o.size());
        shm[0] = o.size();
      }
      _exit(0);
    }
    int st;
    waitpid(p, &st, 0);
    if (shm[0] < 0) {
      if (WIFEXITED(st) && WEXITSTATUS(st) == 42) _exit(42);  // the child reported the violation
      mc::fail("operation dies in a fresh process: %s", text(items[i]).c_str());
    }
    ref[i].assign(shm + 1, shm + 1 + (size_t)shm[0]);
  }
  auto check = [&](size_t i, const char *hist, bool again) {
    std::vector<double> o;
    run(items[i], o, again);
    mc::step();
    mc::state();
    if (o.size() != ref[i].size() || !same_bits(&o[0], &ref[i][0], 8 * o.size())) {
      size_t q = 0;
      while (q < o.size() && q < ref[i].size() && same_bits(&o[q], &ref[i][q], 8)) ++q;
      mc::fail("after [%s], %s gives another result than in a fresh process (item %zu: %.17g, fresh %.17g)", hist, text(items[i]).c_str(), q, q < o.size() ? o[q] : 0.0, q < ref[i].size() ? ref[i][q] : 0.0);
    }
  };
  // one argument changed in place
  for (size_t i = 0; i < M; ++i) {
    const Item &it = items[i];
    if (it.D == 0 || (it.size != 0 && it.size != 5 && it.size != 6)) continue;
    if (it.size == 5 && !mc::thorough && it.D == 3) continue;
    if (!mc::begin("one argument changed in place between calls: %s", text(it).c_str())) continue;
    for (int alt = 0; alt < NALT; ++alt) {
      shm[0] = -1;
      pid_t p = fork();
      if (p == 0) {
        std::vector<double> o;
        it.D == 1 ? alt_ref<1>(it, alt, o) : it.D == 2 ? alt_ref<2>(it, alt, o) : alt_ref<3>(it, alt, o);
        if (o.size() < CAP) {
          memcpy(shm + 1, &o[0], 8 * o.size());
          shm[0] = o.size();
        }
        _exit(0);
      }
      int st;
      waitpid(p, &st, 0);
      if (shm[0] < 0) {
        if (WIFEXITED(st) && WEXITSTATUS(st) == 42) _exit(42);
        mc::fail("operation dies in a fresh process: %s", text(it).c_str());
      }
      std::vector<double> want(shm + 1, shm + 1 + (size_t)shm[0]);
      p = fork();
      if (p == 0) {
        it.D == 1 ? alt_seq<1>(it, alt, ref[i], want) : it.D == 2 ? alt_seq<2>(it, alt, ref[i], want) : alt_seq<3>(it, alt, ref[i], want);
        _exit(0);
      }
      waitpid(p, &st, 0);
      if (WIFEXITED(st) && WEXITSTATUS(st) == 42) _exit(42);
      if (!WIFEXITED(st) || WEXITSTATUS(st)) mc::fail("process of a sequence with a changed argument ended with status %x", st);
      mc::step(4), mc::state(4);
      mc::counters["in-place changes"]++;
    }
  }
  // repetitions on the same objects
  for (size_t i = 0; i < M; ++i)
    if (mc::begin("repeat on the same objects: %s", text(items[i]).c_str())) check(i, "repetition", true);
  // long histories: the same operation on the same objects, and on new ones, thousands of times in one process
  const int LONG = mc::thorough ? 70000 : 7000;
  for (size_t i = 0; i < M; ++i) {
    const Item &it = items[i];
    if (it.D ? it.size != 4 : it.size != 0) continue;
    for (int fresh = 0; fresh < 2; ++fresh) {
      const int times = it.D ? LONG : LONG / 7;
      if (it.D == 0 && !fresh) continue;
      if (!mc::begin("%d times in a row on %s: %s", times, fresh ? "new objects each time" : "the same objects", text(it).c_str())) continue;
      int st;
      pid_t p = fork();
      if (p == 0) {
        auto series = [&](auto &w) {
          std::vector<double> o;
          for (int r = 0; r < times; ++r) {
            once_d(w, it, -1, o);
            if (o.size() != ref[i].size() || !same_bits(&o[0], &ref[i][0], 8 * o.size())) mc::fail("%s: call %d on the same objects differs from a fresh process", ops[it.op].name, r + 1);
          }
        };
        if (fresh) {
          for (int r = 0; r < times; ++r) check(i, "the same operation many times", false);
        } else if (it.D == 1) {
          World<1> w(it.n, it.pad, boxes[it.box]);
          series(w);
        } else if (it.D == 2) {
          World<2> w(it.n, it.pad, boxes[it.box]);
          series(w);
        } else {
          World<3> w(it.n, it.pad, boxes[it.box]);
          series(w);
        }
        _exit(0);
      }
      waitpid(p, &st, 0);
      if (WIFEXITED(st) && WEXITSTATUS(st) == 42) _exit(42);
      if (!WIFEXITED(st) || WEXITSTATUS(st)) mc::fail("process of a long sequence ended with status %x", st);
      mc::step(times), mc::state(times);
      mc::counters["long histories"]++;
    }
  }
  // all ordered pairs of adjacent operations, each block starting in a pristine process image: i j1 i j2 i j3 ...
  for (size_t i = 0; i < M; ++i) {
    if (!mc::begin("all pairs starting with: %s", text(items[i]).c_str())) continue;
    pid_t p = fork();
    if (p == 0) {
      std::string d = mc::desc;
      check(i, "nothing", false);
      for (size_t j = 0; j < M; ++j) {
        snprintf(mc::desc, sizeof mc::desc, "%s; then %s", d.c_str(), text(items[j]).c_str());
        check(j, text(items[i]).c_str(), false);
        check(i, text(items[j]).c_str(), false);
      }
      _exit(0);
    }
    int st;
    waitpid(p, &st, 0);
    if (!WIFEXITED(st)) mc::fail("process of a pair sequence ended by signal %d", WTERMSIG(st));
    if (WEXITSTATUS(st) == 42) _exit(42);  // reported by the child
    if (WEXITSTATUS(st)) mc::fail("process of a pair sequence ended with status %d", WEXITSTATUS(st));
    mc::step(2 * M + 1), mc::state(2 * M + 1);
    mc::counters["ordered_pairs"] += 2 * M;
  }
  // all sequences of length 3 over a reduced alphabet (quick: one configuration and dimension per operation; thorough: all
  // dimensions of every operation, one configuration each)
  std::vector<size_t> red;
  for (size_t i = 0; i < M; ++i) {
    const Item &t = items[i];
    if (t.D == 0 ? t.size == 0 || mc::thorough : t.size == (t.op + t.D) % 6 && (mc::thorough || t.op == OP_LIN || t.D == 2 + t.op % 2)) red.push_back(i);
  }
  for (size_t a : red) {
    if (!mc::begin("all triples starting with: %s", text(items[a]).c_str())) continue;
    for (size_t b : red)
      for (size_t c : red) {
        std::string h = text(items[a]) + " ; " + text(items[b]);
        check(a, "earlier sequences", false);
        check(b, text(items[a]).c_str(), false);
        check(c, h.c_str(), false);
        mc::counters["triples"]++;
      }
  }
  mc::finish();
}
