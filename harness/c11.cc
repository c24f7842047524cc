// C11: frame conditions of every operator.
#include "world.h"

// Is component c of field id an active part of the output (must be written)?
template <int D>
bool must_write(int op, int id, int c, int N, int i, int j, int k, const int *n)
{
  if (op == OP_HERMQ && (i >= (n[0] + 1) / 2 || j >= (n[1] + 1) / 2 || k >= (n[2] + 1) / 2)) return false;
  if (N == 3) return c < D;
  if (N == 9) {
    int r = c / 3, q = c % 3, lim = D;
    return r < lim && q < lim;
  }
  return true;
}
template <int D>
bool may_write(int op, int i, int j, int k, const int *n)
{
  if (i < 0 || j < 0 || k < 0 || i >= n[0] || j >= n[1] || k >= n[2]) return false;
  return op != OP_HERMQ || (i < (n[0] + 1) / 2 && j < (n[1] + 1) / 2 && k < (n[2] + 1) / 2);
}
static int comps(int D, int id)
{
  switch (id) {
    case F_V1:
    case F_V2:
    case F_PSI:
    case F_PSIP:
    case F_PSII:
    case F_VEL:
    case F_POS:
      return 3;
    case F_M1:
    case F_VGRAD:
      return 9;
    case F_MIX:
    case F_MIXP:
      return D == 1 ? 0 : D == 2 ? 1 : 4;
  }
  return 1;
}

template <int D>
void frame(World<D> &w, int op, uint64_t salt, double dt)
{
  std::vector<std::vector<double>> after[2];
  set_inputs(w, op);
  for (int poison = 0; poison < 2; ++poison) {
    w.fill(salt, ops[op].outs, poison, dt);
    std::string nm = w.vi.name + "|" + w.vi.gradient_scheme + "|" + w.li.name;
    auto before = w.snapshot();
    std::vector<double> res;
    apply(w, op, dt, res);
    mc::step();
    if (nm != w.vi.name + "|" + w.vi.gradient_scheme + "|" + w.li.name) mc::fail("%s changed its input parameters", ops[op].name);
    after[poison] = w.snapshot();
    for (int id = 0; id <= NFIELDS; ++id) {
      if (before[id].size() != after[poison][id].size()) mc::fail("%s changed the size of field %s", ops[op].name, id < NFIELDS ? fname[id] : "grid");
      const int N = id < NFIELDS ? comps(D, id) : 1;
      if (id == NFIELDS || !(ops[op].outs >> id & 1)) {
        if (!before[id].empty() && !same_bits(&before[id][0], &after[poison][id][0], 8 * before[id].size())) {
          size_t q = 0;
          while (same_bits(&before[id][q], &after[poison][id][q], 8)) ++q;
          mc::fail("%s changed %s (slot %zu component %zu): %g -> %g", ops[op].name, id < NFIELDS ? fname[id] : "the grid or the input parameters", q / N, q % N, before[id][q], after[poison][id][q]);
        }
        continue;
      }
      size_t s = 0;
      nodes<D>(w.n, w.pad, [&](int i, int j, int k) {
        mc::state();
        for (int c = 0; c < N; ++c) {
          bool ch = !same_bits(&before[id][s * N + c], &after[poison][id][s * N + c], 8);
          if (ch && !may_write<D>(op, i, j, k, w.n)) mc::fail("%s changed ghost or unqueried node (%d,%d,%d) of %s", ops[op].name, i, j, k, fname[id]);
        }
        ++s;
      });
    }
  }
  // written: the result does not depend on what the outputs held before
  for (int id = 0; id < NFIELDS; ++id) {
    if (!(ops[op].outs >> id & 1)) continue;
    const int N = comps(D, id);
    size_t s = 0;
    nodes<D>(w.n, w.pad, [&](int i, int j, int k) {
      if (may_write<D>(op, i, j, k, w.n))
        for (int c = 0; c < N; ++c)
          if (must_write<D>(op, id, c, N, i, j, k, w.n)) {
            double x = after[0][id][s * N + c], y = after[1][id][s * N + c];
            if (!same_bits(&x, &y, 8)) mc::fail("%s: output %s at (%d,%d,%d) component %d depends on its prior content (%g / %g): not written", ops[op].name, fname[id], i, j, k, c, x, y);
          }
      ++s;
    });
  }
}

template <int D>
void all()
{
  for (auto &s : sizes<D>(2, D == 1 ? 16 : D == 2 ? (mc::thorough ? 9 : 4) : (mc::thorough ? 4 : 2)))
    for (int pad : {1, 2, 3, 4}) {
      size_t vol = 1;
      for (int a = 0; a < D; ++a) vol *= s.n[a] + 2 * pad;
      if (too_big(s, pad, vol, (mc::thorough ? 60000u : 5000u))) continue;
      if (giant(s)) {
        if (D > 1 && (s.n[0] < 41 || s.n[0] == 300)) continue;
        for (int op = 0; op < NOPS; ++op) {
          if (!applicable<D>(op, pad) || !mc::begin("dim %d cells %dx%dx%d padding %d: %s", D, s.n[0], s.n[1], s.n[2], pad, ops[op].name)) continue;
          World<D> w(s.n, pad, boxes[op % NB]);
          frame<D>(w, op, 1 + op % 3, 0.2);
          mc::counters[ops[op].name]++;
        }
        continue;
      }
      if (!mc::begin("dim %d cells %dx%dx%d padding %d: all operators", D, s.n[0], s.n[1], s.n[2], pad)) continue;
      for (int v = 0; v < 3; ++v) {
        if (vol > 250 && v != (int)(vol + pad) % 3) continue;
        World<D> w(s.n, pad, boxes[(s.n[0] + pad + 3 * v) % NB]);
        static const double dts[] = {0.2, -0.5, 0};
        for (int op = 0; op < NOPS; ++op)
          if (applicable<D>(op, pad)) frame<D>(w, op, v + 1, dts[v]), mc::counters[ops[op].name]++;
      }
    }
}
int main(int argc, char **argv)
{
  mc::init(argc, argv);
  all<1>(), all<2>(), all<3>();
  mc::finish();
}
