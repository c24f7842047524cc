#ifndef VERIF_FIELDS_INC
#define VERIF_FIELDS_INC
// Generic velocity and level set (no symmetries), used by the programs (double) and the model (long double).
// u = A*(0.3 + 0.5x - 0.7y + 0.2xy + 0.4 sin(1.3x + 0.7y)) * c(t),  v = A*(-0.2 + 0.6x + 0.35y - 0.25xx + 0.3 cos(0.9x - 1.1y)) * c(t)
// c(t) = 1 + 0.5 sin(2t/T);  phi = sin(1.1x + 0.3) cos(0.9y - 0.2) + 0.15 x x y
#define VF_C(t, T) (1 + 0.5 * sin(2 * (t) / (T)))
template <class R> static R vf_u(R x, R y, R t, R T, R A) { return A * (R(0.3) + R(0.5) * x - R(0.7) * y + R(0.2) * x * y + R(0.4) * sin(R(1.3) * x + R(0.7) * y)) * VF_C(t, T); }
template <class R> static R vf_ux(R x, R y, R t, R T, R A) { return A * (R(0.5) + R(0.2) * y + R(0.4) * R(1.3) * cos(R(1.3) * x + R(0.7) * y)) * VF_C(t, T); }
template <class R> static R vf_uy(R x, R y, R t, R T, R A) { return A * (-R(0.7) + R(0.2) * x + R(0.4) * R(0.7) * cos(R(1.3) * x + R(0.7) * y)) * VF_C(t, T); }
template <class R> static R vf_v(R x, R y, R t, R T, R A) { return A * (-R(0.2) + R(0.6) * x + R(0.35) * y - R(0.25) * x * x + R(0.3) * cos(R(0.9) * x - R(1.1) * y)) * VF_C(t, T); }
template <class R> static R vf_vx(R x, R y, R t, R T, R A) { return A * (R(0.6) - R(0.5) * x - R(0.3) * R(0.9) * sin(R(0.9) * x - R(1.1) * y)) * VF_C(t, T); }
template <class R> static R vf_vy(R x, R y, R t, R T, R A) { return A * (R(0.35) + R(0.3) * R(1.1) * sin(R(0.9) * x - R(1.1) * y)) * VF_C(t, T); }
template <class R> static R vf_p(R x, R y) { return sin(R(1.1) * x + R(0.3)) * cos(R(0.9) * y - R(0.2)) + R(0.15) * x * x * y; }
template <class R> static R vf_px(R x, R y) { return R(1.1) * cos(R(1.1) * x + R(0.3)) * cos(R(0.9) * y - R(0.2)) + R(0.3) * x * y; }
template <class R> static R vf_py(R x, R y) { return -R(0.9) * sin(R(1.1) * x + R(0.3)) * sin(R(0.9) * y - R(0.2)) + R(0.15) * x * x; }
template <class R> static R vf_pxy(R x, R y) { return -R(0.99) * cos(R(1.1) * x + R(0.3)) * sin(R(0.9) * y - R(0.2)) + R(0.3) * x; }
#undef VF_C
#endif
