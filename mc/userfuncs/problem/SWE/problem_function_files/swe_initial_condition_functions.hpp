#ifndef MC_USER_ic_HPP
#define MC_USER_ic_HPP
// user functions, settable at run time by the checker (the program compiles its own in the same way)
extern "C" void mc_user_ic(double t, double x, double y, double* out);
namespace SWE {
inline StatVector<double, SWE::n_variables> ic_q(const double t, const Point<2>& pt) {
    double v[3];
    mc_user_ic(t, pt[GlobalCoord::x], pt[GlobalCoord::y], v);
    StatVector<double, SWE::n_variables> r{v[0], v[1], v[2]};
    return r;
}
}
#endif
