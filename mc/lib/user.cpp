#include "cases.h"
#include <algorithm>
#include <cmath>
#include <functional>
int mc_user_ic_mode = 1, mc_user_source_mode = 1, mc_user_true_mode = -1;
double mc_user_param[16];
std::function<void(double)> mc_source_hook;
std::vector<std::array<double, 15>> mc_user_table;  // x[3], y[3], ze[3], qx[3], qy[3] per triangle
static void table(double x, double y, double* o) {
    double best = -1e300;
    for (auto& t : mc_user_table) {
        if (x < std::min(t[0], std::min(t[1], t[2])) - 1e-6 || x > std::max(t[0], std::max(t[1], t[2])) + 1e-6)
            continue;
        double d  = (t[1] - t[0]) * (t[5] - t[3]) - (t[2] - t[0]) * (t[4] - t[3]);
        double l1 = ((x - t[0]) * (t[5] - t[3]) - (t[2] - t[0]) * (y - t[3])) / d;
        double l2 = ((t[1] - t[0]) * (y - t[3]) - (x - t[0]) * (t[4] - t[3])) / d;
        double l0 = 1 - l1 - l2, m = std::min(l0, std::min(l1, l2));
        if (m > best) {
            best = m;
            for (int v = 0; v < 3; ++v)
                o[v] = l0 * t[6 + 3 * v] + l1 * t[7 + 3 * v] + l2 * t[8 + 3 * v];
            if (m > 1e-9)
                return;
        }
    }
}
// smooth, non-symmetric fields; mode 0 is all zero
static void field(int mode, double t, double x, double y, double* o) {
    o[0] = o[1] = o[2] = 0;
    if (mode == 7) {  // piecewise linear, one piece per element
        table(x, y, o);
        return;
    }
    x *= 0.1;  // meshes are scaled by ten
    y *= 0.1;
    switch (mode) {
        case 1:
            o[0] = 0.11 * std::sin(0.7 * x + 0.3 * y + 0.2 + 0.5 * t) + 0.05 * std::cos(1.3 * y - 0.4 * x);
            o[1] = 0.23 * std::cos(0.5 * x - 0.8 * y + 0.1 - 0.3 * t);
            o[2] = -0.17 * std::sin(0.9 * x + 0.6 * y - 0.7 + 0.4 * t) + 0.03;
            break;
        case 2:  // steep front, small momentum
            o[0] = 0.5 * std::tanh(3.0 * (x - 1.1 + 0.3 * y));
            o[1] = 0.05 * y - 0.02;
            o[2] = 0.04 * x - 0.03;
            break;
        case 3:  // zero surface, moving water
            o[1] = 0.3 + 0.1 * std::sin(y);
            o[2] = -0.2 + 0.07 * std::cos(0.8 * x);
            break;
        case 4:  // parameters: constant state
            o[0] = mc_user_param[0];
            o[1] = mc_user_param[1];
            o[2] = mc_user_param[2];
            break;
        case 5:  // linear state from parameters
            for (int v = 0; v < 3; ++v)
                o[v] = mc_user_param[3 * v] + mc_user_param[3 * v + 1] * x + mc_user_param[3 * v + 2] * y;
            break;
        case 6:  // oscillating, large gradients
            o[0] = 0.3 * std::sin(4.1 * x + 2.3 * y);
            o[1] = 0.2 * std::cos(3.7 * x - 2.9 * y);
            o[2] = 0.2 * std::sin(2.3 * x + 3.1 * y + 1.0);
            break;
        case 8:
        case 9:
        case 10:
        case 11: {  // a steady current in one of four directions with a small disturbance
            double a = (25. + 90. * (mode - 8)) * M_PI / 180;
            o[0]     = 0.06 * std::sin(0.9 * x - 0.4 * y + 0.3 + 0.2 * t) + 0.02;
            o[1]     = 0.5 * std::cos(a) + 0.02 * std::sin(1.1 * y + 0.5 * x - 0.3 * t);
            o[2]     = 0.5 * std::sin(a) - 0.02 * std::cos(0.8 * x - 0.6 * y + 0.2 * t);
            break;
        }
    }
}
extern "C" {
void mc_user_ic(double t, double x, double y, double* o) { field(mc_user_ic_mode, t, x, y, o); }
void mc_user_true(double t, double x, double y, double* o) { field(mc_user_true_mode < 0 ? mc_user_ic_mode : mc_user_true_mode, t, x, y, o); }
void mc_user_source(double t, double x, double y, double* o) {
    if (mc_source_hook)
        mc_source_hook(t);
    o[0] = o[1] = o[2] = 0;
    x *= 0.1;
    y *= 0.1;
    if (mc_user_source_mode == 1) {
        o[0] = 0.02 * std::cos(0.4 * x + 0.9 * y + t);
        o[1] = 0.05 * std::sin(1.1 * x - 0.2 * y + 2 * t);
        o[2] = -0.04 * std::cos(0.3 * x + 0.8 * y - t);
    }
}
}
