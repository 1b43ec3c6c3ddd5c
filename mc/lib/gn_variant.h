// the other ways to differentiate that gn_definitions.hpp offers
#include "general_definitions.hpp"
#include "problem/SWE/swe_definitions.hpp"
#include "problem/Green-Naghdi/gn_definitions.hpp"
#undef D_PROJECTION
#undef B_PROJECTION
#if MC_GN / 10 == 1
#define D_GREENGAUSS
#define B_GREENGAUSS
#else
#define D_LEASTSQUARES
#define B_LEASTSQUARES
#endif
#if MC_GN % 10 == 1
#define D_RECON_INT
#define B_RECON_INT
#elif MC_GN % 10 == 2
#define D_RECON_LS
#define B_RECON_LS
#else
#define D_RECON_AVG
#define B_RECON_AVG
#endif
