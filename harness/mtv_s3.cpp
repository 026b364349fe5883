#ifdef __SSE2__
#define MV_SSE mdds::mtv::lu_factor_t::sse2_x64_lu4
#else
#define MV_SSE mdds::mtv::lu_factor_t::lu4
#endif
#define MV_CONTAINER mv::soa<mv::traits<false, MV_SSE, true>>
#include "mtv_main.hpp"
