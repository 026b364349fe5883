#define MV_CONTAINER mv::soa<mv::traits<true, mdds::mtv::lu_factor_t::lu8, false>>
#include "mtv_main.hpp"
