#define MV_CONTAINER mv::soa<mv::traits<true, mdds::mtv::lu_factor_t::none, true>>
#include "mtv_main.hpp"
