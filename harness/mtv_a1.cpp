#define MV_CONTAINER mv::aos<mv::traits<false, mdds::mtv::lu_factor_t::lu16, false>>
#include "mtv_main.hpp"
