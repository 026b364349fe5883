#define MV_CONTAINER mv::aos<mv::traits<false, mdds::mtv::lu_factor_t::none, true>>
#include "mtv_main.hpp"
