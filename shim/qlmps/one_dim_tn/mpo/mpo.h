#pragma once
#include "qlmps/one_dim_tn/framework/ten_vec.h"
namespace qlmps { template<class T> using MPO = TenVec<T>; }
