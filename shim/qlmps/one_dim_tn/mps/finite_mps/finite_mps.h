#pragma once
#include "qlmps/one_dim_tn/framework/ten_vec.h"
