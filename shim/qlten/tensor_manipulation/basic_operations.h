#pragma once
#include "qlten/framework/ops.h"
