#pragma once
#include "qlten/framework/base.h"
