#pragma once
#include "qlten/framework/linalg.h"
