#pragma once
#include "core/std_defaults.h"
#include <forward_list>
