#pragma once
#include "core/std_defaults.h"
#include <list>
