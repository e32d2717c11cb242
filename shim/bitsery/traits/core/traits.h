#pragma once
#include "../../details/core.h"
