// Force-included first: simfil names ::nullptr_t, which <cstddef> alone need not declare.
#pragma once
#ifdef __cplusplus
#include <cstddef>
using std::nullptr_t;
#endif
