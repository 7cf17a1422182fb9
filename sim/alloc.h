#pragma once
#include <cstddef>
#include <cstdint>
namespace sim {
struct AllocWorld { bool armed = false, tracking = false; unsigned mode = 0; unsigned long nth = 0, seen = 0, refused = 0; uint64_t mask = 0; long live = 0; };
extern AllocWorld allocs;      // mode 0: every allocation fails; 1: the n-th; 2: all from the n-th; 3: by mask
void allocInit();
}
