// V10: how full the pages of lists, containers and maps are (the explorations of V01 and V02 with another oracle).
#include "vmem_common.h"
#define WITH_MAPS
#if SPLIT < 7
#include "vmem_list.cpp"
#else
#define MAP_DENSITY
#if SPLIT == 7
#define MAP_FIRST
#endif
namespace maps {
#include "vmem_map.cpp"
}
#endif
