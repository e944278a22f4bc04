// Stub of hwloc for the symbolic build: a machine with a configurable number of processing units. Memory obtained
// from hwloc_alloc_membind is zero-filled (it comes from mmap in hwloc's implementation) and is released by hwloc_free.
#pragma once
#include "sym.h"

#include <cerrno>
#include <cstdlib>
#include <cstring>
struct hwloc_stub_obj
{
    void* cpuset;
    unsigned os_index;
};
struct hwloc_stub_topology
{
    int dummy;
};
typedef hwloc_stub_obj* hwloc_obj_t;
typedef hwloc_stub_topology* hwloc_topology_t;
typedef void* hwloc_cpuset_t;
typedef void* hwloc_bitmap_t;
enum
{
    HWLOC_OBJ_PU,
    HWLOC_OBJ_CORE
};
enum
{
    HWLOC_CPUBIND_THREAD = 1,
    HWLOC_CPUBIND_STRICT = 2
};
enum
{
    HWLOC_MEMBIND_BIND = 1,
    HWLOC_MEMBIND_NOCPUBIND = 2,
    HWLOC_MEMBIND_STRICT = 4,
    HWLOC_MEMBIND_THREAD = 8,
    HWLOC_MEMBIND_BYNODESET = 16
};
inline unsigned hwloc_stub_n_pus = 2;
inline hwloc_stub_obj hwloc_stub_objs[8];
inline hwloc_stub_topology hwloc_stub_topo;
inline unsigned hwloc_stub_n_alloc = 0, hwloc_stub_n_free = 0;
inline int hwloc_topology_init(hwloc_topology_t* t)
{
    *t = &hwloc_stub_topo;
    return 0;
}
inline int hwloc_topology_load(hwloc_topology_t)
{
    return 0;
}
inline void hwloc_topology_destroy(hwloc_topology_t)
{
}
inline int hwloc_get_nbobjs_by_type(hwloc_topology_t, int)
{
    return hwloc_stub_n_pus;
}
inline hwloc_obj_t hwloc_get_obj_by_type(hwloc_topology_t, int, unsigned i)
{
    if(i >= hwloc_stub_n_pus)
        return nullptr;
    hwloc_stub_objs[i].cpuset = &hwloc_stub_objs[i];
    return &hwloc_stub_objs[i];
}
// whether binding fails, as it does on machines without the permission to do so
inline bool hwloc_stub_bind_fails = false;
inline void hwloc_stub_check_set(void* set)
{
    bool known = false;
    for(unsigned i = 0; i < hwloc_stub_n_pus; ++i)
        known = known || set == (void*) &hwloc_stub_objs[i];
    __sym_assert(known, "a worker is bound to processing units which exist");
}
inline int hwloc_set_cpubind(hwloc_topology_t, void* set, int)
{
    hwloc_stub_check_set(set);
    return hwloc_stub_bind_fails ? -1 : 0;
}
inline int hwloc_get_cpubind(hwloc_topology_t, void*, int)
{
    return 0;
}
inline int hwloc_set_membind(hwloc_topology_t, void* set, int, int)
{
    hwloc_stub_check_set(set);
    return hwloc_stub_bind_fails ? -1 : 0;
}
inline int hwloc_bitmap_asprintf(char** s, void* set)
{
    hwloc_stub_check_set(set);
    *s = (char*) malloc(2);
    (*s)[0] = '0';
    (*s)[1] = 0;
    return 1;
}
inline void* hwloc_alloc_membind(hwloc_topology_t, size_t n, void*, int, int)
{
    return __sym_zalloc(n);
}
inline int hwloc_free(hwloc_topology_t, void* p, size_t)
{
    free(p);
    return 0;
}
