// Internal interface between the scheduler runtime and the environment models.
#pragma once
#include <cstdint>
bool mc_tracked();
// Record an event on an abstract shared object (state identity), write or read.
void mc_event_on(void *addr, bool wr, uint64_t extra);
// Full happens-before edge through an abstract shared object (kernel objects).
void mc_hb_full(void *addr);
void mc_net_reset();
