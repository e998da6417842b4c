// In-process MPI: ranks are fibers (one virtual process each).
#pragma once
#include "fiber.h"
#include "mpi.h"

struct MpiMode {
  bool sync_send = false;      // MPI_Send/Isend complete only once matched (no buffering)
  bool late_copy = false;      // Isend reads its buffer as late as allowed
  bool late_recv = false;      // Irecv buffer is scribbled and filled only on completion
  bool sync_coll = false;      // every collective synchronises (otherwise as little as allowed)
  int order = 0;               // scheduling policy 0 ascending, 1 descending, 2 round robin, 3 last started first
  bool yield_calls = false;    // reschedule at every MPI call
};
extern MpiMode mpi_mode;
struct MpiStats { uint64_t sends = 0, bytes = 0, colls = 0; };
extern MpiStats mpi_stats;
struct kvmc_comm { int id; std::vector<int> mem; std::map<int, uint64_t> seq; bool freed = false; };
// runs body(rank) on n ranks; the world communicator has n members.
void mpi_run(int n, const std::function<void(int)>& body);
MPI_Comm mpi_make_comm(const std::vector<int>& members);   // ranks of the world, in the new order; before or during a run
Str mpi_mode_str(const MpiMode& m);
std::vector<MpiMode> mpi_modes();     // the distinct completion/buffering modes explored
