/* Deterministic in-process simulation of MPI: every rank is a fiber, the
 * scheduler and the network obey a seeded adversarial policy. */
#ifndef SIMMPI_H
#define SIMMPI_H
#include <cstdint>
#include <functional>
#include <string>

namespace sim {

enum Policy { ROUND_ROBIN = 0, RANDOM, PRIORITY, LATE_DELIVERY, LIFO, N_POLICY };
enum Buffering { EAGER = 0, RENDEZVOUS, MIXED, N_BUFFERING };

struct Config {
  int P = 1;
  uint64_t seed = 0;
  int policy = ROUND_ROBIN;
  int buffering = EAGER;
  int lax_collectives = 0;      /* ranks may leave rooted collectives early */
  int nodesize = 1 << 30;       /* ranks per simulated shared memory node */
  /* run in a permuted communicator of P out of P + extra processes; the others are idle */
  bool sub = false; int extra = 0; uint64_t perm = 0;
};

struct Report {                 /* what is left behind after a run */
  int messages = 0, requests = 0, comms = 0, windows = 0, files = 0, types = 0;
  long switches = 0, sends = 0, collectives = 0, rendezvous = 0, any_source = 0;
  std::string text () const;
};

/* Runs fn(rank) for all ranks to completion; deadlock etc. go to simfail. */
void run (const Config & cfg, const std::function<void (int)> & fn, Report * rep = nullptr);

int rank ();                    /* rank of the running fiber in world (), -1 outside */
int world_size ();              /* P */
bool is_sub ();                 /* world () is not the communicator of all processes */
void *world ();                 /* the communicator of the P processes, an MPI_Comm */
uint64_t calls ();              /* number of MPI calls so far in this run */
/* cooperative barrier among all ranks outside of the simulated network */
void host_barrier ();

}

/* provided by the engine: never return */
extern "C" void sim_violation (const char *fmt, ...) __attribute__ ((noreturn, format (printf, 1, 2)));
extern "C" void sim_internal (const char *fmt, ...) __attribute__ ((noreturn, format (printf, 1, 2)));
#endif
