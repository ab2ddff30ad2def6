// P09: locks of the server: exclusion, hand-over, time-out, conflicts.
#include "scenarios/net.h"
using namespace h;

SCENARIO(P09, lock_exclusion, 6)
{
 Net n;
 n.k.min_clients = 2;
 n.k.max_clients = 4;
 n.k.hold = 0.5;
 n.k.local_writer = 0.2;
 n.run();
}

SCENARIO(P09, lock_timeout, 10)
{
 Net n;
 n.k.min_clients = 2;
 n.k.max_clients = 4;
 n.k.hold = 0.5;
 n.k.lock_timeout = 1;
 n.k.local_writer = 0.1;
 n.run();
}

SCENARIO(P09, lock_lost, 6)
{
 Net n;
 n.k.min_clients = 2;
 n.k.max_clients = 4;
 n.k.hold = 0.5;
 n.k.lock_timeout = 0.5;
 n.k.reset = 0.01;
 n.k.stall = 0.01;
 n.k.kill_client = 0.3;
 n.run();
}
