// P20: an aborted transaction leaves no trace.
#include "scenarios/world.h"
using namespace h;

SCENARIO(P20, abort_shared, 10)
{
 World w;
 w.k.abort = 0.35;
 w.k.min_writers = 1;
 w.k.max_writers = 3;
 w.k.max_readers = 1;
 w.run();
}

SCENARIO(P20, abort_exclusive, 4)
{
 World w;
 w.k.abort = 0.35;
 w.k.exclusive = true;
 w.k.max_readers = 1;
 w.run();
}
