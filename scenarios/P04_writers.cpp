// P04: transactions of several processes sharing a file are serializable.
#include "scenarios/world.h"
using namespace h;

SCENARIO(P04, shared_writers, 10)
{
 World w;
 w.k.min_writers = 2;
 w.k.max_writers = 4;
 w.k.max_readers = 0;
 w.run();
}

SCENARIO(P04, shared_writers_split, 6)
{
 World w;
 w.k.min_writers = 2;
 w.k.max_writers = 3;
 w.k.max_readers = 0;
 w.k.split = 0.2;
 w.run();
}
