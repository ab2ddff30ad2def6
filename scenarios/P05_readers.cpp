// P05: readers only ever see committed prefixes, and never go back.
#include "scenarios/world.h"
using namespace h;

SCENARIO(P05, readers, 10)
{
 World w;
 w.k.min_readers = 1;
 w.k.max_readers = 3;
 w.k.max_lives = 1;
 w.run();
}

SCENARIO(P05, readers_split, 10)
{
 World w;
 w.k.min_readers = 1;
 w.k.max_readers = 3;
 w.k.max_lives = 1;
 w.k.split = 0.3;
 w.run();
}

SCENARIO(P05, readers_dirty, 5)
{
 World w;
 w.k.min_readers = 1;
 w.k.max_readers = 2;
 w.k.max_lives = 2;
 w.k.split = 0.1;
 w.k.abort = 0.3;
 w.run();
}
