// P02: committed transactions survive the death of any process.
#include "scenarios/world.h"
using namespace h;

SCENARIO(P02, kill_exclusive, 8)
{
 World w;
 w.k.exclusive = true;
 w.k.kill = 0.9;
 w.k.max_lives = 3;
 w.k.max_readers = 0;
 w.run();
}

SCENARIO(P02, kill_shared, 10)
{
 World w;
 w.k.kill = 0.6;
 w.k.max_lives = 3;
 w.k.max_readers = 1;
 w.run();
}
