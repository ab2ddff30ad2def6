// P08: the server file is the linear history of acknowledged pushes.
#include "scenarios/net.h"
using namespace h;

SCENARIO(P08, server_calm, 4)
{
 Net n;
 n.k.local_writer = 0.4;
 n.run();
}

SCENARIO(P08, server_reset, 10)
{
 Net n;
 n.k.local_writer = 0.3;
 n.k.reset = 0.01;
 n.k.stall = 0.005;
 n.run();
}

SCENARIO(P08, server_kill_clients, 6)
{
 Net n;
 n.k.local_writer = 0.3;
 n.k.kill_client = 0.5;
 n.run();
}

SCENARIO(P08, server_restart, 8)
{
 Net n;
 n.k.local_writer = 0.2;
 n.k.kill_server = 0.5;
 n.k.stop_server = 0.5;
 n.k.robust = 0.6;
 n.k.server_lives = 2;
 n.run();
}

SCENARIO(P08, server_power, 4)
{
 Net n;
 n.k.power = 1;
 n.k.robust = 0.5;
 n.k.server_lives = 2;
 n.run();
}
