// Command-line tools of joedb, run as simulated processes (see MAINS).
#pragma once
#include <string>
#include <vector>

namespace h
{
 inline int run_tool(int (*f)(int, char **), std::vector<std::string> args)
 {
  std::vector<char *> argv;
  for (auto &a: args) argv.push_back(a.data());
  argv.push_back(nullptr);
  return f(int(args.size()), argv.data());
 }
}
