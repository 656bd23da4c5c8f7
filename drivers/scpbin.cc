// The command line solver, as it is. The cxxopts that is installed here is older than the one the
// project fetches and lacks ParseResult::contains, for which its count serves.
#include <gcs/current_state.hh>
#include <gcs/exception.hh>
#include <gcs/problem.hh>
#include <gcs/scp_reader.hh>
#include <gcs/solve.hh>

#include <cxxopts.hpp>

#include <algorithm>
#include <cstdlib>
#include <filesystem>
#include <format>
#include <fstream>
#include <iostream>
#include <iterator>
#include <map>
#include <optional>
#include <print>
#include <ranges>
#include <set>
#include <sstream>
#include <string>
#include <vector>

#define contains count
#include <scp/glasgow_scp_solver.cc>
