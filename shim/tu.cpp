#include <cassert>
#include "utils/limits.hpp"
#include "utils/utility.hpp"
#include "algorithms/Refinement.hpp"
#include "core/CliArgs.hpp"
#include "core/parsing.hpp"
