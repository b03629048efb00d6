// Stand-in for Boost.Log in the instrumented builds: the streamed expressions
// are evaluated (they may take locks of the code under test) and discarded, so
// that no uninstrumented logging core is part of the explored system.
#pragma once
#include <sstream>
#include <functional>
#include <memory>
#define BOOST_LOG_TRIVIAL(level) ::std::ostringstream().flush()
