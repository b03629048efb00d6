#pragma once
#include <boost/log/trivial.hpp>
namespace boost { namespace log { namespace sources {} namespace keywords {} namespace expressions {} } }
