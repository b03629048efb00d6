#pragma once
#include <boost/log/utility/setup/console.hpp>
