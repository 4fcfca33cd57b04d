#pragma once
#include <sxn/num.hpp>
