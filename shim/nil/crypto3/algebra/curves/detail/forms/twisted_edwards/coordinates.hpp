#pragma once
#include <sxn/curve.hpp>
