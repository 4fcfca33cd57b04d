#pragma once
#include <sxn/r1cs.hpp>
