#pragma once
#include <sxn/plonk.hpp>
