#pragma once
#include <sxn/empty.hpp>
