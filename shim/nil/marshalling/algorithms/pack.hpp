#pragma once
#include <sxn/marshalling.hpp>
