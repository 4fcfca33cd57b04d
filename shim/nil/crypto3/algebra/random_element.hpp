#pragma once
#include <sxn/field.hpp>
