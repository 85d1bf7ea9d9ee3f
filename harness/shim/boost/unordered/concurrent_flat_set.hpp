#pragma once
#include <boost/unordered/unordered_flat_set.hpp>
