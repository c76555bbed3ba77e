#pragma once
#include "dynamic_truth_table.hpp"
