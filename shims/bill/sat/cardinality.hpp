#pragma once
#include "solver.hpp"
