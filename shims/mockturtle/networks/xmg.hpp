#pragma once
#include "shim_cnet.hpp"
