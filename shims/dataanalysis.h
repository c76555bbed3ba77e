#pragma once
#include "ap.h"
