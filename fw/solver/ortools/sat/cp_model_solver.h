#pragma once
#include "ortools/sat/cp_model.h"
