#pragma once
#include "hdf5.h"
