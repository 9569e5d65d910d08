#pragma once
#include "mem.h"
