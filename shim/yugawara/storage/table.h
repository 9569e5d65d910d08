#pragma once
#include <yugawara/yg.h>
