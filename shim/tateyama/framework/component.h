#pragma once
#include <tateyama/ty.h>
