#pragma once
#include <limestone/ls.h>
