#pragma once
#include <mizugaki/mz.h>
