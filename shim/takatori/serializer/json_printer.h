#pragma once
#include <takatori/tk.h>
