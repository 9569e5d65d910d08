#pragma once
#include <data_relay_grpc/dr.h>
