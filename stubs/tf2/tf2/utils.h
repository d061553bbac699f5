#pragma once
#include <tf2/LinearMath/all.h>
