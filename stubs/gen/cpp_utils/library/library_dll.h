// Stand-in for the header the build generates from cmake_utils/templates (symbol visibility only).
#pragma once
#define CPP_UTILS_DllAPI
