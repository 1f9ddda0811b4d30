// Stand-in for the generated build configuration
#pragma once
#define MLRLCOMMON_LIBRARY_NAME "common"
#define MLRLCOMMON_LIBRARY_VERSION "0"
#define MLRLCOMMON_TARGET_ARCHITECTURE "x86_64"
#define MLRLBOOSTING_LIBRARY_NAME "boosting"
#define MLRLBOOSTING_LIBRARY_VERSION "0"
#define MLRLBOOSTING_TARGET_ARCHITECTURE "x86_64"
#define MLRLSECO_LIBRARY_NAME "seco"
#define MLRLSECO_LIBRARY_VERSION "0"
#define MLRLSECO_TARGET_ARCHITECTURE "x86_64"
#ifndef MULTI_THREADING_SUPPORT_ENABLED
#define MULTI_THREADING_SUPPORT_ENABLED 1
#endif
#define GPU_SUPPORT_ENABLED 0
