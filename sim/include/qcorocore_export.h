#pragma once
#define QCOROCORE_EXPORT __attribute__((visibility("default")))
#define QCOROCORE_NO_EXPORT
#define QCOROCORE_DEPRECATED
