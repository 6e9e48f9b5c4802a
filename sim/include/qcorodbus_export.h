#pragma once
#define QCORODBUS_EXPORT __attribute__((visibility("default")))
#define QCORODBUS_NO_EXPORT
#define QCORODBUS_DEPRECATED
