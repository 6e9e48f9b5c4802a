#pragma once
#define QCOROQUICK_EXPORT __attribute__((visibility("default")))
#define QCOROQUICK_NO_EXPORT
#define QCOROQUICK_DEPRECATED
