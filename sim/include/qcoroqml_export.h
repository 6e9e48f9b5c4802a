#pragma once
#define QCOROQML_EXPORT __attribute__((visibility("default")))
#define QCOROQML_NO_EXPORT
#define QCOROQML_DEPRECATED
