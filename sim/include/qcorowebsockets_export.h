#pragma once
#define QCOROWEBSOCKETS_EXPORT __attribute__((visibility("default")))
#define QCOROWEBSOCKETS_NO_EXPORT
#define QCOROWEBSOCKETS_DEPRECATED
