#pragma once
#define QCORONETWORK_EXPORT __attribute__((visibility("default")))
#define QCORONETWORK_NO_EXPORT
#define QCORONETWORK_DEPRECATED
