#pragma once
#define PROMETHEUS_CPP_PULL_EXPORT
#define PROMETHEUS_CPP_PULL_NO_EXPORT
#define PROMETHEUS_CPP_PULL_DEPRECATED
