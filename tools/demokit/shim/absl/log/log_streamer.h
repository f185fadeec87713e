#pragma once
#include "absl/log/log.h"
