#pragma once
#include <folly/Range.h>
