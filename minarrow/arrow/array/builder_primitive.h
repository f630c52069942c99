#pragma once
#include "arrow/mini_arrow.h"
