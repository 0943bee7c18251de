#pragma once
#include "box2d.h"
