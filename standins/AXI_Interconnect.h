#pragma once
#include "axi_kit.h"
