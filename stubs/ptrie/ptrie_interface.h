#pragma once
#include "ptrie_map.h"
