#pragma once
#include "ptrie.h"
