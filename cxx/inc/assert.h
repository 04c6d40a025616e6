#include "verif_assert.h"
