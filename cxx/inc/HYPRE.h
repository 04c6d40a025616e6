#include "hypre_model.h"
