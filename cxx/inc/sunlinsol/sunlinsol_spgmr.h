#include "cvode/cvode.h"
