#include "boost/random/random_model.h"
