#include "perl.h"
