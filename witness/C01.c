#include "wsched.h"
