#include "context.hpp"
