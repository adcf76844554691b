#include "datetime/calendar.hpp"
