#include "H5File.hpp"
